"""C09: operators (crates/hcl-rs/src/eval/impls.rs)."""
import libeval
NAME, USES = "eval_ops", libeval.USES


def build(repo):
    out, fns = libeval.functions(repo, {"unary", "binary", "operation"}, {"unary", "binary", "operation", "expression"})
    return [libeval.TYPES] + libeval.types(repo) + [libeval.SPEC, libeval.X_PRELUDE] + out, fns
