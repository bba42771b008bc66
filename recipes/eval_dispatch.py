"""C10: the dispatch on expressions, literal arrays and objects (crates/hcl-rs/src/eval/impls.rs)."""
import libeval
NAME, USES = "eval_dispatch", libeval.USES
MINE = {"expression", "vec", "object", "object_key", "evaluate_object_key"}
OTHERS = {"operation", "ctx_child_expr", "ctx_lookup_var", "conditional", "traversal", "func_call", "for_expr", "template_expr"}


def build(repo):
    out, fns = libeval.functions(repo, MINE, MINE | OTHERS)
    return [libeval.TYPES] + libeval.types(repo) + [libeval.SPEC, libeval.X_PRELUDE] + out, fns
