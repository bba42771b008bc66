"""C12: traversals (crates/hcl-rs/src/eval/expr.rs)."""
import libeval
NAME, USES = "eval_access", libeval.USES
MINE = {"traversal", "evaluate_traversal", "evaluate_splat", "evaluate_index_expr", "evaluate_array_value", "evaluate_object_value"}


def build(repo):
    out, fns = libeval.functions(repo, MINE, MINE | {"expression"})
    return [libeval.TYPES] + libeval.types(repo) + [libeval.SPEC, libeval.X_PRELUDE] + out, fns
