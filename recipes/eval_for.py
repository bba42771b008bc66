"""C13: for expressions, their collections and conditions (crates/hcl-rs/src/eval/{impls,expr}.rs)."""
import libeval
NAME, USES = "eval_for", libeval.USES
MINE = {"evaluate_collection", "from_for_expr", "from_for_directive", "collection_len", "collection_into_iter", "iter_cond", "iter_next_ctx", "iter_next", "for_expr", "evaluate_bool", "conditional"}


def build(repo):
    out, fns = libeval.functions(repo, MINE, MINE | {"expression", "ctx_child", "ctx_declare_var", "evaluate_object_key"})
    return [libeval.TYPES] + libeval.types(repo) + [libeval.SPEC, libeval.X_PRELUDE] + out, fns
