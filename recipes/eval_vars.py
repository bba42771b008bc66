"""C10: contexts, variables, functions and the dispatch on expressions (crates/hcl-rs/src/eval)."""
import libeval
NAME, USES = "eval_vars", libeval.USES
MINE = {"ctx_default", "ctx_new", "ctx_child", "ctx_child_expr", "ctx_declare_var", "ctx_declare_func", "ctx_var", "ctx_func",
        "ctx_lookup_var", "ctx_lookup_func"}


def build(repo):
    out, fns = libeval.functions(repo, MINE, MINE)
    return [libeval.TYPES] + libeval.types(repo) + [libeval.SPEC, libeval.X_PRELUDE] + out, fns
