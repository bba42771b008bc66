"""C11: calls of functions (crates/hcl-rs/src/eval/{impls,func,expr}.rs, value/mod.rs)."""
import libeval
NAME, USES = "eval_call", libeval.USES
MINE = {"func_call", "evaluate_array", "is_satisfied_by", "func_def_call", "func_args_new"} | libeval.VALUE_FNS


def build(repo):
    out, fns = libeval.functions(repo, MINE, MINE | {"expression", "ctx_lookup_func"})
    return [libeval.TYPES] + libeval.types(repo) + [libeval.SPEC, libeval.X_PRELUDE] + out, fns
