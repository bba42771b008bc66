"""C14: rendering templates (crates/hcl-rs/src/eval/{template,impls}.rs, template/mod.rs, hcl-primitives template.rs)."""
import libeval
NAME, USES = "eval_template", libeval.USES
MINE = {g.id for g in libeval.REGS if g.prop == "C14"}


def build(repo):
    out, fns = libeval.functions(repo, MINE, MINE | {"expression", "evaluate_bool", "from_for_directive", "collection_into_iter", "iter_next"})
    return [libeval.TYPES] + libeval.types(repo) + [libeval.SPEC, libeval.X_PRELUDE] + out, fns
