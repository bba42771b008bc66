"""Assemble a Verus file from a recipe, run Verus on it, classify the outcome."""
import importlib, json, os, re, subprocess, sys, threading, time
import rx

_ASSEMBLE = threading.Lock()   # rx.CANARY is global

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, "work")

FAIL_MSG = [
    "postcondition not satisfied", "precondition not satisfied", "invariant not satisfied",
    "assertion failed", "possible arithmetic underflow/overflow", "possible division by zero",
    "decreases not satisfied", "possible bit shift underflow/overflow", "unreachable",
    "assert_by", "cannot show", "could not prove", "possible panic", "recommendation not met",
    "loop invariant not satisfied", "index out of bounds", "possible out of bounds",
]
TRUST = re.compile(r"\b(assume_specification|external_body|external_type_specification|axiom|admit|assume)\b")


def assemble(recipe, repo, mutate=None):
    out, fns = recipe.build(repo)
    text = "#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, non_snake_case)]\n"
    text += "use vstd::prelude::*;\n" + getattr(recipe, "USES", "") + "\nverus! {\n" + "\n".join(out) + "\n} // verus!\nfn main() {}\n"
    return text, fns


def run_verus(path, rlimit=60, extra=()):
    t = time.time()
    cmd = ["verus", os.path.basename(path), "--output-json", "--time-expanded", "--rlimit", str(rlimit),
           "--multiple-errors", "4", "--triggers-mode", "silent", *extra]
    env = dict(os.environ)
    env.pop("RUSTUP_TOOLCHAIN", None)
    try:
        p = subprocess.run(cmd, cwd=os.path.dirname(path), capture_output=True, text=True, timeout=int(os.environ.get("VERUS_TIMEOUT", "240")), env=env)
    except subprocess.TimeoutExpired:
        return {"status": "undecided", "why": "verus timed out", "wall": time.time() - t, "verified": 0, "errors": 0,
                "stderr": "", "cmd": " ".join(cmd)}
    wall = time.time() - t
    res = {"cmd": " ".join(cmd), "wall": wall, "stderr": p.stderr, "verified": 0, "errors": 0, "smt_ms": 0}
    try:
        d = json.loads(p.stdout)
    except ValueError:
        res.update(status="lost", why="verus produced no result: " + p.stderr[:300])
        return res
    vr = d.get("verification-results", {})
    res["verified"] = vr.get("verified", 0)
    res["errors"] = vr.get("errors", 0)
    try:
        res["smt_ms"] = sum(m.get("time", 0) for m in d["times-ms"]["smt"]["smt-run-module-times"])
    except Exception:
        res["smt_ms"] = d.get("times-ms", {}).get("smt", {}).get("total", 0)
    # classify diagnostics
    msgs = re.findall(r"^error(?:\[[^\]]*\])?: (.*)$", p.stderr, re.M)
    msgs = [m for m in msgs if not m.startswith("aborting due to")]
    if vr.get("success") and not msgs:
        res["status"] = "proved"
        return res
    if vr.get("encountered-vir-error") or not vr or "verified" not in vr:
        res.update(status="lost", why="verifier rejects the extracted text: " + "; ".join(msgs[:3]))
        return res
    rl = [m for m in msgs if "resource limit" in m.lower() or "rlimit" in m.lower()]
    other = [m for m in msgs if not any(f in m for f in FAIL_MSG) and m not in rl]
    hard = [m for m in msgs if any(f in m for f in FAIL_MSG)]
    if hard:
        res["status"] = "failed"
        res["failed"] = hard
    elif rl:
        res.update(status="undecided", why="; ".join(rl[:3]))
    else:
        res.update(status="lost", why="; ".join(other[:3]) or "unclassified verifier error")
    return res


def blocks(stderr):
    """The diagnostics, one string per error."""
    parts = re.split(r"(?m)^(?=error)", stderr)
    return [p.strip() for p in parts if p.startswith("error") and "aborting due" not in p]


def prove(name, prop):
    """Run recipe `name`; returns a result dict."""
    if os.path.join(VERIF, "recipes") not in sys.path:
        sys.path.insert(0, os.path.join(VERIF, "recipes"))
    os.makedirs(os.path.join(WORK, prop), exist_ok=True)
    path = os.path.join(WORK, prop, name + ".rs")
    res = {"recipe": name}
    try:
        with _ASSEMBLE:
            recipe = importlib.import_module(name)
            text, fns = assemble(recipe, REPO)
    except rx.Lost as e:
        res.update(status="lost", why=str(e), verified=0, errors=0, wall=0, functions=[], trusted=[], rewrites=[], cmd="verus")
        return res
    open(path, "w").write(text)
    r = run_verus(path, rlimit=getattr(recipe, "RLIMIT", 60), extra=getattr(recipe, "EXTRA", ()))
    res.update(r)
    res["file"] = path
    res["functions"] = [f"{os.path.relpath(f.path, REPO)}::{f.name}" for f in fns]
    res["rewrites"] = sorted({w for f in fns for w in f.rewrites})
    trusted = []
    for i, line in enumerate(text.splitlines(), 1):
        m = TRUST.search(line)
        if m and not line.strip().startswith("//"):
            trusted.append((line.strip() if line.strip() != "#[verifier::external_body]" else "external_body " + text.splitlines()[i].strip())[:200])
    res["trusted"] = trusted
    if r["status"] == "proved":
        # Vacuity: with `assert(false)` at the start of every contracted function none may verify.
        try:
            with _ASSEMBLE:
                ctext = assemble_canary(recipe)
        except rx.Lost as e:
            ctext = None
        if ctext is not None:
            cpath = os.path.join(WORK, prop, name + "_canary.rs")
            open(cpath, "w").write(ctext)
            c = run_verus(cpath, rlimit=getattr(recipe, "RLIMIT", 60), )
            n = len(re.findall(r"error: assertion failed", c["stderr"]))
            res["canary"] = {"functions": len(fns), "refuted": n, "wall": c["wall"]}
            live = sum(1 for f in fns if not getattr(f, "dead", False))
            if n < live:
                res.update(status="lost", why=f"vacuity guard: {n} of {live} contracted bodies reachable")
    return res


def assemble_canary(recipe):
    # rebuild with canaries: Fn.render consults this flag
    rx.CANARY = True
    try:
        return assemble(recipe, REPO)[0]
    finally:
        rx.CANARY = False


if __name__ == "__main__":
    r = prove(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "scratch")
    err = r.pop("stderr", "")
    print(json.dumps(r, indent=1))
    print(err[:6000])
