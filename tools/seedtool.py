"""Author and validate planted changes: seedtool.py SPEC.py [ID...]

SPEC.py defines SEEDS: id -> dict(property, file, old, new, needs, breaks, demo[, deps]).  For each: apply
to /repo, build, stable tests, demo, the property's check; undo; write /verif/seeded/<id>/.
"""
import importlib.util, json, os, re, subprocess, sys

REPO, OUT = "/repo", "/verif/seeded"
DEMO_SH = '''#!/bin/bash
# Runs the program beside this file against the crates in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
rm -rf /tmp/hcl-demo-%(id)s
mkdir -p /tmp/hcl-demo-%(id)s/src
cp "$here/main.rs" /tmp/hcl-demo-%(id)s/src/main.rs
cp "$repo/Cargo.lock" /tmp/hcl-demo-%(id)s/Cargo.lock
cat > /tmp/hcl-demo-%(id)s/Cargo.toml <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
hcl-rs = { path = "$repo/crates/hcl-rs" }
hcl-edit = { path = "$repo/crates/hcl-edit" }
hcl-primitives = { path = "$repo/crates/hcl-primitives" }
serde = { version = "1", features = ["derive"] }
TOML
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/hcl-demo-%(id)s/target
unset RUSTFLAGS
cd /tmp/hcl-demo-%(id)s && cargo build --offline -q && timeout 60 ./target/debug/demo
rc=$?
cd /
rm -rf /tmp/hcl-demo-%(id)s
exit $rc
'''


def sh(cmd, timeout=900, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=timeout, **kw)


def main():
    spec = importlib.util.spec_from_file_location("seeds", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ids = sys.argv[2:] or list(m.SEEDS)
    for i in ids:
        s = m.SEEDS[i]
        assert sh("git -C /repo status --porcelain").stdout == "", "repo not clean"
        edits = s.get("edits") or [(s["file"], s["old"], s["new"])]
        bad = None
        for path, old, new in edits:
            base = sh(f"git -C /repo show 08c449e:{path}").stdout
            cur = open(f"{REPO}/{path}").read()
            if cur.count(old) != 1:
                bad = f"{path}: old text found {cur.count(old)} times"
            elif old not in base:
                bad = f"{path}: old text is not original"
        if bad:
            print(i, "SKIP", bad)
            continue
        d = f"{OUT}/{i}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/main.rs", "w").write(s["demo"].strip() + "\n")
        open(f"{d}/demo.sh", "w").write(DEMO_SH % {"id": i})
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        clean = sh(f"bash {d}/demo.sh", cwd=REPO)
        try:
            for path, old, new in edits:
                t = open(f"{REPO}/{path}").read().replace(old, new)
                open(f"{REPO}/{path}", "w").write(t)
            open(f"{d}/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            b = sh("bash /tmp/rt.sh")
            ok = "missing [] 238" in b.stdout
            dem = sh(f"bash {d}/demo.sh", cwd=REPO)
            chk = sh(f"/verif/check {s['property']} quick") if ok else None
        finally:
            sh("git -C /repo checkout -- .")
        v = [l for l in (chk.stdout.splitlines() if chk else []) if l.startswith("VIOLATION") or l.startswith("failing input") or l.startswith("failed obl")]
        print(i, "tests", "ok" if ok else "FAIL " + b.stdout[-300:], "demo clean", clean.returncode, "patched", dem.returncode,
              "" if clean.returncode == 0 and dem.returncode != 0 else (clean.stderr + dem.stderr + dem.stdout)[-300:],
              "check", chk.returncode if chk else None, " || ".join(x[:160] for x in v), flush=True)


main()
