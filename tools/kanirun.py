"""Run Kani harnesses of a crate in /verif/kani against the real crates and classify the outcome."""
import os, re, subprocess, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def prove(crate, harnesses, timeout=780):
    d = os.path.join(VERIF, "kani", crate)
    cmd = ["cargo", "kani", "-j", "8", "--output-format", "terse", "--target-dir", os.path.join(VERIF, "target", "kani"),
           "--exact"]
    for h in harnesses:
        cmd += ["--harness", h]
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    for k in ("RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "RUSTFLAGS"):
        env.pop(k, None)
    t = time.time()
    try:
        p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env,
                             start_new_session=True)
        out, _ = p.communicate(timeout=timeout)
        timed_out = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        timed_out = True
    res = {"crate": crate, "cmd": " ".join(cmd), "wall": time.time() - t, "harnesses": {}, "stderr": out}
    # output of parallel harnesses is grouped by thread
    cur = {}
    last = None
    for line in out.splitlines():
        m = re.match(r"Thread (\d+): Checking harness (\S+?)\.\.\.", line)
        if m:
            cur[m.group(1)] = m.group(2)
            continue
        m = re.match(r"Thread (\d+):\s*$", line)
        if m:
            last = cur.get(m.group(1))
            continue
        m = re.match(r"Checking harness (\S+?)\.\.\.", line)
        if m:
            last = m.group(1)
            continue
        if last is None:
            continue
        h = res["harnesses"].setdefault(last, {"checks": 0, "failed": 0, "status": "undecided", "time": 0.0, "failures": []})
        m = re.search(r"\*\* (\d+) of (\d+) failed", line)
        if m:
            h["failed"], h["checks"] = int(m.group(1)), int(m.group(2))
        m = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", line)
        if m:
            h["covers"] = [int(m.group(1)), int(m.group(2))]
        if line.startswith("Failed Checks:"):
            h["failures"].append(line[len("Failed Checks:"):].strip())
        if "VERIFICATION:- SUCCESSFUL" in line:
            h["status"] = "proved"
        if "VERIFICATION:- FAILED" in line:
            # unsupported constructs and unwinding limits are tool limits, not failed obligations
            soft = [f for f in h["failures"] if re.search(r"unwinding assertion|is not currently supported|unsupported", f)]
            h["status"] = "failed" if len(soft) < len(h["failures"]) else "undecided"
        m = re.search(r"Verification Time: ([\d.]+)s", line)
        if m:
            h["time"] = float(m.group(1))
        if "CBMC failed" in line or "out of memory" in line.lower():
            h["status"] = "undecided"
    miss = [h for h in harnesses if h not in res["harnesses"]]
    if miss and not timed_out and len(miss) == len(harnesses):
        res["status"] = "lost"
        res["why"] = "kani did not run: " + "; ".join(re.findall(r"^error.*$", out, re.M)[:3])
        return res
    for h in miss:
        res["harnesses"][h] = {"checks": 0, "failed": 0, "status": "undecided", "time": 0.0, "failures": []}
    for h in res["harnesses"].values():
        c = h.get("covers")
        if h["status"] == "proved" and c and c[0] < c[1]:
            h["status"] = "undecided"
            h["why"] = "vacuity guard: a cover property is unreachable"
    st = {h["status"] for h in res["harnesses"].values()}
    res["status"] = "failed" if "failed" in st else "proved" if st == {"proved"} else "undecided"
    if res["status"] == "undecided":
        res["why"] = "no verdict for " + ", ".join(k for k, h in res["harnesses"].items() if h["status"] != "proved")
    return res
