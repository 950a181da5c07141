"""Runs the Kani harnesses of a property over /repo, and replays their counterexamples natively."""
import glob, hashlib, os, re, subprocess, time

def run(pid, spec, tier, out, V):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", HOME="/root", PATH="/usr/local/bin:/root/.cargo/bin:" + os.environ.get("PATH", ""))
    for k in ("RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "CARGO_INCREMENTAL"):
        env.pop(k, None)
    res = dict(runs=[], viols=[], problems=[], samples=[])
    names = [h for h, _ in spec["kani"]]
    base = ["cargo", "kani", "--target-dir", f"{V}/build/kani", "--output-format", "terse"]
    def go(args, budget):
        t = time.time()
        try:
            r = subprocess.run(base + args, cwd=f"{V}/kani", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=budget)
            return r.stdout, time.time() - t
        except subprocess.TimeoutExpired:
            subprocess.run(["pkill", "-f", f"{V}/build/kani"])
            return None, time.time() - t
    n = str(min(8, os.cpu_count() or 4))
    text, wall = go(["-j", n, "--exact"] + [x for h in names for x in ("--harness", h)], 400 if tier == "quick" else 2400)
    if text is None:
        res["problems"].append("kani did not finish")
        return res
    # one block of output per harness, attributed to its thread
    who, blocks = {}, {}
    for m in re.finditer(r"^Thread (\d+): (?:Checking harness ([\w:]+)\.\.\.|\s*\nVERIFICATION RESULT:(.*?)^Verification Time: ([\d.]+)s)", text, re.M | re.S):
        if m.group(2):
            who[m.group(1)] = m.group(2)
        elif m.group(1) in who:
            blocks[who[m.group(1)]] = (m.group(3), float(m.group(4)))
    if not blocks:
        res["problems"].append("kani gave no results: " + "\n".join(l for l in text.splitlines() if l.startswith("error"))[:1000] + text[-500:])
        return res
    for h, bounds in spec["kani"]:
        if h not in blocks:
            res["problems"].append(f"{h}: no result")
            continue
        b, t = blocks[h]
        cov = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", b)
        checks = re.search(r"\*\* (\d+) of (\d+) failed", b)
        ok = "VERIFICATION:- SUCCESSFUL" in b
        res["runs"].append(dict(harness=h, bounds=bounds, complete=ok, wall=t, covers=[cov.group(0)] if cov else [],
                                stats=dict(paths=1, claims=int(checks.group(2)) if checks else 0, claims_solver=int(checks.group(2)) if checks else 0, queries=1, solver_ns=int(t * 1e9), validated=0)))
        if ok:
            if not cov or cov.group(1) != cov.group(2):
                res["problems"].append(f"{h}: not every cover property is satisfied")
            else:
                res["samples"].append(f"{h}: {b.strip()}")
            continue
        failed = re.findall(r'^Failed Checks: (.*)$', b, re.M)
        if not failed or any("unwinding assertion" in f or "recursion unwinding" in f or "is not currently supported" in f for f in failed):
            res["problems"].append(f"{h}: undecided: {failed}")
            continue
        text2, _ = go(["-Z", "concrete-playback", "--concrete-playback=print", "--exact", "--harness", h], 300)
        done = False
        for c in re.finditer(r"Check for `(\w+)`: \"(.*?)\"\n.*?let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];", text2 or "", re.S):
            if c.group(1) == "cover":
                continue
            vals = [" ".join(v.split(",")) for v in re.findall(r"vec!\[([\d, ]*)\]", c.group(3))]
            body = h.split("::")[-1] + "\n" + "\n".join(vals) + "\n"
            os.makedirs(f"{V}/build/replays", exist_ok=True)
            f = f"{V}/build/replays/{pid}-{hashlib.sha1(body.encode()).hexdigest()[:10]}.kani"
            open(f, "w").write(body)
            got = []
            for prof in ([], ["--release"]):
                e = dict(env, RUSTUP_TOOLCHAIN="stable", RUSTFLAGS="-Awarnings")
                r = subprocess.run(["cargo", "run", "--offline", "--quiet", "--manifest-path", f"{V}/kani/replay/Cargo.toml", "--target-dir", f"{V}/build/kani-replay"] + prof + ["--", f],
                                   env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
                got.append((prof or ["--dev"], r.returncode, r.stdout.strip()[-400:]))
            res["viols"].append((f, c.group(2).strip('"'), h, any(g[1] == 1 for g in got), got))
            done = True
            if any(g[1] == 1 for g in got):
                break
        if not done:
            res["problems"].append(f"{h}: fails ({failed}), but no counterexample was found")
    return res
