#!/usr/bin/env python3
"""check.py <property>: decides one property of /repo's current tree.

Exit 0: it held on everything explored.  Exit 1 and a VIOLATION line: it is broken (the
counterexample was replayed on a native build).  Anything else: the check could not decide."""
import hashlib, json, os, re, shutil, subprocess, sys, time, glob, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from specs import SPECS, REPO_FILES

ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", HOME="/root",
           PATH="/usr/local/bin:/root/.cargo/bin:" + os.environ.get("PATH", ""))
for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "CARGO_INCREMENTAL", "ADAPTON_NO_PURITY", "ADAPTON_STRUCTURAL",
          "ADAPTON_CHECK_DCG", "ADAPTON_WRITE_DCG", "ADAPTON_GMLOG_DCG"):
    ENV.pop(k, None)
TARGET = os.path.join(V, "build", "symex")

class Undecided(Exception):
    pass

def build(profile, features):
    args = ["cargo", "build", "--offline", "--quiet", "--manifest-path", f"{V}/symex/Cargo.toml", "--target-dir", TARGET,
            "--no-default-features", "--features", features]
    if profile != "dev":
        args += ["--profile", profile]
    r = subprocess.run(args, env=dict(ENV, RUSTFLAGS="-Awarnings"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode != 0:
        raise Undecided("the harness does not build against /repo:\n" + r.stdout[-3000:])
    # keep one binary per profile and feature set
    return os.path.join(TARGET, {"dev": "debug"}.get(profile, profile), "symx")

def explore(binary, h, bounds, out, seed, budget):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    w = str(os.cpu_count() or 4)
    r = subprocess.run([binary, "explore", h, bounds, out, "64", "997", str(seed), str(budget), w, "25", "12"],
                       env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=budget + 120)
    if r.returncode != 0:
        raise Undecided(f"explorer failed on {h} {bounds}: rc {r.returncode} {r.stderr[-2000:]}")
    return json.loads(r.stdout.strip().splitlines()[-1])

def replay(binary, f):
    """True if the run breaks the property on this native build."""
    try:
        r = subprocess.run([binary, "replay", f], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
    except subprocess.TimeoutExpired:
        return True, "does not terminate"
    if r.returncode == 1:
        return True, r.stdout.strip()
    if r.returncode < 0 or r.returncode >= 128:
        return True, f"crashes (status {r.returncode})"
    return False, r.stdout.strip() + r.stderr[-300:]

def cross(files):
    """The same queries, put to a second solver."""
    def one(f):
        want = re.search(r":status (\w+)", open(f).read()).group(1)
        try:
            r = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=20000", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=40)
            got = r.stdout.strip().splitlines()[0] if r.stdout.strip() else "none"
        except subprocess.TimeoutExpired:
            got = "timeout"
        return f, want, got
    with cf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, files))

def known_findings(pid):
    f = os.path.join(V, "known-findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == pid]

def main():
    pid = sys.argv[1]
    if pid == "--setup":
        for f in sorted({SPECS[p]["features"] for p in SPECS if SPECS[p].get("runs")}):
            build("explore", f)
        return 0
    spec = SPECS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    out = os.path.join(V, "build", "out", pid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": {}, "assumptions": spec.get("assumptions", []), "wall_s": 0.0, "violations": 0}
    runs, viols, problems, samples, smt = [], [], [], [], []
    engine = spec.get("engine", "symx")
    try:
        if spec.get("runs"):
            binary = build("explore", spec["features"])
            cap = 780 if tier == "quick" else 3400
            for i, (h, q, th) in enumerate(spec["runs"]):
                for j, b in enumerate([q] if tier == "quick" else (th if isinstance(th, list) else [th])):
                    if b is None:
                        continue
                    left = cap - (time.time() - t0)
                    if left < 5:
                        problems.append(f"no time left for {h} {b}")
                        continue
                    d = explore(binary, h, b, os.path.join(out, f"{i}-{j}"), seed, left)
                    runs.append(d)
                    viols += [(x["file"], x["msg"], h) for x in d["violations"]]
                    if not d["violations"]:
                        if d["errors"]:
                            problems.append(f"{h} {b}: {d['errors'][0]}")
                        elif not d["complete"]:
                            problems.append(f"{h} {b}: not explored completely ({d['pending']} pending)")
                        elif d["stats"].get("claims", 0) == 0 or d["stats"].get("paths", 0) == 0:
                            problems.append(f"{h} {b}: nothing was claimed")
                    o = os.path.join(out, f"{i}-{j}")
                    samples += sorted(glob.glob(o + "/sample-*"))[:2]
                    smt += sorted(glob.glob(o + "/*.smt2"))[:24]
            # what must have been reached at least once by the runs of a harness together
            for h in sorted({d["harness"] for d in runs}):
                mine = [d for d in runs if d["harness"] == h]
                if all(d["complete"] and not d["violations"] for d in mine):
                    never = sorted(set.intersection(*(set(d["missing"]) for d in mine)))
                    if never:
                        problems.append(f"{h}: never reached {never}")
        if spec.get("kani"):
            import kanirun
            kr = kanirun.run(pid, spec, tier, out, V)
            runs += kr["runs"]
            viols += kr["viols"]
            problems += kr["problems"]
            samples_k = kr["samples"]
        else:
            samples_k = []
        x = cross(smt) if smt else []
        bad = [t for t in x if t[1] != t[2]]
        if bad:
            problems.append(f"the solvers disagree or give no answer: {bad[:3]}")
    except (Undecided, subprocess.TimeoutExpired) as e:
        problems.append(str(e))
        x, samples_k = [], []
    # ---- counterexamples: replay on native builds
    confirmed, unconfirmed, findings = [], [], []
    if viols:
        os.makedirs(os.path.join(V, "build", "replays"), exist_ok=True)
        sym = [v for v in viols if not v[0].endswith(".kani")]
        if sym:
            bins = []
            for prof in ("dev", "release"):
                try:
                    bins.append((prof, build(prof, spec["features"])))
                except Undecided as e:
                    problems.append(str(e))
            for f, msg, h in sym:
                res = [(prof,) + replay(b, f) for prof, b in bins]
                if any(r[1] for r in res):
                    keep = os.path.join(V, "build", "replays", f"{pid}-{hashlib.sha1(open(f,'rb').read()).hexdigest()[:10]}.replay")
                    shutil.copy(f, keep)
                    confirmed.append((keep, msg, h, res))
                else:
                    unconfirmed.append((f, msg, h, res))
        for v in viols:
            if v[0].endswith(".kani"):
                (confirmed if v[3] else unconfirmed).append((v[0], v[1], v[2], v[4]))
    known = known_findings(pid)
    fresh = []
    for c in confirmed:
        k = next((k for k in known if k["harness"] == c[2] and re.fullmatch(k["message"], c[1]) and all(re.search(p, open(c[0]).read(), re.M) for p in k.get("replay", []))), None)
        if k:
            findings.append((k, c))
        else:
            fresh.append(c)
    S = lambda k: sum(r.get("stats", {}).get(k, 0) for r in runs)
    cov = ev["coverage"]
    cov.update(states=S("paths"), transitions=S("decisions"), traces_validated_against_impl=S("validated"),
               samples=[open(f).read() for f in samples[:4]] + samples_k or ["(none)"],
               queries=S("queries"), solver_s=round(S("solver_ns") / 1e9, 2), claims=S("claims"), claims_sent_to_solver=S("claims_solver"),
               claims_syntactically_equal=S("claims_trivial"), forked_decisions=S("forks"), implied_decisions=S("implied"),
               infeasible_paths=S("infeasible"), longest_choice_sequence=max([r.get("stats", {}).get("maxlen", 0) for r in runs] or [0]),
               runs=[{"harness": r["harness"], "bounds": r["bounds"], "complete": r["complete"], "wall_s": r["wall"], "paths": r["stats"].get("paths", 0), "reached": r["covers"]} for r in runs],
               functions_encoded=spec["functions"], bounds=[f'{r["harness"]}: {r["bounds"]}' for r in runs], outside=spec.get("outside", ""),
               second_solver={"queries": len(x), "agree": sum(1 for t in x if t[1] == t[2])},
               repo_sources={f: hashlib.sha256(open(f, "rb").read()).hexdigest()[:16] for f in REPO_FILES if os.path.exists(f)},
               undecided=problems, unreproduced=[u[1] for u in unconfirmed])
    ev["violations"] = len(fresh)
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", f"{pid}.json"), "w"), indent=1)
    for k, c in findings:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for c in fresh:
        print(f"VIOLATION property={pid} replay={c[0]}")
        print(f"  {c[2]}: {c[1]}")
        for r in c[3]:
            print(f"    {r}")
    for u in unconfirmed:
        print(f"unreproduced counterexample (an error of the check): {u[1]} {u[0]} {u[3]}")
    for p in problems:
        print("undecided:", p)
    print(f"{pid} {tier}: {cov['states']} paths, {cov['queries']} queries, {cov['solver_s']} s solver, {S('validated')} validated, {ev['wall_s']} s")
    if fresh:
        return 1
    if unconfirmed or problems:
        return 2
    shutil.rmtree(out, ignore_errors=True)
    return 0

if __name__ == "__main__":
    sys.exit(main())
