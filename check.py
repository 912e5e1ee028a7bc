#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough] [--runs N] [--seconds S] | check.py --replay FILE

Exit 0: the property held on every run; exit 1 with a VIOLATION line: it is
broken; exit 2: the simulator could not give an answer.
"""
import argparse, json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/veriftools/pyvenv/bin/python3"
if not os.path.exists(PY): PY = shutil.which("python3-vt") or sys.executable
sys.path.insert(0, HERE)
from sim import registry
WORKERS = 8

def hashseed(base, worker): return (base * 1000003 + worker * 7919 + 17) % 4294967295

def launch(scratch, args, hs):
    env = dict(os.environ, PYTHONHASHSEED=str(hs), PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), PYTHONPATH=HERE, PYTHONUNBUFFERED="1")
    env.pop("PYTHONDONTWRITEBYTECODE", None)
    return subprocess.Popen([PY, "-W", "ignore", "-m", "sim.worker", json.dumps(args)], env=env, cwd=scratch, stdout=subprocess.DEVNULL,
                            stderr=open(args["out"] + ".err", "w"), stdin=subprocess.DEVNULL, start_new_session=True)

def read(out):
    try:
        with open(out) as f: return json.load(f)
    except (OSError, ValueError): return None
def errtext(out):
    try: return open(out + ".err").read()[-2000:]
    except OSError: return ""

def findings():
    try: return json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
    except OSError: return []

def replay_one(rep, scratch, tag="replay"):
    d = os.path.join(scratch, tag); os.makedirs(d, exist_ok=True)
    out = os.path.join(scratch, tag + ".json")
    p = launch(scratch, dict(pid=rep["property"], parts=[rep["part"]], replay=rep["choices"], scratch=d, out=out), rep["hashseed"])
    p.wait(timeout=300)
    return read(out) or dict(err=errtext(out), violations=[], trace=[])

def do_replay(path):
    rep = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix="vsim-")
    try:
        r = replay_one(rep, scratch)
    finally: shutil.rmtree(scratch, ignore_errors=True)
    for e in r.get("trace", []): print("  ", " ".join(e)[:220])
    for v in r["violations"]: print("%s[%s]: %s" % tuple(v))
    if r.get("err"): print(r["err"])
    if any(v[0] == rep["property"] and v[1] == rep["kind"] for v in r["violations"]):
        print("REPRODUCED property=%s kind=%s" % (rep["property"], rep["kind"]))
        return 1
    print("not reproduced"); return 0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int); ap.add_argument("--seconds", type=float)
    ap.add_argument("--replay"); ap.add_argument("--workers", type=int, default=WORKERS)
    a = ap.parse_args()
    if a.replay: return do_replay(a.replay)
    pid = a.pid
    spec = registry.CHECKS[pid]
    base = int(os.environ.get("VERIF_SEED", "1") or 1)
    quick = a.tier != "thorough"
    runs = a.runs or (spec["quick"] if quick else 10**9)
    deadline = a.seconds or (spec.get("seconds", 150) if quick else spec.get("thorough_seconds", 600))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vsim-")
    finds = [f for f in findings() if f["property"] == pid]
    code = 0
    try:
        ps = []
        for w in range(a.workers):
            d = os.path.join(scratch, "w%d" % w); os.makedirs(d)
            groups = spec.get("groups") or [spec["parts"]]
            args = dict(pid=pid, parts=groups[w % len(groups)], seed=base, worker=w, stride=a.workers, runs=(runs + a.workers - 1) // a.workers, deadline=deadline,
                        scratch=d, out=os.path.join(scratch, "o%d.json" % w), finds=finds, stuck_is_violation=spec.get("stuck", False),
                        shrink=40 if quick else 120, watchdog=spec.get("watchdog", 60))
            ps.append((w, args, launch(scratch, args, hashseed(base, w))))
        limit = deadline + 300
        res, dead = [], []
        for w, args, p in ps:
            try: p.wait(timeout=max(1, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9); p.wait()
            r = read(args["out"])
            if r is None: dead.append("worker %d: %s" % (w, errtext(args["out"])[-300:]))
            else: r["worker"] = w; res.append(r)
        viols = [(r["worker"], r["viol"]) for r in res if r.get("viol")]
        # violations seen once but not repeatable from their own record are the simulator's fault
        unrep = [v for w, v in viols if v.get("unreproducible")]
        viols = [(w, v) for w, v in viols if not v.get("unreproducible")]
        viols.sort(key=lambda x: (x[1]["choices"] is None, len(x[1]["choices"] or [])))
        reported = []
        for w, v in viols:
            rep = dict(property=pid, kind=v["kind"], message=v["msg"], part=list(v["part"]), hashseed=hashseed(base, w), seed=v["seed"], choices=v["choices"],
                       original_choices=v.get("original"), shrink_runs=v.get("tries"), trace=v.get("trace", []), digest=v.get("digest"))
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", "%s-%s-%d.json" % (pid, v["kind"], v["seed"] % 10**6))
            if rep["choices"] is not None:
                r = replay_one(rep, scratch, "re%d" % w)
                if not any(x[0] == pid and x[1] == v["kind"] for x in r["violations"]):
                    unrep.append(v); continue
            json.dump(rep, open(path, "w"), indent=1)
            reported.append((rep, path))
        for f in finds:
            ok = True
            if f.get("replay"):
                rep = json.load(open(os.path.join(HERE, f["replay"])))
                r = replay_one(rep, scratch, "kf%d" % finds.index(f))
                ok = any(x[0] == pid and x[1] == rep["kind"] for x in r["violations"])
            if ok: print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
            else: print("note: the recorded finding no longer shows: %s" % f["what"])
        wall = time.time() - t0
        evidence(pid, a, spec, base, res, wall, reported, unrep, dead)
        nruns = sum(r["runs"] for r in res)
        lost = sum(len(r["errors"]) + r["stuck"] + r["inconclusive"] for r in res)
        for r in res:
            for s, e in r["errors"][:1]: print("harness error at seed %d:\n%s" % (s, e))
        for d in dead: print(d)
        for v in unrep: print("unreproducible: %s[%s] seed %d: %s" % (v["pid"], v["kind"], v["seed"], v["msg"]))
        print("%s: %d runs, %d distinct, %.1f s, %d lost" % (pid, nruns, len({k for r in res for k in r["nontrivial"]}), wall, lost))
        for rep, path in reported[:3]:
            print("%s[%s] seed %d, %s choices: %s" % (pid, rep["kind"], rep["seed"], len(rep["choices"]) if rep["choices"] is not None else "?", rep["message"]))
        if reported:
            print("VIOLATION property=%s replay=%s" % (pid, reported[0][1]))
            return 1
        if unrep or not res or nruns == 0 or lost > 0.5 * nruns: return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def evidence(pid, a, spec, base, res, wall, reported, unrep, dead):
    import importlib
    stats = {}
    for r in res:
        for k, v in r["stats"].items(): stats[k] = stats.get(k, 0) + v
    nruns = sum(r["runs"] for r in res)
    parts = {}
    other = {}
    for r in res:
        for k, v in r["parts"].items(): parts[k] = parts.get(k, 0) + v
        for k, v in r["other"].items(): other[k] = other.get(k, 0) + v
    ev = dict(property=pid, tier="quick" if a.tier != "thorough" else "thorough", seed=base, level="exploration", wall_s=round(wall, 2), violations=len(reported),
      coverage=dict(
        evaluations=nruns,
        distinct_nontrivial=len({k for r in res for k in r["nontrivial"]}),
        rule=registry.RULES.get(pid, "") + " " + registry.RULE,
        samples=[s for r in res for s in r["samples"]][:6],
        runs_per_scenario=parts,
        seeds_per_hour=int(nruns / max(wall, 1e-6) * 3600),
        simulated_hours=round(sum(r["sim_ms"] for r in res) / 3.6e6, 3),
        visible_operations=sum(r["ops"] for r in res),
        faults_injected={k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")},
        probes={k[6:]: v for k, v in sorted(stats.items()) if k.startswith("probe:")},
        outcomes={k[8:]: v for k, v in sorted(stats.items()) if k.startswith("outcome:")},
        solver_answers={k: v for k, v in sorted(stats.items()) if k.startswith("verifier:") or k.startswith("synth:")},
        distinct_executions=len({k for r in res for k in r["sched"]}),
        distinct_measure="distinct_executions counts different event logs (every visible operation, delivery and its virtual time); distinct_nontrivial counts different coarse scenario descriptions",
        inconclusive_runs=sum(r["inconclusive"] for r in res), harness_errors=sum(len(r["errors"]) for r in res), stuck_runs=sum(r["stuck"] for r in res),
        determinism=dict(runs_repeated=sum(r["det_checked"] for r in res), differing=sum(len(r["det_bad"]) for r in res)),
        violations_of_other_properties_seen=other,
        real_components=registry.REAL, stubbed_components=registry.STUB, hash_seeds=[hashseed(base, r["worker"]) for r in res]),
      assumptions=registry.ASSUME)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)

if __name__ == "__main__": sys.exit(main())
