"""One worker: runs seeds of one property, each in a forked child, until the
budget is spent or a violation is found; then minimises it.

Forking gives every run a pristine process image: a run can neither see nor
leave anything in the interpreter, so one (hash seed, choice list) pair is one
exactly repeatable execution.
"""
import gc, importlib, json, os, pickle, select, shutil, signal, struct, sys, time, traceback, hashlib
from . import boot
boot.boot()
from . import kernel, rig, registry

def seed_of(base, pid, worker, i):
    return int.from_bytes(hashlib.sha256(("%d/%s/%d/%d" % (base, pid, worker, i)).encode()).digest()[:7], "big")

class Runner:
    def __init__(self, scratch, parts, watchdog=60):
        self.scratch, self.parts, self.watchdog = scratch, parts, watchdog
        self.mods = {}
        os.chdir(scratch)
        for m, f, _ in parts:
            if m in self.mods: continue
            mod = self.mods[m] = importlib.import_module("sim." + m)
            for lib in getattr(mod, "PRELOAD", ()): importlib.import_module(lib)
            if hasattr(mod, "warm"): mod.warm(scratch, [f for mm, f, _ in parts if mm == m])
        self.n = 0
        gc.collect(); gc.freeze()
    def run(self, part, seed=None, replay=None, trace=False):
        """Returns (Outcome | None, choices, error text)."""
        mod, focus, _ = part
        self.n += 1
        d = os.path.join(self.scratch, "r%d" % self.n)
        os.makedirs(d)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.setpgid(0, 0)
                null = os.open(os.devnull, os.O_RDWR)
                os.dup2(null, 0)
                os.dup2(null, 1); os.dup2(null, 2)
                sys.stdout = sys.stderr = open(os.devnull, "w")
                os.chdir(d)
                ch = kernel.Choices(seed, replay)
                try:
                    rig.WORLDS.clear()
                    o = self.mods[mod].run(ch, d, focus)
                    if trace or o.violations:
                        o.trace = [list(map(str, e)) for wd in rig.WORLDS for e in (wd.log[-200:])][-400:]
                    res = (o, ch.rec, None)
                except BaseException:
                    res = (None, ch.rec, traceback.format_exc())
                blob = pickle.dumps(res)
                os.chdir("/")
                with os.fdopen(w, "wb") as f: f.write(blob)
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(w)
        end = time.time() + self.watchdog
        buf = bytearray()
        stuck = False
        while True:
            t = end - time.time()
            if t <= 0: stuck = True; break
            po = select.poll(); po.register(r, select.POLLIN | select.POLLHUP)
            if not po.poll(t * 1000): stuck = True; break
            b = os.read(r, 1 << 20)
            if not b: break
            buf += b
        os.close(r)
        try: os.killpg(pid, signal.SIGKILL)
        except OSError:
            try: os.kill(pid, signal.SIGKILL)
            except OSError: pass
        os.waitpid(pid, 0)
        shutil.rmtree(d, ignore_errors=True)
        if stuck: return None, None, "STUCK"
        if not buf: return None, None, "child died"
        return pickle.loads(bytes(buf))

def known(finds, v):
    import re
    for f in finds:
        if f["property"] == v.pid and f.get("kind", v.kind) == v.kind and re.search(f["match"], v.msg, re.S): return f
    return None

def shrink(runner, part, choices, key, limit_s, finds=()):
    """Minimises a choice list while the same violation (property, kind) persists."""
    end = time.time() + limit_s
    best = list(choices); tries = 0
    def bad(c):
        nonlocal tries
        tries += 1
        o, rec, err = runner.run(part, replay=c)
        if o is None: return None
        for v in o.violations:
            if v.key() == key and not known(finds, v): return rec
        return None
    def strip0(c):
        while c and c[-1] == 0: c = c[:-1]
        return c
    def attempt(c):
        nonlocal best
        c = strip0(c)
        if (len(c), sum(c)) >= (len(best), sum(best)): return False
        if bad(c) is None: return False
        best = c
        return True
    best = strip0(best)
    changed = True
    while changed and time.time() < end:
        changed = False
        lo = 0
        n = len(best)
        while n > lo and time.time() < end:     # truncate
            cut = max(1, (n - lo) // 2)
            if attempt(best[: len(best) - cut]): changed = True; n = len(best)
            else:
                if cut == 1: break
                lo = n - cut
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(best) and time.time() < end:
                if attempt(best[:i] + best[i + size:]): changed = True; continue
                if any(best[i:i + size]) and attempt(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]): changed = True
                i += size
            size //= 2
        for i in range(len(best)):
            if time.time() >= end: break
            while i < len(best) and best[i] > 0 and time.time() < end:
                if attempt(best[:i] + [best[i] // 2] + best[i + 1:]): changed = True; continue
                if attempt(best[:i] + [best[i] - 1] + best[i + 1:]): changed = True
                break
    return best, tries

def main():
    a = json.loads(sys.argv[1])
    pid, parts = a["pid"], [tuple(p) for p in a["parts"]]
    finds = a.get("finds", [])
    scratch = a["scratch"]
    runner = Runner(scratch, parts, a.get("watchdog", 60))
    if a.get("replay") is not None:
        part = parts[0]
        o, rec, err = runner.run(part, replay=a["replay"], trace=True)
        res = dict(err=err, violations=[], trace=[])
        if o is not None:
            res.update(violations=[(v.pid, v.kind, v.msg) for v in o.violations], trace=getattr(o, "trace", []), digest=o.digest, note=o.note)
        json.dump(res, open(a["out"], "w")); return
    t0 = time.time()
    st = dict(runs=0, keys=set(), stats={}, sim_ms=0, ops=0, inconclusive=0, errors=[], nontrivial=set(), samples=[], notes=set(), other={}, parts={}, det_checked=0, det_bad=[], stuck=0, digests=set(), sched=set())
    viol = None
    total = sum(p[2] for p in parts)
    for i in range(a["runs"]):
        if time.time() - t0 > a["deadline"]: break
        seed = seed_of(a["seed"], pid, a["worker"], i)
        x = (i * a["stride"] + a["worker"]) % total
        for part in parts:
            x -= part[2]
            if x < 0: break
        o, rec, err = runner.run(part, seed=seed)
        st["runs"] += 1
        pk = "%s/%s" % part[:2]
        st["parts"][pk] = st["parts"].get(pk, 0) + 1
        if o is None:
            if err == "STUCK":
                st["stuck"] += 1
                if a.get("stuck_is_violation"):
                    o2, rec2, err2 = runner.run(part, seed=seed)
                    if err2 == "STUCK":
                        viol = dict(pid=pid, kind="stuck", msg="the call did not reach another visible operation within %d s of processor time" % runner.watchdog, part=part, seed=seed, choices=None)
                        break
            else:
                st["errors"].append((seed, err[-1500:] if err else "?"))
            if len(st["errors"]) + st["stuck"] > 12 and len(st["errors"]) + st["stuck"] > 0.5 * st["runs"]: break
            continue
        st["sim_ms"] += o.sim_ms; st["ops"] += o.ops
        for k, v in o.stats.items(): st["stats"][k] = st["stats"].get(k, 0) + v
        if o.inconclusive: st["inconclusive"] += 1; st["stats"]["inconclusive:" + o.inconclusive[:60]] = st["stats"].get("inconclusive:" + o.inconclusive[:60], 0) + 1
        k = hash_key((pk,) + tuple(o.key))
        st["keys"].add(k)
        st["sched"].add(o.digest[:16])
        if o.nontrivial and not o.inconclusive:
            if k not in st["nontrivial"] and len(st["samples"]) < 3 and o.note: st["samples"].append("seed %d: %s" % (seed, o.note))
            st["nontrivial"].add(k)
        if i % 40 == 7:
            o2, rec2, err2 = runner.run(part, replay=rec)
            st["det_checked"] += 1
            if o2 is None or o2.digest != o.digest or rec2 != rec: st["det_bad"].append(seed)
        for v in o.violations:
            if v.pid != pid:
                st["other"][v.pid + ":" + v.kind] = st["other"].get(v.pid + ":" + v.kind, 0) + 1; continue
            if known(finds, v):
                st["stats"]["known-finding:" + v.kind] = st["stats"].get("known-finding:" + v.kind, 0) + 1; continue
            viol = dict(pid=pid, kind=v.kind, msg=v.msg, part=part, seed=seed, choices=rec); break
        if viol: break
    if viol and viol["choices"] is not None:
        o, rec, err = runner.run(viol["part"], replay=viol["choices"])
        key = (viol["pid"], viol["kind"])
        if o is None or not any(v.key() == key for v in o.violations):
            viol["unreproducible"] = True
        else:
            best, tries = shrink(runner, viol["part"], viol["choices"], key, a.get("shrink", 40), finds)
            o, rec, err = runner.run(viol["part"], replay=best, trace=True)
            vv = [v for v in o.violations if v.key() == key] if o else []
            if vv:
                viol.update(choices=best, msg=vv[0].msg, trace=getattr(o, "trace", []), digest=o.digest, original=len(viol["choices"]), tries=tries)
    st["viol"] = viol
    st["wall"] = time.time() - t0
    for k in ("keys", "nontrivial", "notes", "digests", "sched"): st[k] = sorted(st[k])
    json.dump(st, open(a["out"], "w"))

def hash_key(k): return hashlib.sha256(repr(k).encode()).hexdigest()[:12]

if __name__ == "__main__": main()
