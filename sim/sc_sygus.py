"""Scenario: one synthesize_cvc5.synthesize call on a hand-built problem, with
an emulated SyGuS solver and verifier (C04, C05, C06, C07)."""
import errno, os, random
from . import kernel, osim, smt, irsem, problems, rig, sygus, sexp
from .kernel import World, SimHang, SimAbort, HarnessError
from .values import EvalError, SortError, Tup
from .sc_rosette import BASES, PRELOAD, stale_files, other_names, truth_points, lang_interp, show, Call as RCall

KINDS = [problems.Straight, problems.Loop, problems.Tuples]

def draw_plan(ch, focus):
    pl = sygus.Plan()
    fault = ch.flip(75, "faulty")
    pl.early = ch.pick([0, 1, 2, 4], "early")
    pl.final = ch.weighted([(7, "honest"), (3, "wrong"), (1, "infeasible"), (1, "fail"), (1, "(fail)"), (1, "nocand"), (1, "none")], "final")
    pl.lets = ch.pick([0, 0, 30, 80], "lets")
    pl.enums = ch.pick([0, 3], "enums")
    if fault:
        pl.startup = ch.pick([10, 2000, 30000], "startup")
        pl.delay = [ch.pick([0, 1, 40, 900, 20000], "delay") for _ in range(3)]
        pl.split = ch.pick([0, 1, 7, 64], "split")
        pl.exit = ch.pick([0, 1, -9, -11, -15, 134, 2], "exit")
        if ch.flip(40 if focus == "C05" else 20, "cut?"): pl.cut = ch.draw(ch.pick([20, 120, 400, 1200], "cut-range"), "cut")
        pl.linger = ch.pick([0, 1, 5000, 600000], "linger")
        if ch.flip(25 if focus == "C05" else 10, "stderr?"): pl.stderr = ch.pick([5000, 80000, 300000], "stderr")
        if ch.flip(10, "noise?"): pl.stdout_noise = ch.pick([10, 800, 6000], "noise")
    return pl

def describe(pl):
    s = "early=%d final=%s lets=%d delays=%s split=%d linger=%d exit=%d" % (pl.early, pl.final, pl.lets, pl.delay, pl.split, pl.linger, pl.exit)
    if pl.cut is not None: s += " cut after %d bytes" % pl.cut
    if pl.stderr: s += " stderr=%d bytes" % pl.stderr
    if pl.stdout_noise: s += " noise=%d lines" % pl.stdout_noise
    return s

class Call:
    def __init__(self, ch, focus, basename, uid=0):
        self.p = problems.draw(ch, KINDS)
        self.basename, self.uid = basename, uid
        self.plan = draw_plan(ch, focus)
        self.opt = ch.flip(10, "optimize")
        self.rng = random.Random(ch.draw(1 << 20, "sygus-rng"))
        self.spy = sygus.Spy()
        self.missing = focus in ("C05", "C06") and ch.flip(3, "no-cvc5")
        self.result = None
    def invoke(self):
        from metalift.synthesize_cvc5 import synthesize
        b = self.p.build()
        self.synth_names = [s.name() for s in b["inv_and_ps"]]
        self.synth_args = {s.name(): s.arguments() for s in b["inv_and_ps"]}
        return synthesize(self.basename, b["target_lang"], b["vars"], b["inv_and_ps"], [], b["vc"], b["inv_and_ps"], "cvc5", uid=self.uid)

class Rig:
    def __init__(self, ch, root, calls, focus):
        self.w = w = World(ch, root)
        self.calls = {c.basename: c for c in calls}
        pct = {"C04": 35, "C05": 10, "C06": 15}.get(focus, 8)
        self.verifiers = {}
        for c in calls:
            v = self.verifiers[c.basename] = rig.Verifier(w, c.p.hints(), fault_pct=pct)
            v.enoent_pct = 2 if focus in ("C04", "C06") else 0
        w.spawn_handler = self.spawn
    def spawn(self, argv):
        b = self.w.cur.name if self.w.cur else next(iter(self.calls))
        c = self.calls[b]
        if any("sygus" in a for a in argv[1:]):
            if c.missing:
                self.w.count("fault:sygus_missing")
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", argv[0])
            path = argv[-1]
            path = path if os.path.isabs(path) else os.path.join(self.w.root, path)
            return lambda proc: sygus.process(self.w, proc, path, c.plan, c.rng, c.spy, c.p.hints())
        return self.verifiers[b].spawn(argv)

def expected(c, ver):
    """Set of allowed outcomes."""
    sp = c.spy
    if c.missing: return {"error"}
    if sp.error: return {"synth-fail", "error"}
    if sp.answered() and sp.last() is not None:
        if not ver.queries: return {"asked-verifier"}
        q = ver.queries[0]
        if q.fault == "missing": return {"error"}
        r = {"ret"} if q.accepted else {"verify-fail"}
        if sp.cut: r.add("synth-fail")       # killed while printing its answer: either reading is defensible
        return r
    if sp.partial and sp.partial[0][0] == "answer" and sp.partial[1]: return {"synth-fail", "ret", "verify-fail"}
    return {"synth-fail"}

def points(c, name):
    rng = random.Random(7)
    pts = c.p.arg_points(rng, c.synth_args[name], 40)
    return pts

def compare(c, name, f, g, pts, tuplike=False):
    for pt in pts:
        try: a = f(*pt)
        except (EvalError, RecursionError): continue
        try: b = g(*pt)
        except (EvalError, RecursionError): continue
        except SortError as e: return "%s%r is ill-sorted: %s" % (name, pt, e)
        if not rig.same_value(a, b): return "%s%r: candidate says %r, got %r" % (name, pt, a, b)
    return None

def more_points(c, name, f, pts):
    """Adds points where the candidate's own predicate is true, varying the last argument."""
    out = list(pts)
    for pt in pts[:14]:
        if pt and type(pt[-1]) is int:
            out += [pt[:-1] + (v,) for v in list(range(-6, 16)) + [20, 30, 100]]
    return out

def judge(c, ver, out, w, lenient=False):
    from metalift.synthesis_common import SynthesisFailed, VerificationFailed
    kind, val = c.result
    where = "[%s; %s; verifier=%s]" % (c.basename, describe(c.plan), [(q.verdict.answer if q.verdict else None, q.fault) for q in ver.queries])
    if kind == "exc" and isinstance(val, SimHang):
        out.bad("C05", "hang", "%s %s" % (val, where)); return
    exp = expected(c, ver)
    last = c.spy.last()
    if kind == "ok":
        defs = val
        if not isinstance(defs, list) or sorted(d.name() for d in defs) != sorted(c.synth_names):
            out.bad("C05", "wrong-set", "returned %r, the problem has %r %s" % (defs, c.synth_names, where)); return
        it = lang_interp(c, defs)
        if not ver.queries or not ver.queries[-1].accepted:
            out.bad("C04", "unverified", "definitions returned although the verifier did not complete with unsat %s" % where)
        else:
            q = ver.queries[-1]
            try:
                p, fns = smt.functions(q.text)
                for d in defs:
                    if d.name() not in fns: out.bad("C04", "not-the-verified-ones", "%s is not in the verified query %s" % (d.name(), where)); break
                    r = rig.differs(it, d.name(), fns[d.name()], truth_points(c, it, d, random.Random(3)))
                    if r: out.bad("C04", "not-the-verified-ones", "%s%r is %r in the returned definitions, %r in the verified query %s" % (d.name(), r[0], r[1], r[2], where)); break
            except smt.SmtError as e: out.bad("C04", "not-the-verified-ones", "query unreadable: %s %s" % (e, where))
        try: t = c.p.check(defs)
        except SortError as e: t = "ill-sorted: %s" % e
        if t: out.bad("C04", "unsound", "the returned definitions are wrong: %s: %s %s" % (t, show(defs), where))
        if last is not None:
            for d in defs:
                f = c.spy.solver.fn(d.name(), last[d.name()])
                c.spy.solver.install(last)
                r = compare(c, d.name(), f, lambda *a: it.call(d.name(), a), more_points(c, d.name(), f, points(c, d.name())))
                if r: out.bad("C04", "altered", "%s %s" % (r, where)); break
        else: out.bad("C04", "unproposed", "definitions returned without any candidate %s" % where)
        if lenient: return
        if "ret" not in exp and not any(v.pid == "C04" for v in out.violations): out.bad("C05", "wrong-outcome", "returned definitions, expected %s %s" % (sorted(exp), where))
    else:
        if lenient: return
        got = "synth-fail" if isinstance(val, SynthesisFailed) else "verify-fail" if isinstance(val, VerificationFailed) else "error"
        if got not in exp or (exp == {"asked-verifier"}):
            out.bad("C05", "wrong-outcome", "raised %s: %s, expected %s %s" % (type(val).__name__, str(val)[:200], sorted(exp), where))
    # what the verifier was asked is the last candidate
    if ver.queries and ver.queries[0].text is not None and last is not None:
        q = ver.queries[0]
        try:
            p, fns = smt.functions(q.text)
            for n in c.spy.solver.names:
                if n not in fns: out.bad("C04", "misread", "%s is not in the query %s" % (n, where)); break
                f = c.spy.solver.fn(n, last[n])
                r = compare(c, n, f, fns[n], more_points(c, n, f, points(c, n)))
                if r: out.bad("C04", "misread", "%s %s" % (r, where)); break
        except smt.SmtError as e: out.bad("C04", "misread", "query unreadable: %s %s" % (e, where))

def run(ch, root, focus):
    out = rig.Outcome()
    from metalift import process_tracker
    process_tracker.all_processes.clear()
    if focus == "C07" and ch.flip(50, "pair"): return run_pair(ch, root, out)
    c = Call(ch, focus, BASES[ch.draw(len(BASES), "base")], ch.pick([0, 1, 7], "uid"))
    r = Rig(ch, root, [c], focus)
    w = r.w; ver = r.verifiers[c.basename]
    foreign = {}
    if focus == "C07" or ch.flip(10, "stale?"): foreign = stale_files(ch, w, c, other_names(c.basename))
    ff = None
    if focus == "C06":
        m = ch.weighted([(3, "none"), (4, "interrupt"), (3, "file")], "disturb")
        if m == "interrupt": w.interrupt_at = ch.draw(ch.pick([30, 12, 80], "ir"), "interrupt-op") + 1; w.armed = True
        elif m == "file":
            ff = w.file_fault = rig.FileFaults(w, ch.draw(10, "file-op") + 1, ch.pick(rig.FileFaults.KINDS, "errno"))
    w.op_hooks.append(rig.listed_hook(w, out))
    kernel.set_current(w)
    try:
        try: c.result = ("ok", c.invoke())
        except SimHang as e: c.result = ("exc", e)
        except SimAbort as e: out.inconclusive = str(e); c.result = ("exc", e)
        except HarnessError: raise
        except BaseException as e: c.result = ("exc", e)
    finally: kernel.set_current(None)
    out.take(w)
    w_end(out, c, ver, w)
    if out.inconclusive: return out
    kind, val = c.result
    hang = kind == "exc" and isinstance(val, SimHang)
    if w.interrupted:
        if kind == "ok": out.bad("C06", "interrupt-lost", "KeyboardInterrupt was swallowed")
        if not hang: rig.check_reaped(w, out)
        return out
    judge(c, ver, out, w, lenient=ff is not None and ff.hit is not None)
    if not hang: rig.check_reaped(w, out)
    check_foreign(out, w, c, foreign)
    return out

def check_foreign(out, w, c, foreign):
    d = os.path.join(w.root, "synthesisLogs")
    for n, t in foreign.items():
        p = os.path.join(d, n)
        if not osim.exists_real(p): out.bad("C07", "deleted", "synthesis of %r deleted %r" % (c.basename, n))
        elif osim.real_open(p).read() != t: out.bad("C07", "altered", "synthesis of %r altered %r" % (c.basename, n))
    if foreign:
        for v in list(out.violations):
            if v.pid in ("C04", "C05"): out.bad("C07", "influenced-" + v.kind, v.msg)

def w_end(out, c, ver, w):
    kind, val = c.result
    res = "ok" if kind == "ok" else type(val).__name__
    pl = c.plan
    out.key += (type(c.p).__name__, pl.early, pl.final, pl.lets, pl.cut is not None and (c.spy.partial and c.spy.partial[0][0], len(c.spy.events)), pl.exit, pl.stderr, tuple((q.verdict.answer if q.verdict else None, q.fault) for q in ver.queries), res, w.interrupted)
    out.nontrivial = bool(ver.queries) or kind == "exc"
    out.note = "sygus %s %s -> %s" % (type(c.p).__name__, describe(pl), res)
    st = out.stats
    st["outcome:" + res] = st.get("outcome:" + res, 0) + 1
    for k, v in (("fault:sygus_cut_short", c.spy.cut), ("fault:sygus_bad_exit", pl.exit != 0), ("fault:sygus_stderr_flood", pl.stderr > 65536), ("fault:split_writes", pl.split), ("fault:slow_solver", max(pl.delay) > 500 or pl.startup > 500), ("probe:let_candidates", pl.lets)):
        if v: st[k] = st.get(k, 0) + 1

def run_pair(ch, root, out):
    b1 = ch.pick(["p", "test", "a", "sum"], "b1")
    b2 = b1 + ch.pick(["2", "_solver", "_1", "_0"], "b2")
    c1, c2 = Call(ch, "C07", b1), Call(ch, "C07", b2)
    r = Rig(ch, root, [c1, c2], "C07")
    w = r.w
    kernel.set_current(w)
    try: res = w.run_tasks([(b1, c1.invoke), (b2, c2.invoke)])
    finally: kernel.set_current(None)
    for c, x in zip((c1, c2), res): c.result = x
    out.take(w)
    for x in res:
        if x is not None and x[0] == "exc" and isinstance(x[1], HarnessError): raise x[1]
    if any(x is None or (x[0] == "exc" and isinstance(x[1], SimAbort)) for x in res) and not w.hang:
        out.inconclusive = "budget"; return out
    for c in (c1, c2): w_end(out, c, r.verifiers[c.basename], w)
    sub = rig.Outcome()
    for c in (c1, c2):
        if w.hang and isinstance(c.result[1], (SimHang, SimAbort)):
            sub.bad("C05", "hang", w.hang); break
        judge(c, r.verifiers[c.basename], sub, w)
    if not w.hang: rig.check_reaped(w, sub)
    for v in sub.violations:
        out.violations.append(v)
        if v.pid in ("C04", "C05"): out.bad("C07", "concurrent-" + v.kind, v.msg)
    rig.foreign_ops(w, out, b1, b2)
    sw = sum(1 for a, b in zip(w.log, w.log[1:]) if a[1] == "op" and b[1] == "op" and a[2] != b[2])
    out.stats["probe:task_switches"] = sw
    out.key = ("pair",) + out.key + (sw // 4,)
    return out
