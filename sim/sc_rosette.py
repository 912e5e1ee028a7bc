"""Scenario: one synthesize_rosette.synthesize call on a hand-built problem,
with an emulated racket and cvc5 (C01, C02, C03, C06, C07)."""
import errno, os, random, sys
from . import kernel, osim, smt, rkt, irsem, problems, rig
from .kernel import World, SimHang, SimAbort, HarnessError
from .values import EvalError, SortError

PRELOAD = ["metalift.ir", "metalift.synthesize_rosette", "metalift.synthesize_cvc5", "metalift.process_tracker", "metalift.synthesis_common"]
BASES = ["p", "test", "a_b", "sum_list_ps", "list[1]", "case.2", "x1"]

def draw_plan(ch, K, focus):
    pl = rkt.Plan()
    fault = ch.flip(75, "faulty")
    pl.startup = ch.pick([300, 5, 1990, 2500, 15000], "startup") if fault else 300
    # what the synthesizer proposes in each round
    for i in range(K + 1):
        kind = ch.weighted([(6, "honest"), (3, "bounded"), (2, "wrong"), (1, "unsat")], "round-kind")
        r = dict(kind=kind, span=ch.pick([6, 2, 20], "span") if kind == "bounded" else 6)
        if fault:
            r["think"] = ch.pick([500, 0, 1, 1500, 1999, 2000, 2001, 7000, 61000], "think")
            r["open"] = ch.pick([0, 0, 1, 1900, 2500, 10000], "open")
            r["mid"] = ch.pick([0, 0, 700, 2300, 6000], "mid")
            r["close"] = ch.pick([0, 0, 1, 2100, 8000], "close")
        else:
            r.update(think=500, open=0, mid=0, close=0)
        pl.rounds.append(r)
    if fault:
        pl.block = ch.pick([4096, 64, 16, 7, 1], "block")
        pl.width = ch.pick([79, 40, 25, 300], "width")
        pl.holes = ch.flip(70, "holes")
        pl.quote = ch.pick(["'", ""], "quote")
        pl.linger = ch.pick([0, 1, 2500, 30000], "linger")
        if ch.flip(45 if focus == "C03" else 20, "crash"):
            stage = ch.pick(["think", "open", "mid", "start"], "stage")
            rd = ch.draw(K + 1, "crash-round")
            code = ch.pick([1, 0, 2, -9, -11, -15, 134], "crash-code")
            pl.crash = (-1, "start", code) if stage == "start" else (rd, stage, code)
        elif ch.flip(15, "exit-code"):
            pl.exit_code = ch.pick([1, 3, -9, -6], "exit-status")
        if ch.flip(40 if focus == "C03" else 15, "flood"):
            st = ch.pick(["start", "end"] + ["after%d" % i for i in range(1, K + 2)], "flood-stage")
            size = ch.pick([10000, 70000, 200000, 1000000], "flood-size")
            pl.flood[st] = (ch.pick(["out", "err"], "flood-stream"), b"x" * 79 + b"\n" if size < 100 else (b"w" * 79 + b"\n") * (size // 80))
    return pl

def describe(pl):
    s = ["rounds=" + ",".join("%s(think %d, open %d, mid %d, close %d ms)" % (r["kind"], r["think"], r["open"], r["mid"], r["close"]) for r in pl.rounds), "startup=%dms" % pl.startup]
    if pl.crash: s.append("racket stops at %r" % (pl.crash,))
    if pl.exit_code: s.append("exit status %d" % pl.exit_code)
    for k, v in pl.flood.items(): s.append("racket writes %d bytes to %s at %s" % (len(v[1]), v[0], k))
    return "; ".join(s)

class RacketSpy:
    """Observer of one emulated racket process."""
    def __init__(self): self.solved = {}; self.errors = []; self.exited = None; self.published = set()
    def __call__(self, ev, *a):
        if ev == "solved": self.solved[a[0]] = (a[1], a[2])
        elif ev in ("error", "load-error"): self.errors.append((ev, a[0]))

class Call:
    """One synthesize call and everything needed to judge it."""
    def __init__(self, ch, focus, basename, kinds=None):
        self.p = problems.draw(ch, kinds)
        self.basename = basename
        self.K = self.p.rounds
        self.plan = draw_plan(ch, self.K, focus)
        self.no_verify = ch.flip(8, "no-verify")
        self.opt = ch.flip(20, "unbounded")
        self.log = ch.flip(80, "log")
        self.rng = random.Random(ch.draw(1 << 20, "racket-rng"))
        self.spy = RacketSpy()
        self.missing_racket = focus in ("C03", "C06") and ch.flip(3, "no-racket")
        self.result = None
        self.proc = None
    def invoke(self):
        from metalift.synthesize_rosette import synthesize
        b = self.p.build()
        self.synth_names = [s.name() for s in b["inv_and_ps"]]
        self.synth_args = {s.name(): s.arguments() for s in b["inv_and_ps"]}
        return synthesize(basename=self.basename, target_lang=b["target_lang"], vars=b["vars"], inv_and_ps=b["inv_and_ps"], preds=[],
                          vc=b["vc"], loop_and_ps_info=b["inv_and_ps"], cvc_path="cvc5", uid=0, no_verify=self.no_verify,
                          unbounded_ints=self.opt, list_bound=3, log=self.log, uninterp_fns=list(self.p.uninterp),
                          rounds_to_guess=self.K, fns_to_guess=[s for s in b["inv_and_ps"] if s.name() in self.p.guess])
    def racket(self, w, proc):
        self.proc = proc
        return rkt.racket_process(w, proc, os.path.join(w.root, proc.argv[-1]), self.plan, self.rng, self.spy)

class Rig:
    """World with the emulated solvers installed for a set of calls."""
    def __init__(self, ch, root, calls, focus):
        self.w = w = World(ch, root)
        self.calls = {c.basename: c for c in calls}
        pct = {"C01": 35, "C02": 10, "C03": 8, "C06": 20, "C07": 5}.get(focus, 10)
        self.verifiers = {}
        for c in calls:
            v = rig.Verifier(w, c.p.hints(), fault_pct=pct)
            v.enoent_pct = 2 if focus in ("C01", "C06") else 0
            self.verifiers[c.basename] = v
        w.spawn_handler = self.spawn
        self.rackets = []
    def spawn(self, argv):
        b = self.w.cur.name if self.w.cur else next(iter(self.calls))
        prog = os.path.basename(argv[0])
        if b is None: raise HarnessError("spawn %r" % (argv,))
        c = self.calls[b]
        if prog == "racket" and not argv[-1].endswith("_verif.rkt"):
            if c.missing_racket:
                self.w.count("fault:racket_missing")
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", argv[0])
            self.rackets.append(b)
            return lambda proc: c.racket(self.w, proc)
        if prog == "cvc5" or "cvc5" in prog: return self.verifiers[b].spawn(argv)
        raise HarnessError("spawn %r" % (argv,))

def expected(c, ver):
    """Reference outcome, from what racket chose and what the verifier answered.
    ('ret', round) | ('synth-fail',) | ('verify-fail',) | ('error',)"""
    nq = 0
    pl = c.plan
    for i in range(c.K + 1):
        if c.missing_racket or i not in c.spy.solved: return ("error",), i
        if pl.crash and pl.crash[0] == i and pl.crash[1] in ("open", "mid"): return ("error",), i
        combo = c.spy.solved[i][0]
        if combo is None: return ("synth-fail",), i
        if c.no_verify: return ("ret", i), i
        if nq >= len(ver.queries): return ("ret-or-more", i), i
        q = ver.queries[nq]; nq += 1
        if q.fault == "missing": return ("error",), i
        if q.accepted: return ("ret", i), i
        if i == c.K: return ("verify-fail",), i

def judge(c, ver, out, w, lenient=False):
    """Compares the call's result with the reference outcome and the ground truth."""
    from metalift.synthesis_common import SynthesisFailed, VerificationFailed
    kind, val = c.result
    where = "[%s; %s; fns_to_guess=%s; verifier=%s]" % (c.basename, describe(c.plan), list(c.p.guess), [(q.verdict.answer if q.verdict else None, q.fault) for q in ver.queries])
    if kind == "exc" and isinstance(val, SimHang):
        out.bad("C03", "hang", "%s %s" % (val, where)); return
    exp, rnd = expected(c, ver)
    if kind == "ok":
        if not isinstance(val, list) or not val or any(getattr(d, "name", None) is None for d in val):
            out.bad("C02", "no-definitions", "the call ended normally with %r %s" % (val, where)); return
        defs = val
        if sorted(d.name() for d in defs) != sorted(c.synth_names):
            out.bad("C02", "wrong-set", "definitions returned for %r, problem has %r %s" % ([d.name() for d in defs], c.synth_names, where)); return
        rng = random.Random(5)
        if not c.no_verify:
            acc = [q for q in ver.queries if q.accepted]
            if not acc or not ver.queries[-1].accepted:
                out.bad("C01", "unverified", "definitions returned although the last verifier run did not complete with unsat %s" % where)
            else:
                try: d = compare_query(c, acc[-1], defs, rng)
                except smt.SmtError as e: d = "query unreadable: %s" % e
                if d: out.bad("C01", "not-the-verified-ones", "%s %s" % (d, where))
            try: t = c.p.check(defs)
            except SortError as e: t = "ill-sorted: %s" % e
            if t: out.bad("C01", "unsound", "the returned definitions are wrong: %s: %s %s" % (t, show(defs), where))
        if lenient: return
        if exp[0] == "ret":
            d = compare_combo(c, rnd, defs, rng)
            if d: out.bad("C02", "altered", "%s %s" % (d, where))
        elif not any(v.pid == "C01" for v in out.violations) or exp[0] != "verify-fail":
            out.bad("C02", "wrong-outcome", "returned definitions, expected %r %s" % (exp, where))
    else:
        if lenient: return
        if exp[0] in ("ret", "ret-or-more"):
            pid = "C02"
            out.bad(pid, "spurious-error", "raised %s: %s, expected the solution of round %d %s" % (type(val).__name__, str(val)[:200], exp[1], where))
            if c.proc and c.proc.done and not c.proc.signals:      # racket had stopped by itself
                out.bad("C03", "published-lost", "raised %s: %s, although the solution of round %d was published when racket stopped %s" % (type(val).__name__, str(val)[:200], exp[1], where))
        elif exp[0] == "synth-fail" and not isinstance(val, SynthesisFailed):
            out.bad("C02", "wrong-error", "raised %s: %s, expected SynthesisFailed %s" % (type(val).__name__, str(val)[:200], where))
        elif exp[0] == "verify-fail" and not isinstance(val, VerificationFailed):
            out.bad("C02", "wrong-error", "raised %s: %s, expected VerificationFailed %s" % (type(val).__name__, str(val)[:200], where))
        elif exp[0] == "error" and not isinstance(val, Exception):
            out.bad("C03", "wrong-error", "raised %r %s" % (val, where))
        elif exp[0] == "error" and isinstance(val, VerificationFailed):
            out.bad("C02", "wrong-error", "raised VerificationFailed although round %d of %d was never published %s" % (rnd, c.K, where))
    if lenient: return
    # every round before the last was looked at once, in order, and understood as chosen
    if not c.no_verify:
        for i, q in enumerate(ver.queries):
            if i not in c.spy.solved or c.spy.solved[i][0] is None or q.text is None: continue
            d = query_vs_combo(c, i, q)
            if d:
                out.bad("C02", "misread", "verifier run %d does not check the solution of round %d: %s %s" % (i, i, d, where)); break

def show(defs):
    return "; ".join("%s(%s) = %s" % (d.name(), ",".join(str(a.args[0]) for a in d.arguments()), d.body()) for d in defs)

def fn_points(c, name, rng):
    args = c.synth_args[name]
    pts = c.p.arg_points(rng, args, 40)
    # make equality postconditions sometimes true: the last argument from hints
    return pts

def lang_interp(c, defs): return irsem.Interp(list(c.p.build()["target_lang"]) + list(defs))

def truth_points(c, interp, d, rng):
    """Random points, plus points where an equality body `v == e` is true."""
    pts = fn_points(c, d.name(), rng)
    body = d.body()
    extra = []
    if type(body).__name__ == "Eq" and type(body.args[0]).__name__ == "Var":
        names = [a.args[0] for a in d.arguments()]
        v = body.args[0].args[0]
        if v in names:
            k = names.index(v)
            for pt in pts[:30]:
                try: x = interp.expr(body.args[1], dict(zip(names, pt)))
                except (EvalError, SortError): continue
                extra.append(pt[:k] + (x,) + pt[k + 1:])
    return pts + extra

def plain(v): return tuple(plain(x) for x in v) if isinstance(v, tuple) else v
def on_plain(f): return lambda *a: f(*[plain(x) for x in a])

def compare_combo(c, rnd, defs, rng):
    combo, solver = c.spy.solved[rnd]
    it = lang_interp(c, defs)
    by = {x["nm"]: x for x in combo}
    solver.install(combo)
    for d in defs:
        x = by.get(d.name())
        if x is None: return "%s is not a function of the problem file" % d.name()
        r = rig.differs(it, d.name(), on_plain(solver.fn(x)), truth_points(c, it, d, rng))
        if r: return "%s%r is %r in the returned definitions, the synthesizer's choice gives %r" % (d.name(), r[0], r[1], r[2])
    return None

def compare_query(c, q, defs, rng):
    p, fns = smt.functions(q.text)
    it = lang_interp(c, defs)
    for d in defs:
        if d.name() not in fns: return "%s does not occur in the verified query" % d.name()
        r = rig.differs(it, d.name(), fns[d.name()], truth_points(c, it, d, rng))
        if r: return "%s%r is %r in the returned definitions, %r in the verified query" % (d.name(), r[0], r[1], r[2])
    return None

def query_vs_combo(c, i, q):
    combo, solver = c.spy.solved[i]
    try: p, fns = smt.functions(q.text)
    except smt.SmtError as e: return "unreadable query: %s" % e
    solver.install(combo)
    rng = random.Random(9)
    for x in combo:
        if x["nm"] not in fns: return "%s is missing" % x["nm"]
        f, g = on_plain(solver.fn(x)), fns[x["nm"]]
        pts = fn_points(c, x["nm"], rng)
        # points where the candidate's own equality holds, by trying small values for the last argument
        more = []
        for pt in pts[:12]:
            for v in (list(range(-6, 16)) if pt and type(pt[-1]) is int else []): more.append(pt[:-1] + (v,))
        for pt in pts + more:
            try: a = f(*pt)
            except (EvalError, SortError, RecursionError, TypeError): continue
            try: b = g(*pt)
            except (EvalError, RecursionError): continue
            except SortError as e: return "%s is ill-sorted: %s" % (x["nm"], e)
            if not in_range(solver, x, pt): continue
            if not rig.same_value(a, b): return "%s%r: query says %r, synthesizer chose %r" % (x["nm"], pt, b, a)
    return None

def in_range(solver, x, pt):
    """List accesses outside the list are unspecified in one of the two theories."""
    import metalift.ir as m
    return not any(isinstance(v, tuple) for v in pt) or all(type(v) is not int or 0 <= v <= min(len(l) for l in pt if isinstance(l, tuple)) for v in pt[:1])

def stale_files(ch, w, c, others):
    """Leaves files of earlier or foreign runs in the log directory."""
    rng = random.Random(ch.draw(1 << 16, "stale"))
    d = os.path.join(w.root, "synthesisLogs")
    os.makedirs(d, exist_ok=True)
    written = {}
    def put(name, text):
        with osim.real_open(os.path.join(d, name), "w") as f: f.write(text)
        written[name] = text
    # what an earlier run of the same problem would have published
    b = c.p.build()
    forms = ""
    for s in b["inv_and_ps"]:
        r = rng.random()
        body = "true" if str(s.type).find("Bool") >= 0 else "0"
        forms += "/old/%s.rkt:7:0\n'(define (%s %s)\n   %s)\n" % (c.basename, s.name(), " ".join(a.args[0] for a in s.arguments()), body)
    kind = rng.randrange(5)
    for i in range(rng.randrange(1, 4)):
        put("%s_sol%d" % (c.basename, i), ["#t\n" + forms, "#f\n", "", "#t\n" + forms[: len(forms) // 2], "#t\n" + forms][kind])
    if rng.random() < 0.5: put("%s_sol0.tmp" % c.basename, "#t\n")
    if rng.random() < 0.5: put("%s.rkt" % c.basename, "#lang racket\n(broken")
    if rng.random() < 0.5: put("%s_0.smt" % c.basename, "(check-sat)\n")
    if rng.random() < 0.3: put("%s_1.smt" % c.basename, "(check-sat)\n")
    if rng.random() < 0.5: put("utils.rkt", "#lang ros")
    if rng.random() < 0.5: put("bounded.rkt", "")
    own = set(written)
    for n in others:
        for suf, txt in (("_sol0", "#t\n" + forms), ("_sol1", "#f\n"), (".rkt", "#lang rosette\n; other"), ("_0.smt", "(check-sat)\n"), ("_0.sl", "(check-synth)\n"), ("_sol0.tmp", "#t\n")):
            if rng.random() < 0.7 and n + suf not in own: put(n + suf, txt)
    return {n: t for n, t in written.items() if n not in own}

def other_names(b):
    return [b + "_solver", b + "2", b + "_sol", "x" + b, b + "_sol0x", b + "_", b[:-1] + "?" if len(b) > 1 else "q"]

def run(ch, root, focus):
    out = rig.Outcome()
    from metalift import process_tracker
    process_tracker.all_processes.clear()
    if focus == "C07":
        mode = ch.weighted([(1, "stale"), (1, "pair")], "mode")
        if mode == "pair": return run_pair(ch, root, out)
    base = BASES[ch.draw(len(BASES), "base")]
    c = Call(ch, focus, base)
    r = Rig(ch, root, [c], focus)
    w = r.w
    ver = r.verifiers[base]
    foreign = {}
    if focus == "C07" or ch.flip(10, "stale?"):
        foreign = stale_files(ch, w, c, other_names(base))
    ff = None
    if focus == "C06":
        m = ch.weighted([(3, "none"), (4, "interrupt"), (3, "file")], "disturb")
        if m == "interrupt": w.interrupt_at = ch.draw(ch.pick([30, 12, 80, 300], "ir"), "interrupt-op") + 1; w.armed = True
        elif m == "file":
            ff = rig.FileFaults(w, ch.draw(14, "file-op") + 1, ch.pick(rig.FileFaults.KINDS, "errno"))
            w.file_fault = ff
    w.op_hooks.append(rig.listed_hook(w, out))
    kernel.set_current(w)
    try:
        try: c.result = ("ok", c.invoke())
        except SimHang as e: c.result = ("exc", e)
        except SimAbort as e: out.inconclusive = str(e); c.result = ("exc", e)
        except HarnessError: raise
        except BaseException as e: c.result = ("exc", e)
    finally:
        kernel.set_current(None)
    finish(c, r, out, ff, foreign)
    return out

def finish(c, r, out, ff, foreign):
    w = r.w
    ver = r.verifiers[c.basename]
    kind, val = c.result
    out.take(w)
    w_end(out, c, ver, w)
    if out.inconclusive: return
    hang = kind == "exc" and isinstance(val, SimHang)
    if w.interrupted:
        if kind == "exc" and isinstance(val, KeyboardInterrupt): pass
        elif kind == "ok": out.bad("C06", "interrupt-lost", "KeyboardInterrupt was swallowed")
        rig.check_reaped(w, out) if not hang else None
        return
    disturbed = ff is not None and ff.hit is not None
    judge(c, ver, out, w, lenient=disturbed)
    if not hang: rig.check_reaped(w, out)
    d = os.path.join(w.root, "synthesisLogs")
    for n, t in foreign.items():
        p = os.path.join(d, n)
        if not osim.exists_real(p): out.bad("C07", "deleted", "synthesis of %r deleted %r" % (c.basename, n))
        elif osim.real_open(p).read() != t: out.bad("C07", "altered", "synthesis of %r altered %r" % (c.basename, n))
    if foreign:
        for v in list(out.violations):
            if v.pid in ("C01", "C02", "C03"): out.bad("C07", "influenced-" + v.kind, v.msg)

def w_end(out, c, ver, w):
    kind, val = c.result
    res = "ok" if kind == "ok" else type(val).__name__
    out.key = (type(c.p).__name__, c.K, tuple(r["kind"] for r in c.plan.rounds), c.plan.crash, tuple((q.verdict.answer if q.verdict else None, q.fault) for q in ver.queries), res, w.interrupted)
    out.nontrivial = bool(ver.queries) or kind == "exc"
    out.note = "%s K=%d %s -> %s" % (type(c.p).__name__, c.K, describe(c.plan), res)
    w.count("outcome:" + res)
    for k in ("outcome:" + res,): out.stats[k] = out.stats.get(k, 0) + 1
    if c.plan.crash: out.stats["fault:racket_stopped_early"] = out.stats.get("fault:racket_stopped_early", 0) + 1
    if c.plan.flood: out.stats["fault:output_flood"] = out.stats.get("fault:output_flood", 0) + 1
    if any(r["mid"] or r["close"] or r["open"] for r in c.plan.rounds): out.stats["fault:slow_partial_write"] = out.stats.get("fault:slow_partial_write", 0) + 1
    if any(r["think"] > 2000 for r in c.plan.rounds): out.stats["fault:slow_solver"] = out.stats.get("fault:slow_solver", 0) + 1

def run_pair(ch, root, out):
    """Two synthesis calls of different names in one working directory, interleaved."""
    b1 = ch.pick(["p", "test", "a", "sum"], "b1")
    b2 = b1 + ch.pick(["2", "_solver", "_sol", "_sol1", "_1"], "b2")
    c1, c2 = Call(ch, "C07", b1), Call(ch, "C07", b2)
    r = Rig(ch, root, [c1, c2], "C07")
    w = r.w
    res = None
    kernel.set_current(w)
    try:
        res = w.run_tasks([(b1, c1.invoke), (b2, c2.invoke)])
    finally:
        kernel.set_current(None)
    for c, x in zip((c1, c2), res): c.result = x
    out.take(w)
    if any(x is None or (x[0] == "exc" and isinstance(x[1], SimAbort)) for x in res) and not w.hang:
        out.inconclusive = "budget"; return out
    for x in res:
        if x[0] == "exc" and isinstance(x[1], HarnessError): raise x[1]
    for c in (c1, c2): w_end(out, c, r.verifiers[c.basename], w)
    sub = rig.Outcome()
    for c in (c1, c2):
        if w.hang and isinstance(c.result[1], (SimHang, SimAbort)):
            sub.bad("C03", "hang", w.hang); break
        judge(c, r.verifiers[c.basename], sub, w)
    if not w.hang: rig.check_reaped(w, sub)
    for v in sub.violations:
        out.violations.append(v)
        if v.pid in ("C01", "C02", "C03"): out.bad("C07", "concurrent-" + v.kind, v.msg)
    rig.foreign_ops(w, out, b1, b2)
    sw = sum(1 for a, b in zip(w.log, w.log[1:]) if a[1] == "op" and b[1] == "op" and a[2] != b[2])
    out.stats["probe:task_switches"] = sw
    out.key = ("pair",) + out.key + (sw // 4,)
    return out
