"""Scenario: lifting sessions of metalift.frontend.llvm.Driver over compiled C++
(C17, and the LLVM parts of C09, C10, C12)."""
import json, os, random, sys
from . import kernel, osim, smt, rkt, rig, lang, liftrig, cfuns, irsem
from .kernel import SimHang, SimAbort, HarnessError
from .liftrig import Part, Session, LiftRig, choose_variants
from .sc_rosette import draw_plan
from .sc_lift import run_retry, outcome, say, note, gone, check_truth, draw_kind, describe_plan, honest_gave_up, attached, problem_lines, diff, PyEnv

FUNS = []; ODD = []; DEMANGLE = {}; BYNAME = {}
def warm(scratch, focuses):
    global FUNS, ODD
    import metalift.frontend.llvm
    import metalift.synthesize_rosette, metalift.process_tracker, metalift.synthesis_common
    with osim.real_open(os.path.join(cfuns.FIX, "names.json")) as f: DEMANGLE.update(json.load(f))
    rng = random.Random(int(os.environ.get("PYTHONHASHSEED") or 0))
    for base in ("gen1", "gen2", "gen3"): FUNS += cfuns.load(base, rng)
    ODD += cfuns.load("odd", rng, 1)

class CPart(Part):
    def __init__(self, fun, rng, style=None):
        super().__init__(fun, rng, style)
        self.loop_order = fun.order
        raw = lang.instrument(fun, lang.c_body(fun.body))
        w = self.written = lang.written(fun.body)
        self.ir = {v: "agg.result" if v == "out" and fun.ret == "list" else v + ".addr" if t == "int" and v in dict(fun.params) else v for v, t in fun.types.items()}
        self.back = {i: v for v, i in self.ir.items()}
        def run(a):
            v, log = raw(a)
            return v, [(k, {self.ir[x]: y for x, y in st.items() if x in self.ir}) for k, st in log]
        self.run = run
    def loop_writes(self): return [(k, sorted(self.ir[v] for v in lang.written(b))) for k, b in lang.loops_of(self.fun.body)]
    def inv_of(self, k):
        def grammar(writes, reads, in_scope, relaxed=False):
            m = lang.ir(); env = {}
            for v in list(in_scope) + list(writes):
                n = v.var_name()
                if n in self.back: env[self.back[n]] = v
            for v in reads:
                n = v.var_name()
                if n in self.written: env.setdefault(n + "0", v)
                else: env.setdefault(n, v)
            self.seen_inv.append((k, sorted(v.var_name() for v in writes), sorted(v.var_name() for v in reads), sorted(v.var_name() for v in in_scope)))
            alts = [a for a in self.fun.inv_alts(env, None) if a[1] == k]
            alts.sort(key=lambda x: (self.order.index(x[0]), x[1]))
            bools = [b for _, _, b in alts]
            if self.true_inv: bools.append(m.Bool(m.BoolLit(True)))
            return m.choose(*bools) if bools else m.Bool(m.BoolLit(True))
        return grammar
    def inv_grammars(self):
        from metalift.frontend.llvm import InvGrammar
        from collections import defaultdict
        f = self.fun
        scope = sorted(self.ir.values())
        g = {"%s_inv%d" % (f.name, i): InvGrammar(self.inv_of(k), scope) for i, k in enumerate(self.loop_order)}
        if self.style % 2: return g
        if len(self.loop_order) == 1:
            only = g["%s_inv0" % f.name]
            return defaultdict(lambda: only)
        return defaultdict(lambda: None, g)

class CSession(Session):
    """Functions of one driver; variables carry the names of the parameters."""
    def call(self, part):
        part.actual = []
        for p, t in part.fun.params:
            self.vars[p] = t; part.actual.append(p)
        self.calls.append((part, list(part.actual)))
    def start(self, d, path=None):
        self.funcs = {}
        for part, _ in self.calls: self.analyze(d, part)
    def analyze(self, d, part):
        if part.name in self.funcs: return
        b = os.path.join(cfuns.FIX, part.fun.base)
        self.funcs[part.name] = d.analyze(b + ".ll", b + ".loops", part.name, part.target, part.inv_grammars(), part.ps_grammar)
    def perform(self, d, path=None, between=lambda i: None, late=False):
        if not late: self.start(d)
        else: self.funcs = {}
        objs = self.declare(d)
        for i, (part, args) in enumerate(self.calls):
            between(i)
            if late: self.analyze(d, part)
            self.funcs[part.name](*[objs[p] for p in part.fun.cparams])
        return objs
    def text(self):
        return "; ".join("%s(%s)" % (p.name, ", ".join(p.fun.cparams)) for p, args in self.calls) + "".join(" pre " + p[2] for p in self.pre)

class CRig(LiftRig):
    def spawn(self, argv):
        if os.path.basename(argv[0]) == "c++filt": return lambda proc: self.filt(argv[1:])
        return super().spawn(argv)
    def filt(self, names):
        yield ("out", "".join(DEMANGLE.get(str(n), str(n)) + "\n" for n in names if not str(n).startswith("-")))
        yield ("exit", 0)

def new_driver():
    from metalift.frontend.llvm import Driver
    return Driver()
def begin(root):
    from metalift import process_tracker
    process_tracker.all_processes.clear()
    os.chdir(root)
def source(parts): return "\n".join(p.fun.ctext for p in parts)
def pick_funs(ch, n, confusable=False):
    out = []
    pool = FUNS[:7] if confusable else FUNS
    for i in range(n):
        f = pool[ch.draw(len(pool), "fun")]
        if f not in out: out.append(f)
    return out

# ----------------------------------------------------------------- C17 / C09
def run_sound(ch, root, out, focus):
    begin(root)
    rng = random.Random(ch.draw(1 << 20, "session-rng"))
    funs = pick_funs(ch, 1 if ch.flip(70, "single") else 2)
    if focus == "C17" and ch.flip(12, "odd"): funs = [ODD[ch.draw(len(ODD), "odd-fun")]]
    parts = [CPart(f, rng) for f in funs]
    sess = CSession(parts, rng)
    for p in parts: sess.call(p)
    sess.draw_pre(ch)
    plan = draw_plan(ch, 0, "C08" if focus == "C17" else "C09")
    if focus == "C17":
        kind, desc = draw_kind(ch, sess, parts)
        r = CRig(ch, root, sess, fault_pct=ch.pick([0, 0, 30], "verifier-faults"))
    else:
        kind, desc = choose_variants(sess, {p.name: 0 for p in parts}), "correct"
        if ch.flip(25, "own-search"): kind, desc = "honest", "honest"
        plan.crash = None; plan.exit_code = 0
        r = CRig(ch, root, sess)
    plan.rounds[0]["kind"] = kind
    r.attempt(plan)
    d = new_driver()
    late = ch.flip(50, "late")
    def body():
        sess.perform(d, late=late)
        d.synthesize(filename="cc_" + parts[0].name)
    res = r.guarded(body)
    pd = describe_plan(plan, desc)
    note(out, r, sess, res, pd, desc)
    if gone(out, res): return
    text = "[%s; %s] %s" % (sess.text(), pd, source(parts))
    if focus == "C17":
        if res[0] == "exc" and isinstance(res[1], SimHang): return
        check_c(out, "C17", "wrong-summary", sess, r)
        return
    if res[0] != "ok":
        if honest_gave_up(r, kind, res):
            out.stats["weak:racket-emulation"] = out.stats.get("weak:racket-emulation", 0) + 1
            out.inconclusive = "the emulated racket's own search failed"; return
        q = r.ver.queries[-1].verdict if r.ver.queries else None
        out.bad("C09", "not-lifted", "%s; spy errors %s; verifier %s %s" % (say(res), r.spies[-1].errors[:2], q and (q.answer, q.error, q.model), text)); return
    for n, f in sess.funcs.items():
        if f.synthesized in (None, []): out.bad("C09", "not-attached", "%s has no summary after a successful synthesis %s" % (n, text))
    check_c(out, "C09", "wrong-summary", sess, r)

def check_c(out, pid, kind, sess, r):
    for f in sess.funcs.values():
        if f.synthesized == []: f.synthesized = None
    check_truth(out, pid, kind, sess, r, sess.funcs)

# ----------------------------------------------------------------- C12
class CEnv(PyEnv):
    eager = False             # summaries that are not equations are left to the user
    Part, Session, Rig = CPart, CSession, CRig
    def begin(self, root): begin(root)
    def pool(self, confusable): return FUNS[:7] if confusable else FUNS
    def call(self, ch, sess, p): sess.call(p)
    def driver(self): return new_driver()
    def perform(self, sess, d): return sess.perform(d)
    def synthesize(self, d): return d.synthesize(filename="retried")
    def before(self, ch, sess, d, r):
        """Analyses in the same driver that fail before the session starts."""
        for i in range(ch.pick([0, 0, 1, 2], "failed-analyses")):
            kind, name, f = failing(ch, sess, d)
            if r.guarded(f)[0] == "ok": return new_driver()

def failing(ch, sess, d):
    """An analysis that fails: (kind, function, thunk)."""
    k = ch.pick(["inv-grammar", "unsupported", "no-function", "no-file", "no-loops", "arguments"], "failing-analysis")
    part = sess.calls[ch.draw(len(sess.calls), "failing-part")][0]
    if k == "inv-grammar" and not part.loop_order: k = "unsupported"
    fun, name = part.fun, part.name
    b = os.path.join(cfuns.FIX, fun.base); ll, loops = b + ".ll", b + ".loops"
    ps, inv = part.ps_grammar, part.inv_grammars()
    def boom(*a, **kw): raise ValueError("grammar")
    if k == "inv-grammar":
        from metalift.frontend.llvm import InvGrammar
        at = ch.draw(max(1, len(part.loop_order)), "at")
        inv = {n: InvGrammar(boom if i == at else g.func, g.in_scope_var_names) for i, (n, g) in enumerate((n, inv[n]) for n in ["%s_inv%d" % (name, i) for i in range(len(part.loop_order))])}
    elif k == "unsupported":
        fun = ODD[ch.draw(len(ODD), "odd-fun")]; name = fun.name
        b = os.path.join(cfuns.FIX, fun.base); ll, loops = b + ".ll", b + ".loops"
        ps, inv = (lambda *a, **kw: __import__("metalift.ir", fromlist=["x"]).BoolLit(True)), {}
    elif k == "no-function": name = "absent"
    elif k == "no-file": ll = b + ".none"
    elif k == "no-loops": loops = b + ".none"
    params = fun.cparams if k != "arguments" else fun.cparams[:-1]
    def f():
        fn = d.analyze(ll, loops, name, fun.target, inv, ps)
        vs = [lang.var(p, t) for p, t in [(p, dict(fun.params)[p]) for p in params]]
        try: fn(*vs)
        finally:
            if d.fns.get(name) is fn: d.fns.pop(name)     # its definitions would be part of the problem
    return k, name, f

# ----------------------------------------------------------------- C10
def pose(r, sess, late=False, between=lambda i: None, before=None):
    """The problem a session hands to racket: ("ok", lines, grammar calls) or an exception."""
    mark = []
    def step(i):
        between(i)
    def body():
        d = new_driver()
        if before: before(d)
        sess.perform(d, late=late, between=step)
        step(len(sess.calls))
        plan = rkt.Plan(); plan.rounds = [dict(kind="unsat", think=0, open=0, mid=0, close=0)]; plan.startup = 5
        r.attempt(plan); mark.append(len(r.problem))
        for p, _ in sess.calls: p.seen_inv.clear(); p.seen_ps.clear()
        d.synthesize(filename="posed")
    x = r.guarded(body)
    if not mark or len(r.problem) != mark[0] + 1: return ("exc", x[1] if x[0] == "exc" else None)
    return ("ok", problem_lines(r.problem[-1]), [(sorted(map(str, p.seen_inv)), sorted(map(str, p.seen_ps))) for p, _ in sess.calls])

def run_history(ch, root, out):
    begin(root)
    rng = random.Random(ch.draw(1 << 20, "session-rng"))
    def session(n, conf):
        parts = [CPart(f, rng) for f in pick_funs(ch, n, conf)]
        o = CSession(parts, rng)
        for p in parts: o.call(p)
        o.draw_pre(ch)
        return o
    sess = session(ch.pick([1, 1, 2], "functions"), ch.flip(40, "confusable"))
    r = CRig(ch, root, sess)
    late = ch.flip(50, "late")
    ref = pose(r, sess, late)
    if ref[0] != "ok":
        if not gone(out, [("exc", ref[1])]): out.bad("C10", "analysis-failed", "%r %s" % (ref[1], sess.text()))
        out.take(r.w); return
    log = []
    def quiet(f):
        x = r.guarded(f)
        if x[0] == "exc" and isinstance(x[1], SimAbort): raise x[1]
        return x
    def disturb():
        k = ch.draw(5, "disturbance")
        if k == 0:
            o = session(1, ch.flip(50, "oconf")); log.append("session " + o.text())
            plan = draw_plan(ch, 0, "C10"); kind = ch.pick(["unsat", "right", "wrong"], "end")
            plan.rounds[0]["kind"] = choose_variants(o, {p.name: 0 for p in o.parts}) if kind == "right" else kind
            r.attempt(plan); keep = r.sess, r.ver.sess; r.sess = r.ver.sess = o
            def f():
                d = new_driver(); o.perform(d); d.synthesize(filename="other")
            x = quiet(f); r.sess, r.ver.sess = keep
            log.append(outcome(x))
        elif k == 1:
            d = new_driver()
            kind, name, f = failing(ch, session(1, ch.flip(50, "oconf")), d)
            log.append("failing analysis (%s) of %s" % (kind, name)); quiet(f)
        elif k == 2:
            log.append("same session again")
            plan = draw_plan(ch, 0, "C10"); plan.rounds[0]["kind"] = ch.pick(["unsat", "wrong"], "end"); r.attempt(plan)
            def f():
                d = new_driver(); sess.perform(d); d.synthesize(filename="again")
            keep = getattr(sess, "funcs", {}), sess.vars
            try: quiet(f)
            finally: sess.funcs, sess.vars = keep
        elif k == 3:
            o = session(2, ch.flip(50, "oconf")); log.append("analysis only " + o.text())
            quiet(lambda: o.perform(new_driver()))
        else:
            o = session(1, ch.flip(50, "oconf")); log.append("raising grammar in " + o.text())
            def boom(*a, **kw): raise ValueError("grammar")
            for p in o.parts: p.ps_grammar = boom
            def f():
                d = new_driver(); o.perform(d); d.synthesize(filename="raising")
            quiet(f)
    before = None
    try:
        for _ in range(ch.pick([1, 1, 2, 3], "disturbances")): disturb()
        inter = ch.flip(35, "interleave")
        def between(i):
            if not inter or not ch.flip(50, "inter?"): return
            cur = kernel.current(); kernel.set_current(None)
            keep = [(p, list(p.seen_inv), list(p.seen_ps)) for p, _ in sess.calls]
            try:
                log.append("between %d:" % i); disturb()
            finally:
                kernel.set_current(cur)
                for p, a, b in keep: p.seen_inv[:] = a; p.seen_ps[:] = b
        if ch.flip(30, "fail-in-driver"):
            def before(d):
                cur = kernel.current()
                kind, name, f = failing(ch, sess, d)
                log.append("failing analysis (%s) of %s in the same session" % (kind, name))
                try: f()
                except SimAbort: raise
                except Exception: return
                raise SimAbort("the analysis did not fail")
        got = pose(r, sess, late, between, before)
    except SimAbort as e:
        out.inconclusive = str(e); out.take(r.w); return
    note(out, r, sess, (got[0], got[1]), "; ".join(log), tuple(x.split(" ")[0] for x in log))
    out.stats["probe:disturbances"] = len(log)
    out.nontrivial = bool(log)
    if got[0] != "ok":
        if gone(out, [("exc", got[1])]): return
        out.bad("C10", "failed-after", "%r in %s after %s" % (got[1], sess.text(), log)); return
    if got[1] != ref[1]: out.bad("C10", "other-problem", "%s poses another problem after %s: %s" % (sess.text(), log, diff(ref[1], got[1])))
    elif got[2] != ref[2]: out.bad("C10", "other-grammar-arguments", "%s: grammars are called with %s after %s, with %s before" % (sess.text(), got[2], log, ref[2]))

def run(ch, root, focus):
    out = rig.Outcome()
    if focus in ("C17", "C09"): run_sound(ch, root, out, focus)
    elif focus == "C12": run_retry(ch, root, out, CEnv())
    elif focus == "C10": run_history(ch, root, out)
    return out
