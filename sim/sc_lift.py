"""Scenario: lifting sessions of metalift.frontend.python.Driver under emulated
solvers (C08, C09, C10, C11, C12)."""
import os, random
from . import kernel, osim, smt, rkt, rig, lang, liftrig
from .kernel import SimHang, SimAbort, HarnessError
from .liftrig import Part, Session, LiftRig, choose_variants
from .sc_rosette import draw_plan, describe

def warm(scratch, focuses):
    liftrig.warm(scratch, 24, solo="C10" in focuses)

def begin(root, mod=0, name="prog.py"):
    from metalift import process_tracker
    process_tracker.all_processes.clear()
    liftrig.PARSES.turn.clear()
    path = os.path.join(root, name)
    with osim.real_open(path, "w") as f: f.write(liftrig.POOL.mods[mod].text)
    return path
def new_driver():
    from metalift.frontend.python import Driver
    return Driver()
def outcome(res): return "ok" if res[0] == "ok" else type(res[1]).__name__
def say(res): return "ok" if res[0] == "ok" else "%s: %s" % (type(res[1]).__name__, str(res[1])[:300])

def note(out, r, sess, res, plan_desc, fs):
    w = r.w
    out.take(w)
    o = [outcome(x) for x in (res if isinstance(res, list) else [res])]
    for x in o: out.stats["outcome:" + x] = out.stats.get("outcome:" + x, 0) + 1
    out.key = tuple([tuple(p.name for p, _ in sess.calls), len(sess.pre), fs] + o + [tuple((q.verdict.answer if q.verdict else None, q.fault) for q in r.ver.queries)])
    out.nontrivial = bool(r.ver.queries) or any(x != "ok" for x in o)
    out.note = "%s | %s -> %s" % (sess.text(), plan_desc, o)

def gone(out, res):
    """Aborted runs give no answer."""
    for x in (res if isinstance(res, list) else [res]):
        if x[0] == "exc" and isinstance(x[1], SimAbort) and not isinstance(x[1], SimHang):
            out.inconclusive = str(x[1]); return True
    return False

def check_truth(out, pid, kind, sess, r, funcs, what="summary", parts=None):
    """Attached summaries against the executed source."""
    envs = sess.joint(90)
    decls = sess.decls()
    last = next((q for q in reversed(r.ver.queries) if q.accepted), None)
    cases = {}
    where = {}
    for env in envs:
        ex = sess.execute(env)
        if ex is None: continue
        for part, a, v, log in ex:
            cases.setdefault(part.name, []).append((a, v)); where[(part.name, a)] = env
    checked = 0
    for name, f in funcs.items():
        if parts is not None and name not in parts: continue
        part = next(p for p, _ in sess.calls if p.name == name)
        e = f.synthesized
        if e is None: continue
        bad = liftrig.wrong_summary(part, e, cases.get(name, []), decls)
        checked += 1
        if bad:
            args, v, x = bad
            env = where.get((name, args))
            if last is not None and liftrig.recheck(sess, last.text, [env] + envs[:20]):
                out.stats["weak:emulated-verifier"] = out.stats.get("weak:emulated-verifier", 0) + 1
                out.inconclusive = "the emulated verifier missed a counterexample"; return
            out.bad(pid, kind, "%s%r is %r, its attached summary %s gives %r [%s]\n%s" % (name, args, v, e, x, sess.text(), part.fun.text()))
    if checked: out.stats["probe:summaries_checked"] = out.stats.get("probe:summaries_checked", 0) + checked

def draw_kind(ch, sess, parts):
    """What racket proposes: an adversarial variant, or its own search."""
    k = ch.weighted([(6, "variant"), (4, "honest"), (2, "bounded"), (2, "wrong"), (1, "unsat")], "racket")
    if k != "variant": return k, k
    v = {p.name: 0 for p in parts}
    p = parts[ch.draw(len(parts), "which")]
    v[p.name] = ch.draw(len(p.fun.variants), "variant")
    return choose_variants(sess, v), "variant %d of %s" % (v[p.name], p.name)

def pick_funs(ch, n, mod=0, plain=True):
    funs = liftrig.POOL.mods[mod].funs
    if plain: funs = [f for f in funs if not getattr(f, "alias", False)]
    out = []
    for i in range(n):
        f = funs[ch.draw(len(funs), "fun")]
        if f not in out: out.append(f)
    return out
def liftrig_n(): return len(liftrig.POOL.mods[0].funs) - len(liftrig.POOL.inner) - len(liftrig.POOL.outer)

# ----------------------------------------------------------------- C08 / C09
def run_sound(ch, root, out, focus):
    mod = ch.draw(2, "module")
    path = begin(root, mod)
    rng = random.Random(ch.draw(1 << 20, "session-rng"))
    funs = pick_funs(ch, 1 if ch.flip(75, "single") else 2, mod, focus == "C09")
    parts = [Part(f, rng) for f in funs]
    sess = Session(parts, rng)
    for p in parts: sess.call_fresh(p, rename=ch.flip(40, "rename"))
    sess.draw_pre(ch)
    plan = draw_plan(ch, 0, "C08" if focus == "C08" else "C09")
    if focus == "C08":
        kind, desc = draw_kind(ch, sess, parts)
        r = LiftRig(ch, root, sess, fault_pct=ch.pick([0, 0, 30], "verifier-faults"))
    else:
        kind, desc = choose_variants(sess, {p.name: 0 for p in parts}), "correct"
        if ch.flip(25, "own-search"): kind, desc = "honest", "honest"
        plan.crash = None; plan.exit_code = 0
        r = LiftRig(ch, root, sess)
    plan.rounds[0]["kind"] = kind
    r.attempt(plan)
    d = new_driver()
    def body():
        sess.perform(d, path)
        d.synthesize()
    res = r.guarded(body)
    pd = describe_plan(plan, desc)
    note(out, r, sess, res, pd, desc)
    if gone(out, res): return
    text = "[%s; %s] %s" % (sess.text(), pd, "\n".join(p.fun.text() for p in parts))
    if focus == "C08":
        if res[0] == "exc" and isinstance(res[1], SimHang): return
        check_truth(out, "C08", "wrong-summary", sess, r, sess.funcs)
        return
    if res[0] != "ok":
        if honest_gave_up(r, kind, res): 
            out.stats["weak:racket-emulation"] = out.stats.get("weak:racket-emulation", 0) + 1
            out.inconclusive = "the emulated racket's own search failed"; return
        q = r.ver.queries[-1].verdict if r.ver.queries else None
        out.bad("C09", "not-lifted", "%s; spy errors %s; verifier %s %s" % (say(res), r.spies[-1].errors[:2], q and (q.answer, q.error, q.model), text)); return
    for n, f in sess.funcs.items():
        if f.synthesized is None: out.bad("C09", "not-attached", "%s has no summary after a successful synthesis %s" % (n, text))
    check_truth(out, "C09", "wrong-summary", sess, r, sess.funcs)
    if sum(1 for e in r.w.log if len(e) > 3 and e[1] == "op" and e[3] == "sleep") > 60000: out.bad("C09", "too-many-polls", text)

def honest_gave_up(r, kind, res):
    """The emulated racket searched by itself and proposed nothing, or something
    that the (exact) counterexample of the verifier refutes."""
    s = r.spies[-1].solved.get(0)
    if kind != "honest" or s is None: return False
    return s[0] is None or not r.spies[-1].errors and (r.ver.queries and r.ver.queries[-1].verdict is not None and r.ver.queries[-1].verdict.answer == "sat")

def describe_plan(plan, desc):
    k = plan.rounds[0]["kind"]
    plan.rounds[0]["kind"] = desc
    s = describe(plan)
    plan.rounds[0]["kind"] = k
    return s

# ----------------------------------------------------------------- C11
class Composed(Session):
    """r1 = f(..); [r2 = ..;] g(.., r, ..) with alternatives that only hold for one binding."""
    def __init__(self, ch, rng):
        super().__init__([], rng)
        P = liftrig.POOL
        f1 = Part(P.inner[ch.draw(len(P.inner), "inner")], rng)
        g = self.g = Part(P.outer[ch.draw(len(P.outer), "outer")], rng)
        A, B = ch.pick([("u", "v"), ("v", "u"), ("x", "y"), ("n", "a"), ("a", "n"), ("p", "n")], "vars")
        self.vars = {A: "int", B: "int"}
        pat = ch.draw(5, "pattern")
        def args(part, k):
            n = len(part.fun.params)
            return [[A, B], [B, A], [B, B], [A, A]][k][:n]
        k = ch.draw(2, "inner-args")
        self.calls.append((f1, args(f1, k)))
        if pat == 1: self.calls.append((f1, args(f1, 1 - k)))
        elif pat == 2:
            f2 = Part(P.inner[ch.draw(len(P.inner), "inner2")], rng)
            if f2.name == f1.name: f2 = f1
            self.calls.append((f2, args(f2, ch.draw(2, "inner2-args"))))
        elif pat == 3: self.calls.append((f1, ([("r", 0), A] if ch.flip(50, "first") else [("r", 0), B])[: len(f1.fun.params)]))
        elif pat == 4 and ch.flip(50, "third"): self.calls.append((f1, args(f1, 1 - k))); self.calls.append((f1, args(f1, k)))
        self.fed = ch.draw(len(self.calls), "fed")
        m = {"p": ("r", self.fed), "u": A, "v": B}
        self.calls.append((g, [m[p] for p, _ in g.fun.params]))
        self.parts = [f1, g] + ([self.calls[1][0]] if len(self.calls) > 2 and self.calls[1][0] is not f1 else [])
        self.back = {A: "u", B: "v"}
        # claims p == value of a call, for the right and for wrong bindings
        self.claims = [("right", self.fed, self.back, 0)]
        wrong = [("swapped", self.fed, {A: "v", B: "u"}, 0)]
        for i in range(len(self.calls) - 1):
            if i != self.fed: wrong.append(("call%d" % i, i, self.back, 0))
        f = self.calls[self.fed][0]
        for a in range(1, len(f.fun.variants)): wrong.append(("mutant%d" % a, self.fed, self.back, a))
        wrong.append(("zero", None, None, 0))
        rng.shuffle(wrong)
        self.claims += wrong[:4]
        rng.shuffle(self.claims)
        self.right = next(i for i, c in enumerate(self.claims) if c[0] == "right")
        g.only_extra = True
        g.extra_ps = self.alternatives
    def value(self, m, i, back, env, variant):
        part, args = self.calls[i]
        fe = {}
        for (p, _), a in zip(part.fun.params, args):
            fe[p] = self.value(m, a[1], back, env, 0) if isinstance(a, tuple) else env[back[a]]
        return lang.toir(part.fun.variants[variant].summary, fe, part.fun.ret)
    def alternatives(self, m, env, rv):
        base = self.g.fun.ps_alts(env)[0]
        out = []
        for name, i, back, variant in self.claims:
            val = m.Int(0) if i is None else self.value(m, i, back, env, variant)
            t = base + (env["p"] - val)
            out.append(liftrig.eq(m, rv, t) if self.g.style % 2 else liftrig.eq(m, t, rv))
        return out
    def pick(self, idx):
        n = len(self.claims)
        def f(solver, cs):
            if n == 1: return cs[0]
            return next((c for c in cs if len(c["vec"]) == 1 and c["vec"][0] == (idx, n)), None)
        return f

def run_composed(ch, root, out):
    path = begin(root, 0)
    rng = random.Random(ch.draw(1 << 20, "session-rng"))
    sess = Composed(ch, rng)
    sess.draw_pre(ch)
    must = ch.flip(45, "must")
    plan = draw_plan(ch, 0, "C11")
    v = {p.name: 0 for p in sess.parts}
    if must:
        plan.crash = None; plan.exit_code = 0
        claim = sess.right; desc = "correct"
        r = LiftRig(ch, root, sess)
    else:
        claim = ch.draw(len(sess.claims), "claim")
        if ch.flip(50, "inner-mutant"):
            p = sess.parts[ch.draw(len(sess.parts), "which")]
            v[p.name] = ch.draw(len(p.fun.variants), "variant")
        desc = "claim %s, variants %r" % (sess.claims[claim][0], v)
        r = LiftRig(ch, root, sess, fault_pct=ch.pick([0, 0, 30], "verifier-faults"))
    plan.rounds[0]["kind"] = choose_variants(sess, v, {sess.g.name: sess.pick(claim)})
    if not must and ch.flip(30, "own-search"): plan.rounds[0]["kind"] = "honest"; desc = "honest"
    r.attempt(plan)
    d = new_driver()
    def body():
        sess.perform(d, path)
        d.synthesize()
    res = r.guarded(body)
    pd = describe_plan(plan, desc)
    note(out, r, sess, res, pd, (desc, sess.claims[claim][0]))
    if gone(out, res): return
    if res[0] == "exc" and isinstance(res[1], SimHang) and not must: return
    text = "[%s; %s; claims %s] %s" % (sess.text(), pd, [c[0] for c in sess.claims], "\n".join(p.fun.text() for p in sess.parts))
    if must and res[0] != "ok":
        if r.spies[-1].solved.get(0, (1,))[0] is None and not r.spies[-1].errors[1:]:
            # the right alternative coincides with another one: nothing to learn
            out.inconclusive = "no distinct candidate"; return
        q = r.ver.queries[-1].verdict if r.ver.queries else None
        out.bad("C11", "fact-not-usable", "%s; verifier %s %s" % (say(res), q and (q.answer, q.error, q.model), text)); return
    if res[0] == "ok":
        for n, f in sess.funcs.items():
            if f.synthesized is None: out.bad("C11", "not-attached", "%s has no summary after a successful synthesis %s" % (n, text))
    check_truth(out, "C11", "wrong-composition", sess, r, sess.funcs)

# ----------------------------------------------------------------- C12
def attached(funcs): return {n: (None if f.synthesized is None else str(f.synthesized)) for n, f in funcs.items()}
def check_codegen(out, funcs, when):
    for n, f in funcs.items():
        if f.synthesized is None:
            try: v = f.codegen(lambda e: ("generated", str(e)))
            except Exception: continue
            out.bad("C12", "code-without-success", "%s: codegen of %s returned %r" % (when, n, v))
        else:
            v = f.codegen(lambda e: ("generated", e))
            if v != ("generated", f.synthesized) and str(v[1]) != str(f.synthesized): out.bad("C12", "codegen-changed", "%s: codegen of %s got %s, attached %s" % (when, n, v[1], f.synthesized))

def non_eq(m, env, rv, part):
    """Correct postconditions from which no summary can be read, and a vacuous one."""
    s = part.fun.ps_alts(env)[0]
    e = liftrig.eq(m, rv, s)
    return [m.Bool(m.And(e.src, e.src)), m.Bool(m.Or(e.src, e.src)), liftrig.eq(m, rv, rv), m.Bool(m.BoolLit(True))]

def problem_lines(t): return sorted(x.strip() for x in t.split("\n") if x.strip())

class PyEnv:
    """What run_retry needs of a front end."""
    eager = True              # success attaches something to every function
    Part, Session, Rig = Part, Session, LiftRig
    def begin(self, root): self.path = begin(root, 0)
    def pool(self, confusable): return liftrig.POOL.mods[0].funs[:8 if confusable else liftrig_n()]
    def call(self, ch, sess, p): sess.call_fresh(p, rename=ch.flip(25, "rename"))
    def driver(self): return new_driver()
    def perform(self, sess, d): return sess.perform(d, self.path)
    def synthesize(self, d): return d.synthesize()
    def before(self, ch, sess, d, r): pass

def run_retry(ch, root, out, env=PyEnv()):
    env.begin(root)
    rng = random.Random(ch.draw(1 << 20, "session-rng"))
    n = ch.pick([1, 2, 2, 3], "functions")
    pool = env.pool(ch.flip(70, "confusable"))
    funs = []
    for i in range(n):
        f = pool[ch.draw(len(pool), "fun")]
        if f not in funs: funs.append(f)
    parts = [env.Part(f, rng) for f in funs]
    sess = env.Session(parts, rng)
    for p in parts: env.call(ch, sess, p)
    mode = ch.weighted([(3, "variant"), (2, "crash"), (2, "unsat"), (3, "verifier"), (1, "no-racket"), (4, "interrupt"), (3, "file"), (4, "no-equation"), (1, "none")], "failure")
    odd = None
    if mode == "no-equation":
        odd = parts[ch.draw(len(parts), "odd")]
        odd.style = 0
        odd.extra_ps = lambda m, env, rv: non_eq(m, env, rv, odd)
    r = env.Rig(ch, root, sess)
    right = choose_variants(sess, {p.name: 0 for p in parts}, None if odd is None else {odd.name: lambda s, cs: next((c for c in cs if c["vec"] == [(odd.order.index(0), len(odd.order) + 4)]), None)})
    d = env.driver()
    res = []
    d = env.before(ch, sess, d, r) or d
    pre = r.guarded(lambda: env.perform(sess, d))
    funcs = sess.funcs
    if pre[0] != "ok": res.append(pre)
    else:
        check_codegen(out, funcs, "before synthesis")
        succeeded_before = ch.flip(25, "success-first")
        k = 2 if not succeeded_before else 3
        base = attached(funcs)
        for i in range(k):
            failing = i == k - 2
            plan = draw_plan(ch, 0, "C12")
            plan.rounds[0]["kind"] = right
            r.missing = False; r.ver.fault_pct = 0; r.ver.enoent_pct = 0
            w = r.w
            w.interrupt_at = None; w.file_fault = None
            if not failing: plan.crash = None; plan.exit_code = 0
            elif mode == "variant":
                v = {p.name: 0 for p in parts}; p = parts[ch.draw(len(parts), "which")]
                v[p.name] = 1 + ch.draw(len(p.fun.variants) - 1, "variant")
                plan.rounds[0]["kind"] = choose_variants(sess, v)
            elif mode == "crash": plan.crash = ch.pick([(-1, "start", 1), (0, "think", -9), (0, "open", 1), (0, "mid", -11)], "crash-at")
            elif mode == "unsat": plan.rounds[0]["kind"] = "unsat"
            elif mode == "verifier": r.ver.fault_pct = 100; r.ver.enoent_pct = 25
            elif mode == "no-racket": r.missing = True
            elif mode == "interrupt": w.interrupt_at = w.ops + 1 + ch.draw(ch.pick([30, 12, 80], "ir"), "interrupt-op"); w.armed = True
            elif mode == "file":
                w.file_fault = rig.FileFaults(w, ch.draw(14, "file-op") + 1, ch.pick(rig.FileFaults.KINDS, "errno"))
            elif mode == "no-equation":
                j = ch.draw(4, "odd-form")
                plan.rounds[0]["kind"] = choose_variants(sess, {p.name: 0 for p in parts}, {odd.name: lambda s, cs: next((c for c in cs if c["vec"] == [(len(odd.order) + j, len(odd.order) + 4)]), None)})
            r.attempt(plan)
            x = r.guarded(lambda: env.synthesize(d))
            res.append(x)
            if gone(out, res): break
            now = attached(funcs)
            where = "attempt %d (%s) of %s: %s" % (i + 1, mode if failing else "clean", sess.text(), say(x))
            if x[0] != "ok":
                for nme in now:
                    if now[nme] != base[nme]: out.bad("C12", "attached-by-failure", "%s attached %s to %s (had %s)" % (where, now[nme], nme, base[nme]))
                if not failing: out.bad("C12", "not-retryable", "%s; racket errors %s; verifier %s" % (where, r.spies[-1].errors[:1], [(q.verdict and q.verdict.answer, q.verdict and q.verdict.error) for q in r.ver.queries[-1:]]))
            else:
                for nme in now:
                    if now[nme] is None and (env.eager or odd is None or nme != odd.name): out.bad("C12", "not-attached", "%s left %s without a summary" % (where, nme))
            check_codegen(out, funcs, where)
            base = now
            if isinstance(x[1], SimHang): break
    note(out, r, sess, res, mode, mode)
    out.stats["fault:attempt_" + mode] = out.stats.get("fault:attempt_" + mode, 0) + 1
    if gone(out, res): return
    if pre[0] != "ok":
        out.bad("C12", "analysis-failed", "%s %s" % (say(pre), sess.text())); return
    check_truth(out, "C12", "wrong-summary", sess, r, funcs)
    if out.violations: return
    # the same session without the failure poses the same problem and ends the same way
    d2 = env.driver()
    last = r.problem[-1] if r.problem else None
    plan = draw_plan(ch, 0, "C12"); plan.crash = None; plan.exit_code = 0; plan.rounds[0]["kind"] = right
    r.attempt(plan)
    x = r.guarded(lambda: (env.perform(sess, d2), env.synthesize(d2)))
    if gone(out, [x]): return
    if x[0] == "ok" and res[-1][0] == "ok":
        if problem_lines(r.problem[-1]) != problem_lines(last):
            out.bad("C12", "other-problem", "after a failure (%s) the retried problem of %s differs: %s" % (mode, sess.text(), diff(problem_lines(last), problem_lines(r.problem[-1]))))
        for nme, f in sess.funcs.items():
            if str(f.synthesized) != str(funcs[nme].synthesized): out.bad("C12", "other-summary", "%s: %s after the retry, %s in a fresh session" % (nme, funcs[nme].synthesized, f.synthesized))

def diff(a, b):
    x = [l for l in a if l not in b][:3]; y = [l for l in b if l not in a][:3]
    return "first only %s, second only %s" % ([l[:200] for l in x], [l[:200] for l in y])

# ----------------------------------------------------------------- C10
def pose(r, ch, sess, d, path, objs=None, between=lambda i: None, before=None):
    """The problem a session hands to racket: (lines, grammar calls) or an exception."""
    for p, _ in sess.calls: p.seen_inv.clear(); p.seen_ps.clear()
    plan = rkt.Plan(); plan.rounds = [dict(kind="unsat", think=0, open=0, mid=0, close=0)]; plan.startup = 5
    r.attempt(plan)
    n = len(r.problem)
    def body():
        sess.start(d, path)
        o = sess.declare(d) if objs is None else objs
        if objs is not None:
            for v in objs.values(): d.add_var_object(v)
            for mk, _, _ in sess.pre: d.add_precondition(mk(objs))
        if before: before(d)
        rs = []
        for i, (part, args) in enumerate(sess.calls):
            between(i)
            rs.append(sess.funcs[part.name](*[rs[x[1]] if isinstance(x, tuple) else o[x] for x in args]))
        between(len(sess.calls))
        d.synthesize()
    x = r.guarded(body)
    if len(r.problem) != n + 1: return ("exc", x[1] if x[0] == "exc" else None, n)
    return ("ok", problem_lines(r.problem[-1]), [(sorted(map(str, p.seen_inv)), sorted(map(str, p.seen_ps))) for p, _ in sess.calls])

def run_history(ch, root, out):
    P = liftrig.POOL
    mod = 0
    path = begin(root, 0)
    rng = random.Random(ch.draw(1 << 20, "session-rng"))
    single = ch.flip(60, "single")
    if ch.flip(20, "composed"): sess = Composed(ch, rng)
    else:
        funs = [P.solo.funs[0]] if ch.flip(15, "solo-fun") else pick_funs(ch, 1 if single else 2)
        sess = Session([Part(f, rng) for f in funs], rng)
        for p in sess.parts: sess.call_fresh(p, rename=ch.flip(30, "rename"))
    sess.draw_pre(ch)
    r = LiftRig(ch, root, sess)
    others = []
    def other(mod_, n=1):
        o = Session([Part(f, rng) for f in pick_funs(ch, n, mod_)], rng)
        for p in o.parts: o.call_fresh(p, rename=ch.flip(30, "orename"))
        o.draw_pre(ch)
        return o
    objs = {v: lang.var(v, t) for v, t in sess.vars.items()} if ch.flip(25, "shared-objects") else None
    ref = pose(r, ch, sess, new_driver(), path, objs)
    if ref[0] != "ok":
        if not gone(out, [("exc", ref[1])]): out.bad("C10", "analysis-failed", "%r %s" % (ref[1], sess.text()))
        out.take(r.w); return
    log = []
    def quiet(f):
        x = r.guarded(f)
        if x[0] == "exc" and isinstance(x[1], SimAbort): raise x[1]
        return x
    def disturb(path_, mod_, allow_same=True):
        k = ch.draw(6, "disturbance")
        if k == 0:
            o = other(mod_); log.append("session " + o.text())
            plan = draw_plan(ch, 0, "C10"); kind = ch.pick(["unsat", "right", "wrong"], "end")
            plan.rounds[0]["kind"] = choose_variants(o, {p.name: 0 for p in o.parts}) if kind == "right" else kind
            r.attempt(plan); keep = r.sess, r.ver.sess; r.sess = r.ver.sess = o
            def f():
                d = new_driver(); o.perform(d, path_); d.synthesize()
            x = quiet(f); r.sess, r.ver.sess = keep
            log.append(outcome(x))
        elif k == 1:
            if mod_ != 0: return
            nm, ps = liftrig.BAD[ch.draw(len(liftrig.BAD), "broken")]
            log.append("failing analysis of " + nm)
            def f():
                d = new_driver(); fn = d.analyze(path_, nm, lambda: [], lambda *a: None, lambda *a: None)
                fn(*[lang.var(p, t) for p, t in ps])
            quiet(f)
        elif k == 2:
            o = other(mod_); log.append("wrong arguments for " + o.text())
            def f():
                d = new_driver(); o.start(d, path_); ob = o.declare(d)
                for p, a in o.calls: d.fns[p.name](*[ob[x] for x in a][:-1])
            quiet(f)
        elif k == 3:
            log.append("same session again")
            plan = draw_plan(ch, 0, "C10"); plan.rounds[0]["kind"] = ch.pick(["unsat", "wrong"], "end"); r.attempt(plan)
            def f():
                d = new_driver(); sess.perform(d, path_); d.synthesize()
            if mod_ == 0: quiet(f)
        elif k == 4:
            o = other(mod_, 2); log.append("analysis only " + o.text())
            def f(): o.perform(new_driver(), path_)
            quiet(f)
        else:
            o = other(mod_); log.append("raising grammar in " + o.text())
            def boom(*a): raise ValueError("grammar")
            for p in o.parts: p.ps_grammar = boom
            def f():
                d = new_driver(); o.perform(d, path_); d.synthesize()
            quiet(f)
    try:
        for _ in range(ch.pick([1, 1, 2, 3], "disturbances")):
            if ch.flip(20, "rewrite"):
                log.append("other file content at the same path")
                with osim.real_open(path, "w") as f: f.write(P.mods[1].text)
                disturb(path, 1)
                with osim.real_open(path, "w") as f: f.write(P.mods[0].text)
            else: disturb(path, 0)
        inter = ch.flip(35, "interleave")
        def between(i):
            if not inter or not ch.flip(50, "inter?"): return
            cur = kernel.current(); kernel.set_current(None)
            try:
                log.append("between %d:" % i); disturb(path, 0)
            finally: kernel.set_current(cur)
        before = None
        if ch.flip(30, "fail-in-driver"):
            nm, ps = liftrig.BAD[ch.draw(len(liftrig.BAD), "broken")]
            log.append("failing analysis of %s in the same session" % nm)
            def before(d):
                p = os.path.join(root, "prog.py")
                fn = d.analyze(p, nm, lambda: [], lambda *a: None, lambda *a: None)
                try: fn(*[lang.var("bk" + p_, t) for p_, t in ps])
                except SimAbort: raise
                except Exception: pass
                d.fns.pop(nm, None)
        n = len(r.plans)
        got = pose_after(r, ch, sess, path, objs, between, before)
        if len(P.solo.funs) and not out.violations and [p.name for p in sess.parts] == [P.solo.funs[0].name] and got[0] == "ok" and not inter:
            with osim.real_open(path, "w") as f: f.write(P.solo.text)
            log.append("alone in its file")
            got = pose_after(r, ch, sess, path, objs, lambda i: None, None)
    except SimAbort as e:
        out.inconclusive = str(e); out.take(r.w); return
    note(out, r, sess, (got[0], got[1]), "; ".join(log), tuple(x.split(" ")[0] for x in log))
    out.stats["probe:disturbances"] = len(log)
    out.nontrivial = bool(log)
    if got[0] != "ok":
        if gone(out, [("exc", got[1])]): return
        out.bad("C10", "failed-after", "%r in %s after %s" % (got[1], sess.text(), log)); return
    if got[1] != ref[1]: out.bad("C10", "other-problem", "%s poses another problem after %s: %s" % (sess.text(), log, diff(ref[1], got[1])))
    elif got[2] != ref[2]: out.bad("C10", "other-grammar-arguments", "%s: grammars are called with %s after %s, with %s before" % (sess.text(), got[2], log, ref[2]))

def pose_after(r, ch, sess, path, objs, between, before):
    """pose, with the racket plan set last (disturbances attempt their own)."""
    d = new_driver()
    def late(i):
        between(i)
        if i == len(sess.calls):
            plan = rkt.Plan(); plan.rounds = [dict(kind="unsat", think=0, open=0, mid=0, close=0)]; plan.startup = 5
            r.attempt(plan); r.mark = len(r.problem)
            for p, _ in sess.calls: p.seen_inv.clear(); p.seen_ps.clear()
    r.mark = None
    for p, _ in sess.calls: p.seen_inv.clear(); p.seen_ps.clear()
    def body():
        sess.start(d, path)
        funcs = sess.funcs
        o = sess.declare(d) if objs is None else objs
        if objs is not None:
            for v in objs.values(): d.add_var_object(v)
            for mk, _, _ in sess.pre: d.add_precondition(mk(objs))
        if before: before(d)
        rs = []
        for i, (part, args) in enumerate(sess.calls):
            late(i)
            rs.append(funcs[part.name](*[rs[x[1]] if isinstance(x, tuple) else o[x] for x in args]))
        late(len(sess.calls))
        d.synthesize()
    x = r.guarded(body)
    if r.mark is None or len(r.problem) != r.mark + 1: return ("exc", x[1] if x[0] == "exc" else None)
    return ("ok", problem_lines(r.problem[-1]), [(sorted(map(str, p.seen_inv)), sorted(map(str, p.seen_ps))) for p, _ in sess.calls])

def run(ch, root, focus):
    out = rig.Outcome()
    if focus in ("C08", "C09"): run_sound(ch, root, out, focus)
    elif focus == "C11": run_composed(ch, root, out)
    elif focus == "C12": run_retry(ch, root, out)
    elif focus == "C10": run_history(ch, root, out)
    return out
