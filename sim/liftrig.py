"""Lifting sessions of the Python front end in the simulator: generated source
modules, an in-memory parse cache, driver sessions, emulated solvers whose query
sampling is steered by execution traces, and ground truth."""
import errno, importlib.util, itertools, os, random, re, subprocess, sys, tempfile
from . import kernel, osim, smt, rkt, irsem, rig, lang, sexp
from .kernel import World, SimHang, SimAbort, HarnessError
from .values import EvalError, SortError

SP = "/opt/venv/lib/pypy3.9/site-packages"
def use_pure_mypy():
    """The front end subclasses mypy's visitors, which only interpreted mypy allows."""
    if "mypy" in sys.modules or not os.path.exists(SP + "/mypy/__init__.py"): return
    spec = importlib.util.spec_from_file_location("mypy", SP + "/mypy/__init__.py", submodule_search_locations=[SP + "/mypy"])
    m = importlib.util.module_from_spec(spec); sys.modules["mypy"] = m; spec.loader.exec_module(m)

# ------------------------------------------------------------- parsing
class Parses:
    """mypy's build of a file with known content is done once, before the runs
    fork; nothing else of the front end is replaced. Each content has several
    independent trees, handed out in turn."""
    def __init__(self): self.memo, self.real, self.turn, self.live = {}, None, {}, 0
    def install(self):
        from mypy import build
        self.real = build.build
        def memo_build(sources, options, *a, **k):
            if len(sources) == 1 and sources[0].path and not a and not k:
                try:
                    with osim.real_open(sources[0].path) as f: text = f.read()
                except OSError: text = None
                if text in self.memo:
                    c = self.memo[text]; i = self.turn.get(text, 0); self.turn[text] = i + 1
                    return c[i % len(c)]
            self.live += 1
            cur = kernel.current(); kernel.set_current(None)
            try: return self.real(sources, options, *a, **k)
            finally: kernel.set_current(cur)
        build.build = memo_build
    def prepare(self, path, text, copies):
        """Parses through the front end's own parse function, so the options are its own."""
        from metalift.frontend import python as fe
        from mypy import build
        with osim.real_open(path, "w") as f: f.write(text)
        got = []
        keep = build.build
        def grab(*a, **k):
            r = self.real(*a, **k); got.append(r); return r
        build.build = grab
        try:
            for _ in range(copies): fe.parse(path, "metalift")
        finally: build.build = keep
        if got: self.memo[text] = got
PARSES = Parses()

NAMES = ["foo", "foo_ps", "bar", "foo_ps_bar", "sum_ps_x", "inv0", "baz_inv"]
class Module:
    def __init__(self, funs, extra=""):
        self.funs = funs
        self.text = "from typing import List\n\n" + "\n\n".join(f.text() for f in funs) + extra
        self.by = {f.name: f for f in funs}
BROKEN = """
def broken_for(x: int) -> int:
    s = 0
    i = 0
    while i < x:
        s = s + i
        i = i + 1
    for k in [1]:
        s = s + k
    return s

def broken_late(x: int, l: List[int]) -> int:
    s = 0
    out: List[int] = []
    i = 0
    while i < len(l):
        out.append(l[i])
        s = s + x
        i = i + 1
    if s > 3:
        s = s + 1
    while s < 10:
        s += 1
    return s

def broken_early(x: int) -> int:
    assert x > 0
    return x
"""
BAD = [("broken_for", [("x", "int")]), ("broken_late", [("x", "int"), ("l", "list")]), ("broken_early", [("x", "int")])]

class Pool:
    """All source functions of one worker."""
    def __init__(self, seed, n):
        rng = random.Random(seed)
        self.mods = []
        for m in range(2):
            funs = []
            for i in range(n):
                nm = NAMES[i] if i < len(NAMES) else "f%d" % i
                loops = 0 if i % 5 == 4 else 2 if i % 5 == 3 else 1
                if m == 1: loops = rng.choice([0, 1, 1, 2])
                alias = m == 1 and i % 6 == 0
                hazard = {1: "param-append", 2: "merge", 3: "chain", 4: "loop-else"}.get(i % 6) if m == 1 else None
                want = None if hazard is None else (lambda f, h=hazard: any(b.startswith(h) for b in f.beliefs))
                if alias or hazard == "param-append": loops = 0
                if hazard == "loop-else": loops = 1
                if hazard == "merge": loops = rng.choice([0, 0, 1])
                f = lang.make(rng, nm, ("r" if m == 0 else "t") + nm, loops, muts=4, swap=not alias, alias=alias, want=want, elses=2 if hazard == "loop-else" else 1, ret="list" if hazard == "merge" and i % 12 < 6 else None,
                              listy=True if alias or hazard == "param-append" or i % 6 == 2 else None)
                f.alias = alias
                funs.append(f)
            if m == 0:   # functions for composed sessions
                self.inner = [lang.make(rng, "e%d" % i, "re%d" % i, [0, 1, 0, 1, 1][i % 5], muts=3, force=[("n", "int")] if i % 2 else [("n", "int"), ("a", "int")], ret="int", mutparam=i % 3 == 0) for i in range(n // 4)]
                self.outer = [lang.make(rng, "g%d" % i, "rg%d" % i, [0, 1, 0][i % 3], muts=2, force=[("p", "int"), ("u", "int"), ("v", "int")] if i % 2 else [("u", "int"), ("p", "int"), ("v", "int")], ret="int", mutparam=i % 4 == 0) for i in range(n // 4)]
                funs += self.inner + self.outer
            self.mods.append(Module(funs, BROKEN if m == 0 else ""))
        f = self.mods[0].funs[rng.randrange(n)]
        self.solo = Module([f])
POOL = None
def warm(scratch, n=24, solo=False):
    global POOL
    use_pure_mypy()
    import metalift.frontend.python
    import metalift.synthesize_rosette, metalift.process_tracker, metalift.synthesis_common
    PARSES.install()
    POOL = Pool(int(os.environ.get("PYTHONHASHSEED") or 0), n)
    for i, m in enumerate(POOL.mods + ([POOL.solo] if solo else [])):
        d = os.path.join(scratch, "warm"); os.makedirs(d, exist_ok=True)
        PARSES.prepare(os.path.join(d, "m%d.py" % i), m.text, 2 if i == 0 else 1)

# ------------------------------------------------------------- sessions
def eq(m, a, b): return m.Bool(m.Eq(a.src, b.src))
GRAMMAR_CALLS = []      # the variables the grammars were given, in order: grammars may pick them by position
class Part:
    """One source function of a session, with its grammars."""
    def __init__(self, fun, rng, style=None):
        self.fun, self.name = fun, fun.name
        self.order = list(range(len(fun.variants))); rng.shuffle(self.order)
        if rng.random() < 0.5: self.order.remove(0); self.order.append(0)    # wrong ones first
        self.style = rng.randrange(4) if style is None else style
        self.true_inv = rng.random() < 0.4
        self.dsl = rng.randrange(6) if rng.random() < 0.4 else 0      # the summary is written with helper functions, in some order of declaration
        self.extra_ps = None        # callable(m, env, rv) -> further Bool alternatives
        self.only_extra = False
        self.actual = None
        self.inputs = lang.inputs(fun, rng, 40)
        self.run = lang.instrument(fun)
        self.truth = lang.truth(fun)
        self.loop_order = [k for k, _ in lang.loops_of(fun.body)]      # as the invariants are numbered
        self.seen_inv = []          # what the grammars were called with
        self.seen_ps = []
        self.missing = set()
    def loop_writes(self): return [(k, sorted(lang.written(b))) for k, b in lang.loops_of(self.fun.body)]
    def target(self):
        own = self.fun.target()
        if not self.dsl: return own
        m = lang.ir(); T = lang.ty(self.fun.ret); s = self.fun.ret[0]
        x = lang.var("x", self.fun.ret)
        base = m.fn_decl("base_" + s, T, x, x)
        mid = m.fn_decl("mid_" + s, T, m.call("base_" + s, T, x), x)
        top = m.fn_decl("top_" + s, T, m.call("mid_" + s, T, m.call("base_" + s, T, x)), x)
        h = [[base, mid, top], [top, mid, base], [mid, top, base], [top, base, mid], [base, top, mid], [mid, base, top]][self.dsl]
        return h + own if self.dsl % 2 else own + h
    def wrap(self, a): return lang.ir().call("top_" + self.fun.ret[0], lang.ty(self.fun.ret), a) if self.dsl else a
    def ps_grammar(self, writes, reads, in_scope, relaxed=False):
        m = lang.ir()
        rv = writes[0]
        env = {v.var_name(): v for v in reads}
        GRAMMAR_CALLS.append(("ps", self.name, [[v.var_name() for v in x] for x in (writes, reads, in_scope)]))
        self.seen_ps.append((sorted(x.var_name() for x in writes), sorted(env)))
        alts = self.fun.ps_alts(env)
        alts = [self.wrap(alts[i]) for i in self.order]
        bools = [] if self.only_extra else [eq(m, rv, a) if self.style != 1 else eq(m, a, rv) for a in alts]
        if self.extra_ps: bools += self.extra_ps(m, env, rv)
        if self.style == 2 and not self.extra_ps: return eq(m, rv, m.choose(*alts))
        return m.choose(*bools)
    def inv_grammar(self, writes, reads, in_scope):
        m = lang.ir()
        env = {v.var_name(): v for v in in_scope}
        names = sorted(v.var_name() for v in writes)
        GRAMMAR_CALLS.append(("inv", self.name, [[v.var_name() for v in x] for x in (writes, reads, in_scope)]))
        self.seen_inv.append((names, sorted(env)))
        alts = self.fun.inv_alts(env, names)
        alts.sort(key=lambda x: (self.order.index(x[0]), x[1]))
        bools = [b for _, _, b in alts]
        if self.true_inv: bools.append(m.Bool(m.BoolLit(True)))
        if not bools: return m.Bool(m.BoolLit(True))
        return m.choose(*bools)

class Session:
    """The description of one driver session: functions, arguments, preconditions."""
    def __init__(self, parts, rng):
        self.parts = parts
        self.vars = {}        # name -> type, the session's declared variables
        self.pre = []         # (make IR Bool from objects, python predicate over env, text)
        self.calls = []       # (part, [variable names or ("r", index)])
        self.rng = rng
    def arg(self, p, t, rename):
        n = p
        if rename: n = self.rng.choice(["p", "q", "b", "z", p + "9", "x", "y"])
        k = 0
        while n in self.vars: k += 1; n = "%s%s" % (p, "qwzk"[k % 4] * (1 + k // 4))
        self.vars[n] = t
        return n
    def call_fresh(self, part, rename=False):
        """A call with its own variables, one per parameter."""
        part.actual = [self.arg(p, t, rename) for p, t in part.fun.params]
        self.calls.append((part, list(part.actual)))
    def draw_pre(self, ch):
        ints = [v for v, t in self.vars.items() if t == "int"]; lists = [v for v, t in self.vars.items() if t == "list"]
        for _ in range(ch.pick([0, 0, 1, 2], "pre")):
            k = ch.draw(4, "pre-kind")
            if k < 2 and ints:
                v = self.rng.choice(ints); c = self.rng.choice([0, 1, -1, 2]); op = self.rng.choice([">=", "<", ">", "<="])
                if op[0] == "<": c += 5
                self.pre.append(((lambda o, v=v, c=c, op=op: cmp(o[v], op, lang.ir().Int(c))), (lambda e, v=v, c=c, op=op: pcmp(e[v], op, c)), "%s %s %d" % (v, op, c)))
            elif k == 2 and len(ints) > 1:
                a, b = self.rng.sample(ints, 2)
                self.pre.append(((lambda o, a=a, b=b: o[a] <= o[b]), (lambda e, a=a, b=b: e[a] <= e[b]), "%s <= %s" % (a, b)))
            elif lists:
                l = self.rng.choice(lists); c = self.rng.choice([0, 1])
                self.pre.append(((lambda o, l=l, c=c: o[l].len() > lang.ir().Int(c)), (lambda e, l=l, c=c: len(e[l]) > c), "len(%s) > %d" % (l, c)))
    def ok(self, env): return all(p[1](env) for p in self.pre)
    def joint(self, n=60):
        """Joint input assignments that satisfy the preconditions."""
        out = []
        rng = random.Random(11)
        for i in range(n * 4):
            env = {}
            for part, args in self.calls:
                t = part.inputs[i % len(part.inputs)] if i < len(part.inputs) else part.inputs[rng.randrange(len(part.inputs))]
                for a, x in zip(args, t):
                    if not isinstance(a, tuple) and a not in env: env[a] = x
            if self.ok(env) and env not in out: out.append(env)
            if len(out) >= n: break
        return out
    def execute(self, env):
        """Calls the Python functions as the session does: [(part, args, value, log)] or None."""
        out = []
        for part, args in self.calls:
            a = tuple(out[x[1]][2] if isinstance(x, tuple) else env[x] for x in args)
            try: v, log = part.run(a)
            except (IndexError, lang.Diverges): return None
            out.append((part, a, v, log))
        return out
    def declare(self, d):
        """Variables and preconditions."""
        objs = {}
        for v, t in self.vars.items():
            o = lang.var(v, t); objs[v] = o; d.add_var_object(o)
        for mk, _, _ in self.pre: d.add_precondition(mk(objs))
        return objs
    def start(self, d, path):
        self.funcs = {}
        for part, _ in self.calls:
            if part.name not in self.funcs:
                self.funcs[part.name] = d.analyze(path, part.name, part.target, part.inv_grammar, part.ps_grammar)
    def perform(self, d, path, between=lambda i: None):
        self.start(d, path)
        objs = self.declare(d)
        rs = []
        for i, (part, args) in enumerate(self.calls):
            between(i)
            rs.append(self.funcs[part.name](*[rs[x[1]] if isinstance(x, tuple) else objs[x] for x in args]))
        return rs
    def text(self):
        return "; ".join("%s(%s)" % (p.name, ", ".join("r%d" % a[1] if isinstance(a, tuple) else a for a in args)) for p, args in self.calls) + "".join(" pre " + p[2] for p in self.pre)
    def decls(self):
        out = []
        for part, _ in self.calls: out += part.target()
        return out

def cmp(a, op, b): return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()
def pcmp(a, op, b): return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]

# ------------------------------------------------------------- query hints
BASE = re.compile(r"_\d+$")
def hints_for(sess, consts, envs, limit=400, per=3, rng=None):
    """Assignments along real executions: for each joint input, the results of all
    calls, and every call at one of its loop heads at the same time. The variables
    a loop modifies are matched with the query's constants by name and order of
    creation; some further assignments mix the values, for other namings."""
    rng = rng or random.Random(7)
    occ = {}
    for c in sorted(consts, key=lambda c: (len(c), c)): occ.setdefault(BASE.sub("", c), []).append(c)
    out, mixed = [], []
    todo = []
    for env in envs:
        ex = sess.execute(env)
        if ex is None: continue
        fixed = dict(env)
        seen = {}
        for part, a, v, log in ex:
            b = part.name + "_rv"
            k = seen.get(b, 0); seen[b] = k + 1
            fixed[b if k == 0 else "%s_%d" % (b, k)] = v
        fixed = {k: v for k, v in fixed.items() if k in consts}
        slots, used = [], {}
        for ci, (part, a, v, log) in enumerate(ex):
            for k, vs in part.loop_writes():
                for var in vs:
                    cs = [c for c in occ.get(var, ()) if c not in fixed]
                    i = used.get(var, 0); used[var] = i + 1
                    if i < len(cs): slots.append((cs[i], ci, k, var))
        pos = []
        for ci, (part, a, v, log) in enumerate(ex):
            l, finals = [], {}
            for k, st in log:
                l.append((k, st, dict(finals))); finals[k] = st
            if len(l) > 9: l = l[:3] + rng.sample(l[3:-3], 3) + l[-3:]
            pos.append(l)
        n = max([len(l) for l in pos] + [1])
        group = []
        for t in range(n):
            at = [l[t % len(l)] if l else None for l in pos]
            h = dict(fixed)
            for c, ci, k, var in slots:
                if at[ci] is None: continue
                kk, st, fin = at[ci]
                src = st if kk == k or k not in fin else fin[k]
                if var in src: h[c] = src[var]
            group.append(h)
            vals = {}
            for a in at:
                for st in ([a[1]] + list(a[2].values()) if a else []):
                    for var, x in st.items(): vals.setdefault(var, []).append(x)
            free = [c for c in consts if c not in fixed and BASE.sub("", c) in vals]
            for _ in range(per if free else 0):
                g = dict(fixed)
                for c in free: g[c] = rng.choice(vals[BASE.sub("", c)])
                mixed.append(g)
        todo.append(group)
    flat = [x for grp in itertools.zip_longest(*todo) for x in grp if x is not None]
    out = flat[:limit * 3 // 4]
    rng.shuffle(mixed)
    return out + mixed[:limit - len(out)]

class LiftVerifier(rig.Verifier):
    def __init__(self, w, sess, **kw):
        super().__init__(w, (), **kw); self.sess = sess
        self.limit = 700
    def judge(self, text):
        if text not in self.memo:
            try: consts = smt.Problem(text).consts
            except smt.SmtError as e: consts = {}
            except (RecursionError, sexp.SexpError): consts = {}
            self.memo[text] = smt.verify(text, hints_for(self.sess, consts, self.sess.joint(40)), self.limit)
        return self.memo[text]

class Spy:
    def __init__(self): self.solved = {}; self.errors = []
    def __call__(self, ev, *a):
        if ev == "solved": self.solved[a[0]] = (a[1], a[2])
        elif ev in ("error", "load-error"): self.errors.append((ev, a[0]))

class LiftRig:
    """World with emulated solvers for the synthesis attempts of one session."""
    def __init__(self, ch, root, sess, fault_pct=0):
        self.w = World(ch, root)
        self.root = root
        self.sess = sess
        self.ver = LiftVerifier(self.w, sess, fault_pct=fault_pct)
        self.plans = []; self.spies = []; self.missing = False
        self.rng = random.Random(ch.draw(1 << 20, "racket-rng"))
        self.w.spawn_handler = self.spawn
        self.problem = []
    def attempt(self, plan):
        self.plans.append(plan); self.spies.append(Spy())
    def spawn(self, argv):
        prog = os.path.basename(argv[0])
        if prog == "racket":
            if self.missing:
                self.w.count("fault:racket_missing")
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", argv[0])
            path = os.path.join(self.root, argv[-1])
            with osim.real_open(path) as f: self.problem.append(f.read())
            return lambda proc: rkt.racket_process(self.w, proc, path, self.plans[-1], self.rng, self.spies[-1])
        if "cvc5" in prog: return self.ver.spawn(argv)
        raise HarnessError("spawn %r" % (argv,))
    def guarded(self, f):
        """('ok', value) | ('exc', exception), with the world current."""
        kernel.set_current(self.w)
        try:
            try: return ("ok", f())
            except HarnessError: raise
            except BaseException as e: return ("exc", e)
        finally: kernel.set_current(None)

# ------------------------------------------------------------- choosing candidates
def variant_of(part, cand):
    """Variant numbers mentioned by an invariant candidate."""
    return {int(x) for x in re.findall(r"\b%s_\d+_(\d+)\b" % re.escape(part.fun.rname), sexp.show(cand["body"]))}
def loop_of(part, cand):
    ks = [int(x) for x in re.findall(r"\b%s_(\d+)_\d+\b" % re.escape(part.fun.rname), sexp.show(cand["body"]))]
    inner = [k for k in ks if k >= 90]      # an inner loop, followed by the rest of the outer one
    return (inner or ks or [None])[0]
def ps_matches(solver, cand, part, a, some=False):
    """Does a postcondition candidate state variant a's result (with some: on at least one point)?
    Rosette's division truncates where Python's and SMT's floor, so a right candidate may
    disagree with the ground truth on negative dividends inside the emulated Rosette."""
    f = solver.fn(cand)
    pts = part.inputs[:24]
    vals = lang.results(part.fun, part.fun.bodies[a], pts)
    good = 0
    for p, v in zip(pts, vals):
        if v is None: continue
        try:
            if f(*p, v) is not True:
                if some: continue
                return False
            if some: return True
            if isinstance(v, int) and f(*p, v + 1) is True: return False
            if isinstance(v, tuple) and f(*p, v + (1,)) is True: return False
            good += 1
        except (EvalError, SortError, RecursionError): continue
    return good > 0
def choose_variants(sess, variants, ps_pick=None):
    """A racket that proposes, for each function, the candidates of one variant."""
    def kind(solver, excluded):
        combo = []
        solver.install([c[0] for c in solver.cands.values()])
        parts = {}
        for part, _ in sess.calls: parts[part.name] = part
        invs = {}
        for n in solver.names:
            mt = re.fullmatch(r"(\w+)_inv(\d+)", n)
            if mt and mt.group(1) in parts: invs.setdefault(mt.group(1), []).append((int(mt.group(2)), n))
        want = {}
        for nm, l in invs.items():
            for (i, n), k in zip(sorted(l), parts[nm].loop_order): want[n] = (parts[nm], k)
        for n in solver.names:
            cs = solver.cands[n]; c = None
            if n in want:
                part, k = want[n]; a = variants[part.name]
                c = next((c for c in cs if variant_of(part, c) == {a} and loop_of(part, c) == k), None)
                if c is None and part.true_inv: c = next((c for c in cs if sexp.show(c["body"]) in ("true", "#t")), None)
            elif n.endswith("_ps") and n[:-3] in parts:
                part = parts[n[:-3]]
                if ps_pick and part.name in ps_pick: c = ps_pick[part.name](solver, cs)
                else:
                    a = variants[part.name]
                    # the alternative in the order in which the grammar lists them, else by meaning
                    c = next((c for c in cs if len(c["vec"]) == 1 and c["vec"][0] == (part.order.index(a), len(part.order)) and ps_matches(solver, c, part, a, some=True)), None)
                    c = c or next((c for c in cs if ps_matches(solver, c, part, a)), None)
            if c is None: return None
            combo.append(c)
        return tuple(combo)
    return kind

# ------------------------------------------------------------- ground truth
def eval_summary(part, e, args, decls):
    it = irsem.Interp(decls)
    return it.expr(e, dict(zip([p for p, _ in part.fun.params], args)))
def wrong_summary(part, e, cases, decls):
    """First (args, value, summary value) where the summary differs from the source."""
    it = irsem.Interp(decls)
    names = [p for p, _ in part.fun.params]
    n = 0
    for args, v in cases:
        try: x = it.expr(e, dict(zip(names, args)))
        except (EvalError, RecursionError): continue
        except SortError as ex: return args, v, "ill-sorted: %s" % ex
        n += 1
        if not rig.same_value(x, v): return args, v, x
    return None

def recheck(sess, text, envs):
    """True if the query has a counterexample after all (the emulated verifier
    was too weak): denser sampling along the executions, then the real cvc5 under
    a resource limit. Only used to withhold a report, never to make one."""
    try: consts = smt.Problem(text).consts
    except Exception: return False
    for es in ([envs[:1], envs]):
        hs = hints_for(sess, consts, es, limit=1500, per=150, rng=random.Random(99))
        if smt.verify(text, hs, 3000, seed=5).answer == "sat": return True
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f: f.write(text)
    except Exception: return False
    try:
        for extra in ([], ["--fmf-fun"]):
            try:
                r = osim.real("Popen")(["/usr/bin/cvc5", "--lang=smt", "--rlimit=400000", "--tlimit=20000"] + extra + [f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
                o = r.communicate(timeout=25)[0].decode()
            except Exception: continue
            if o.split("\n")[0].strip() == "sat": return True
    finally:
        try: osim.real("unlink")(f.name)
        except Exception: pass
    return False
