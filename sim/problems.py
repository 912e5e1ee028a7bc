"""Hand-built synthesis problems with an independent ground truth.

Every problem can be built any number of times from the same description; the
truth is decided on native Python values, never through the repository.
"""
import random
from . import irsem
from .values import Tup, EvalError, SortError

WIDE = [0, 1, -1, 2, -2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, -7, 20, 31, 100, -50]

def ir():
    import metalift.ir as m
    return m

class IntExpr:
    """A random integer expression as data: ("v",name) ("c",k) ("+",a,b) ("-",a,b) ("*",a,b) ("ite",op,a,b,c,d)."""
def rnd(rng, names, depth=2):
    if depth == 0 or rng.random() < 0.2:
        return ("v", rng.choice(names)) if names and rng.random() < 0.8 else ("c", rng.choice([0, 1, 2, 3, 0, 1, 2, 3, -1, -2]))
    k = rng.choice("++-*i")
    if k == "i":
        return ("ite", rng.choice(["<", "<=", ">", ">=", "="]), rnd(rng, names, 0), rnd(rng, names, 0), rnd(rng, names, depth - 1), rnd(rng, names, depth - 1))
    if k == "*": return ("*", rnd(rng, names, 0), rnd(rng, names, depth - 1))
    return (k, rnd(rng, names, depth - 1), rnd(rng, names, depth - 1))
def toir(e, env):
    m = ir()
    k = e[0]
    if k == "v": return env[e[1]]
    if k == "c": return m.Int(e[1])
    if k == "+": return toir(e[1], env) + toir(e[2], env)
    if k == "-": return toir(e[1], env) - toir(e[2], env)
    if k == "*": return toir(e[1], env) * toir(e[2], env)
    if k == "ite":
        a, b = toir(e[2], env), toir(e[3], env)
        c = {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b, "=": lambda: a == b}[e[1]]()
        return m.ite(c, toir(e[4], env), toir(e[5], env))
def ev(e, env):
    k = e[0]
    if k == "v": return env[e[1]]
    if k == "c": return e[1]
    if k == "+": return ev(e[1], env) + ev(e[2], env)
    if k == "-": return ev(e[1], env) - ev(e[2], env)
    if k == "*": return ev(e[1], env) * ev(e[2], env)
    a, b = ev(e[2], env), ev(e[3], env)
    c = {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "=": a == b}[e[1]]
    return ev(e[4], env) if c else ev(e[5], env)

class Problem:
    basename = "p"
    rounds = 0
    guess = ()          # names of functions in fns_to_guess
    uninterp = ()
    def build(self): raise NotImplementedError   # -> dict(target_lang, vars, inv_and_ps, vc)
    def check(self, defs): raise NotImplementedError    # -> None | counterexample text
    def hints(self): return []
    def arg_points(self, rng, args, n=40):
        """Random native argument tuples for a definition's arguments."""
        pts = []
        for _ in range(n):
            pts.append(tuple(value_of(a.type, rng) for a in args))
        return pts

def value_of(ty, rng):
    m = ir()
    if ty is m.Int: return rng.choice(WIDE)
    if ty is m.Bool: return rng.random() < 0.5
    if m.is_list_type(ty):
        import typing
        el = typing.get_args(ty)[0]
        return tuple(value_of(el, rng) for _ in range(rng.randrange(0, 5)))
    if m.is_tuple_type(ty):
        import typing
        return Tup(value_of(t, rng) for t in typing.get_args(typing.get_args(ty)[0]))
    raise SortError("no values for %r" % (ty,))

def points(rng, k, n=160):
    out = [tuple([v] * k) for v in (0, 1, -1, 3, 8)]
    out += [tuple(rng.choice(WIDE) for _ in range(k)) for _ in range(n)]
    return out

NAMES = [["a", "b", "c"], ["x", "y", "z"], ["n", "m", "k"], ["arg", "arg1", "arg2"], ["defined", "value", "rv0"]]

class Straight(Problem):
    """r = F(inputs); one or two postconditions, possibly a nullary function and a helper."""
    def __init__(self, rng):
        self.seed = rng.random()
        self.ins = rng.choice(NAMES)[: rng.randrange(1, 4)]
        self.nfn = rng.choice([1, 1, 1, 2])
        base = rng.choice(["f", "fn", "define_it", "g1", "inverse", "fail_safe"])
        self.fn = [base + "_ps", rng.choice([base + "2_ps", "h_ps", base + "_ps2"])][: self.nfn]
        self.F = [rnd(rng, self.ins, 2) for _ in self.fn]
        self.alts = []
        for F in self.F:
            d = [rnd(rng, self.ins, rng.choice([0, 1, 2])) for _ in range(rng.randrange(0, 4))]
            if rng.random() < 0.7:
                d.append(("ite", rng.choice([">", ">="]), ("v", self.ins[0]), ("c", rng.choice([6, 9, 15])), ("+", F, ("c", 1)), F))
            d.append(F)
            rng.shuffle(d)
            self.alts.append(d)
        self.pre = rng.random() < 0.3       # precondition: first input >= 0
        self.zero = rng.random() < 0.3      # nullary helper synthesized as well
        self.zc = rng.randrange(0, 3)
        self.zalts = [0, 1, 2, 3]; rng.shuffle(self.zalts)
        self.helper = rng.random() < 0.4
        self.shared = rng.random() < 0.4
        self.trivial = rng.random() < 0.15   # no choice to make
        self.guess = tuple(rng.sample(self.fn, rng.randrange(0, len(self.fn) + 1)))
    def build(self):
        m = ir()
        env = {n: m.Int(n) for n in self.ins}
        lang = []
        if self.helper:
            hx = m.Int("hx")
            lang.append(m.fn_decl("twice", m.Int, hx + hx, hx))
        synths, goals = [], []
        if self.zero:
            synths.append(m.synth("konst", m.choose(*[m.Int(v) for v in self.zalts])))
            goals.append(m.call("konst", m.Int) == m.Int(self.zc))
        for fn, F, alts in zip(self.fn, self.F, self.alts):
            r = m.Int(fn[:-3] + "_rv")
            al = [toir(e, env) for e in alts]
            if self.helper: al.append(m.call("twice", m.Int, al[0]))
            if self.trivial: body = r == toir(F, env)
            elif self.shared:
                c = m.choose(*al)
                d = m.choose(m.Int(0), m.Int(1), m.Int(2))
                body = r == m.choose(c, c + d, m.ite(c > d, c, c))
            else: body = r == m.choose(*al)
            synths.append(m.synth(fn, body, *[env[n] for n in self.ins], r))
            goals.append(m.call(fn, m.Bool, *[env[n] for n in self.ins], toir(F, env)))
        vc = goals[0]
        for g in goals[1:]: vc = m.Bool(m.And(vc.src, g.src))
        if self.pre: vc = m.implies(env[self.ins[0]] >= 0, vc)
        return dict(target_lang=lang, vars={env[n].src for n in self.ins} | {m.Int(fn[:-3] + "_rv").src for fn in self.fn}, inv_and_ps=synths, vc=vc.src)
    def hints(self): return [dict(zip(self.ins, p)) for p in points(random.Random(self.seed), len(self.ins))]
    def check(self, defs):
        it = irsem.Interp(list(self.build()["target_lang"]) + list(defs))
        rng = random.Random(self.seed)
        for p in points(rng, len(self.ins)):
            env = dict(zip(self.ins, p))
            if self.pre and p[0] < 0: continue
            for fn, F in zip(self.fn, self.F):
                v = ev(F, env)
                if it.call(fn, list(p) + [v]) is not True: return "%s%r is not %d" % (fn, p, v)
        if self.zero and it.call("konst", []) != self.zc: return "konst"
        return None

class Loop(Problem):
    """i = 0; s = 0; while i < n: s += E(i); i += 1; return s   with a closed form."""
    def __init__(self, rng):
        self.seed = rng.random()
        self.k = rng.choice([1, 2, 3])
        self.fn = rng.choice(["acc", "loop", "test", "inv"])
        self.kinds = rng.sample(range(6), 6)
        self.ikinds = rng.sample(range(5), 5)
        self.guess = tuple(rng.choice([(), (self.fn + "_ps",), (self.fn + "_inv0", self.fn + "_ps")]))
        self.split = rng.random() < 0.5
    def vals(self, i, n, s, rv): pass
    def build(self):
        m = ir()
        n, i, s, rv = m.Int("n"), m.Int("i"), m.Int("s"), m.Int(self.fn + "_rv")
        k = self.k
        ps_alts = [n * k, m.ite(n > 0, n * k, m.Int(0)), n * (k + 1), n + k, m.ite(n > 6, n * k + 1, m.ite(n > 0, n * k, m.Int(0))), m.Int(0)]
        inv_alts = [s == i * k, s <= i * k, s >= i * k, s == n * k, m.Bool(True)]
        g = [m.Bool(m.And((i >= 0).src, (m.ite(n > 0, i <= n, i == 0)).src)), i >= 0, i <= n]
        inv_body = m.Bool(m.And(m.choose(*g).src, m.choose(*[inv_alts[j] for j in self.ikinds]).src))
        ps_body = rv == m.choose(*[ps_alts[j] for j in self.kinds])
        inv = m.synth(self.fn + "_inv0", inv_body, i, n, s)
        ps = m.synth(self.fn + "_ps", ps_body, n, rv)
        I = lambda a, b, c: m.call(self.fn + "_inv0", m.Bool, a, b, c)
        init = I(m.Int(0), n, m.Int(0))
        pres = m.implies(m.Bool(m.And((i < n).src, I(i, n, s).src)), I(i + 1, n, s + k))
        ex = m.implies(m.Bool(m.And(m.Not((i < n).src), I(i, n, s).src)), m.call(self.fn + "_ps", m.Bool, n, s))
        vc = m.Bool(m.And(init.src, pres.src, ex.src))
        return dict(target_lang=[], vars={v.src for v in (n, i, s, rv)}, inv_and_ps=[inv, ps], vc=vc.src)
    GRID = [(n, i, s) for n in range(-2, 5) for i in range(-2, 6) for s in range(-3, 13)]
    def hints(self): return self.trace() + [dict(n=n, i=i, s=s) for n, i, s in self.GRID]
    def trace(self):
        out = []
        for n in (0, 1, 2, 3, 5, 7, 8, -1, -3):
            i = s = 0
            out.append(dict(n=n, i=i, s=s))
            while i < n:
                i += 1; s += self.k; out.append(dict(n=n, i=i, s=s))
        return out
    def check(self, defs):
        it = irsem.Interp(defs)
        I = lambda *a: it.call(self.fn + "_inv0", a)
        rng = random.Random(self.seed)
        pts = [(h["n"], h["i"], h["s"]) for h in self.trace()] + self.GRID
        for n, i, s in pts:
            if I(0, n, 0) is not True: return "invariant does not hold initially at n=%d" % n
            if I(i, n, s):
                if i < n:
                    if I(i + 1, n, s + self.k) is not True: return "invariant not preserved at %r" % ((n, i, s),)
                elif it.call(self.fn + "_ps", (n, s)) is not True: return "postcondition fails at %r" % ((n, i, s),)
        return None

class Lists(Problem):
    """Fold over a list, with a recursive target function and an invariant."""
    def __init__(self, rng):
        self.seed = rng.random()
        self.op = rng.choice(["sum", "count", "sumpos"])
        self.order = rng.sample(range(4), 4)
        self.iorder = rng.sample(range(3), 3)
        self.fn = rng.choice(["total", "lst", "foo"])
        self.guess = tuple(rng.choice([(), (self.fn + "_ps",)]))
    def step(self, s, x): return s + x if self.op == "sum" else s + 1 if self.op == "count" else s + (x if x > 0 else 0)
    def build(self):
        m = ir()
        L = m.List[m.Int]
        l = m.List(m.Int, "l"); i, s, rv = m.Int("i"), m.Int("s"), m.Int(self.fn + "_rv")
        d = m.List(m.Int, "data")
        def stepir(acc, x): return acc + x if self.op == "sum" else acc + 1 if self.op == "count" else acc + m.ite(x > 0, x, m.Int(0))
        rec = m.call("fold", m.Int, d[1:])
        fold = m.fn_decl_recursive("fold", m.Int, m.ite(d.len() == 0, m.Int(0), stepir(rec, d[0])), d)
        other = m.fn_decl_recursive("fold2", m.Int, m.ite(d.len() == 0, m.Int(0), m.call("fold2", m.Int, d[1:]) + m.Int(1)), d)
        alts = [m.call("fold", m.Int, l), m.call("fold2", m.Int, l), l.len(), m.ite(l.len() > 3, m.Int(0), m.call("fold", m.Int, l))]
        ialts = [m.call("fold", m.Int, l[:i]), m.call("fold2", m.Int, l[:i]), m.call("fold", m.Int, l)]
        inv_body = m.Bool(m.And((i >= 0).src, (i <= l.len()).src, (s == m.choose(*[ialts[j] for j in self.iorder])).src))
        inv = m.synth(self.fn + "_inv0", inv_body, i, l, s)
        ps = m.synth(self.fn + "_ps", rv == m.choose(*[alts[j] for j in self.order]), l, rv)
        I = lambda a, b, c: m.call(self.fn + "_inv0", m.Bool, a, b, c)
        init = I(m.Int(0), l, m.Int(0))
        pres = m.implies(m.Bool(m.And((i < l.len()).src, I(i, l, s).src)), I(i + 1, l, stepir(s, l[i])))
        ex = m.implies(m.Bool(m.And(m.Not((i < l.len()).src), I(i, l, s).src)), m.call(self.fn + "_ps", m.Bool, l, s))
        vc = m.Bool(m.And(init.src, pres.src, ex.src))
        return dict(target_lang=[fold, other], vars={v.src for v in (l, i, s, rv)}, inv_and_ps=[inv, ps], vc=vc.src)
    LS = [(), (1,), (-2,), (1, 2), (0, 3), (2, -1, 2), (3, 3, 0, -5), (1, 2, 3, 4), (5, 0, 0, 1, 2)]
    def hints(self):
        out = []
        for l in self.LS:
            s = 0
            out.append(dict(l=l, i=0, s=0))
            for i, x in enumerate(l):
                s = self.step(s, x); out.append(dict(l=l, i=i + 1, s=s))
        return out
    def check(self, defs):
        it = irsem.Interp(list(self.build()["target_lang"]) + list(defs))
        I = lambda *a: it.call(self.fn + "_inv0", a)
        for h in self.hints():
            l, i, s = h["l"], h["i"], h["s"]
            try:
                if I(0, l, 0) is not True: return "invariant does not hold initially at %r" % (l,)
                if I(i, l, s):
                    if i < len(l):
                        if I(i + 1, l, self.step(s, l[i])) is not True: return "invariant not preserved at %r" % (h,)
                    elif it.call(self.fn + "_ps", (l, s)) is not True: return "postcondition fails at %r" % (h,)
                else: return "invariant misses the reachable state %r" % (h,)
            except EvalError: continue
        return None

class Tuples(Problem):
    """r = (F(a,b), G(a,b)) with projections in the grammar."""
    def __init__(self, rng):
        self.seed = rng.random()
        self.ins = ["a", "b"]
        self.F, self.G = rnd(rng, self.ins, 1), rnd(rng, self.ins, 1)
        self.fa = [self.F] + [rnd(rng, self.ins, 1) for _ in range(2)]
        self.ga = [self.G, ("ite", ">", ("v", "b"), ("c", 8), ("c", 0), self.G)] + [rnd(rng, self.ins, 1)]
        rng.shuffle(self.fa); rng.shuffle(self.ga)
        self.guess = ()
    def build(self):
        m = ir()
        a, b = m.Int("a"), m.Int("b")
        env = dict(a=a, b=b)
        r = m.Tuple((m.Int, m.Int), "pair_ii_rv")
        body = m.Bool(m.Eq(r.src, m.make_tuple(m.choose(*[toir(e, env) for e in self.fa]), m.choose(*[toir(e, env) for e in self.ga])).src))
        ps = m.synth("pair_ps", body, a, b, r)
        vc = m.call("pair_ps", m.Bool, a, b, m.make_tuple(toir(self.F, env), toir(self.G, env)))
        return dict(target_lang=[], vars={a.src, b.src}, inv_and_ps=[ps], vc=vc.src)
    def hints(self): return [dict(zip(self.ins, p)) for p in points(random.Random(self.seed), 2)]
    def check(self, defs):
        it = irsem.Interp(defs)
        rng = random.Random(self.seed)
        for p in points(rng, 2):
            env = dict(zip(self.ins, p))
            v = Tup((ev(self.F, env), ev(self.G, env)))
            if it.call("pair_ps", [p[0], p[1], v]) is not True: return "pair_ps%r is not %r" % (p, v)
        return None

KINDS = [Straight, Loop, Lists, Tuples]
def draw(ch, only=None):
    kinds = only or KINDS
    k = kinds[ch.draw(len(kinds), "kind")]
    p = k(random.Random(ch.draw(1 << 20, "problem")))
    p.rounds = ch.weighted([(4, 0), (2, 1), (2, 2), (1, 3)], "rounds")
    return p
