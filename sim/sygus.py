"""The simulated CVC5 SyGuS process.

Parses and checks the generated .sl problem as cvc5 does, expands its grammars,
searches them against the problem's constraints and prints the stream cvc5
prints with --output=sygus: enum lines, candidate lines, then the answer.
"""
import itertools, random
from . import sexp, smt
from .smt import SmtError, Problem, Compiled
from .values import EvalError, SortError
from .osim import real_open

class Grammar:
    def __init__(self, name, params, ret, decls, gram, prob):
        self.name, self.params, self.ret = name, params, ret
        self.prods = {}
        if decls is None or gram is None: raise SmtError("synth-fun without grammar")
        if [d[0] for d in decls] != [g[0] for g in gram]: raise SmtError("grammar declarations and definitions differ in %s" % name)
        for nt, sort, alts in gram:
            prob._sort(sort)
            if nt in self.prods: raise SmtError("non-terminal %s twice" % nt)
            if not isinstance(alts, list) or not alts: raise SmtError("empty production in %s" % name)
            self.prods[nt] = alts
        self.first = gram[0][0]
        scope = {p for p, _ in params} | set(self.prods)
        for alts in self.prods.values():
            for a in alts: prob._check(a, scope, {})
    def expand(self, chooser):
        used = []
        def ex(e, d):
            if d > 60: raise SmtError("grammar too deep")
            if isinstance(e, str):
                if e in self.prods:
                    alts = self.prods[e]
                    i = 0
                    if len(alts) > 1:
                        i = chooser(len(alts)); used.append((i, len(alts)))
                    return ex(alts[i], d + 1)
                return e
            return [e[0] if isinstance(e[0], str) else ex(e[0], d)] + [ex(x, d) for x in e[1:]]
        return ex(self.first, 0), used

class Solver:
    def __init__(self, text, hints=(), limit=500, cap=400, rng=None):
        self.rng = rng or random.Random(1)
        self.p = p = Problem(text, synth=True)
        if not p.check: raise SmtError("no check-synth")
        self.names = sorted(p.synth_funs)
        self.g = {n: Grammar(n, s[0], s[1], s[2], s[3], p) for n, s in p.synth_funs.items()}
        self.c = Compiled(p, {})
        for n in self.names: self.c._bind(n, None)
        names = sorted(p.consts)
        self.goals = [self.c.term(g, names) for g in p.constraints]
        self.pool = [t for _, t in itertools.islice(smt.assignments(p.consts, limit, hints), limit + 200)]
        self.cands = {n: self.enum(n, cap) for n in self.names}
        self.fns = {}
    def enum(self, n, cap):
        out, keys, vec = [], set(), []
        g = self.g[n]
        for _ in range(cap):
            it = iter(vec)
            e, used = g.expand(lambda k: next(it, 0))
            k = sexp.show(e)
            if k not in keys: keys.add(k); out.append(e)
            i = len(used) - 1
            while i >= 0 and used[i][0] + 1 >= used[i][1]: i -= 1
            if i < 0: return out
            vec = [x for x, _ in used[:i]] + [used[i][0] + 1]
        for _ in range(cap // 2):
            e, used = g.expand(lambda k: self.rng.randrange(k))
            k = sexp.show(e)
            if k not in keys: keys.add(k); out.append(e)
        return out
    def fn(self, n, e):
        k = (n, sexp.show(e))
        if k not in self.fns: self.fns[k] = self.c.term(e, [p for p, _ in self.g[n].params])
        return self.fns[k]
    def install(self, combo):
        for n, e in combo.items(): self.c.ns[self.c.names[n]] = self.fn(n, e)
    def holds(self, pts):
        for t in pts:
            try:
                if not all(g(*t) is True for g in self.goals): return t
            except (EvalError, RecursionError): continue
        return True
    def search(self, budget=20000):
        cex = []
        for tup in itertools.islice(itertools.product(*[self.cands[n] for n in self.names]), budget):
            combo = dict(zip(self.names, tup))
            self.install(combo)
            if cex and self.holds(cex) is not True: continue
            r = self.holds(self.pool)
            if r is True: return combo
            cex = [r] + cex[:7]
        return None
    def random(self, rng): return {n: rng.choice(self.cands[n]) for n in self.names}

# ---------------------------------------------------------------- printing
def render(e, rng, lets):
    """cvc5-like text of a term; lets: percentage of subterms factored out."""
    st = {"n": 0}
    def neg(x):
        if isinstance(x, str):
            if x.startswith("-") and x[1:].isdigit(): return ["-", x[1:]]
            return x
        return [neg(y) for y in x]
    def wrap(x):
        if isinstance(x, str) or len(x) < 2: return x
        x = [x[0]] + [wrap(y) for y in x[1:]]
        if rng.random() * 100 >= lets: return x
        subs = [i for i in range(1, len(x)) if not isinstance(x[i], str) or rng.random() < 0.3]
        if not subs: return x
        subs = subs[:rng.choice([1, 1, 2])]
        b = []
        for i in subs:
            st["n"] += 1
            v = "_let_%d" % st["n"]
            b.append([v, x[i]]); x[i] = v
        return ["let", b, x]
    return sexp.show(wrap(neg(e)))

class Plan:
    """What the SyGuS process does."""
    def __init__(self):
        self.startup = 10
        self.early = 0          # number of candidates before the final one
        self.final = "honest"   # honest | wrong | fail | (fail) | infeasible | none | nocand
        self.lets = 0
        self.enums = 0
        self.delay = [0]
        self.split = 0          # bytes per write, 0 = whole lines
        self.cut = None         # stop after this many bytes of output
        self.exit = 0
        self.after = "exit"     # exit | linger ms | run on
        self.linger = 0
        self.stderr = 0
        self.stdout_noise = 0
        self.interleave = False

def process(w, proc, path, plan, rng, spy, hints):
    yield ("sleep", plan.startup)
    if plan.stderr:
        for i in range(0, plan.stderr, 4096): yield ("err", b"cvc5: interrupted enumeration, retrying ...\n" * 93)
    try:
        with real_open(path) as f: text = f.read()
        spy.text = text
        s = Solver(text, hints, rng=random.Random(rng.randrange(1 << 20)))
    except (SmtError, OSError) as e:
        spy.error = str(e)
        yield ("out", '(error "Parse Error: %s")\n' % e); yield ("exit", 1); return
    except (RecursionError, SyntaxError) as e:
        spy.error = "too complex: %r" % e
        yield ("exit", 134); return
    spy.solver = s
    lines = []       # (text, event)
    for i in range(plan.enums): lines.append(("(sygus-enum %s)\n" % sexp.show(s.cands[s.names[0]][i % len(s.cands[s.names[0]])]), None))
    combos = [s.random(rng) for _ in range(plan.early)]
    final = None
    if plan.final == "honest": final = s.search()
    elif plan.final in ("wrong", "nocand"): final = s.random(rng)
    if plan.final != "nocand" and final is not None: combos.append(final)
    for j, c in enumerate(combos):
        lines.append(("(sygus-candidate %s)\n" % "".join("(%s %s)" % (n, render(e, rng, plan.lets)) for n, e in c.items()), ("cand", c)))
        if plan.stdout_noise: lines.append(("(sygus-enum (+ x 1))\n" * plan.stdout_noise, None))
    if final is not None:
        lines.append(("(\n", ("answer",)))
        for n, e in final.items():
            g = s.g[n]
            lines.append(("(define-fun %s (%s) %s %s)\n" % (n, " ".join("(%s %s)" % (p, show_sort(t)) for p, t in g.params), show_sort(g.ret), render(e, rng, 0)), None))
        lines.append((")\n", ("done",)))
    elif plan.final == "none": pass
    else: lines.append((("infeasible" if plan.final == "honest" else plan.final) + "\n", ("fail",)))
    sent = 0
    k = 0
    for t, ev in lines:
        yield ("sleep", plan.delay[k % len(plan.delay)]); k += 1
        b = t.encode()
        if plan.cut is not None and sent + len(b) > plan.cut:
            part = b[: plan.cut - sent]
            if part: yield ("out", part)
            if ev: spy.partial = (ev, len(part), len(b))
            spy.cut = True
            yield ("exit", plan.exit); return
        step = plan.split or len(b)
        for i in range(0, len(b), step):
            if i + step >= len(b) and ev: spy.events.append(ev)
            yield ("out", b[i:i + step])
            if plan.split: yield ("sleep", plan.delay[(k + i) % len(plan.delay)] // 7)
        sent += len(b)
    yield ("sleep", plan.linger)
    yield ("exit", plan.exit)

def show_sort(s):
    if isinstance(s, str): return s
    if s[0] == "Tuple": return "(Tuple%d %s)" % (len(s) - 1, " ".join(show_sort(x) for x in s[1:]))
    return "(%s %s)" % (s[0], show_sort(s[1]))

class Spy:
    def __init__(self): self.events = []; self.text = None; self.error = None; self.solver = None; self.cut = False; self.partial = None
    def last(self):
        """The last complete candidate before the answer (or so far)."""
        c = None
        for e in self.events:
            if e[0] == "cand": c = e[1]
            if e[0] == "answer": break
        return c
    def answered(self): return any(e[0] == "answer" for e in self.events)
    def failed(self): return any(e[0] == "fail" for e in self.events)
