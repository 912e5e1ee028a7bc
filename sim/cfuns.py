"""C++ functions for the LLVM front end: programs of lang.py printed as C++
(compiled once, fixtures/gen*.ll), with nested loops and continue."""
import json, os, random, re
from . import lang
from .lang import returns, written, loops_of, prune, cut
FIX = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "fixtures")

# ------------------------------------------------------------- printing
def ce(e, P):
    k = e[0]
    if k == "v": return e[1]
    if k == "c": return str(e[1]) if e[1] >= 0 else "(0 - %d)" % -e[1]
    if k in ("//", "%"): return "(%s %s %s)" % (ce(e[1], P), k[0], ce(e[2], P))
    if k in "+-*": return "(%s %s %s)" % (ce(e[1], P), k, ce(e[2], P))
    if k == "neg": return "(-%s)" % ce(e[1], P)
    if k == "len": return "(int) %s.size()" % ce(e[1], P)
    if k == "get": return "%s[%s]" % (ce(e[1], P), ce(e[2], P))
    raise ValueError(e)
def cc(c, P):
    if c[0] in ("and", "or"): return "(%s %s %s)" % (cc(c[1], P), {"and": "&&", "or": "||"}[c[0]], cc(c[2], P))
    if c[0] == "chain": return "(%s %s %s && %s %s %s)" % (ce(c[3], P), c[1], ce(c[4], P), ce(c[4], P), c[2], ce(c[5], P))
    if c[0] == "<" and c[2][0] == "len" and c[1][0] == "v" and c[1][1] in P["counters"] and P["rng"].random() < 0.6: return "%s < %s.size()" % (c[1][1], c[2][1][1])
    return "%s %s %s" % (ce(c[1], P), c[0], ce(c[2], P))
def cs(stmts, ind, P, tail=None):
    """tail: the increment that ends the enclosing loop body, already printed elsewhere."""
    out = []; pad = "  " * ind; r = P["rng"]
    stmts = list(stmts)
    for n, s in enumerate(stmts):
        if s[0] == "set":
            if s[1] not in P["declared"]:
                P["declared"].add(s[1])
                out.append("%svector<int> %s;" % (pad, s[1]) if s[2] == ("empty",) else "%sint %s = %s;" % (pad, s[1], ce(s[2], P)))
            else: out.append("%s%s = %s;" % (pad, s[1], ce(s[2], P)))
        elif s[0] == "append": out.append("%s%s.push_back(%s);" % (pad, s[1], ce(s[2], P)))
        elif s[0] == "ret": out.append("%sreturn %s;" % (pad, ce(s[1], P)))
        elif s[0] == "while":
            body = list(s[3]); inc = body[-1]
            form = r.random()
            if form < 0.5 and inc[0] == "set":
                out.append("%sfor (; %s; %s = %s) {" % (pad, cc(s[2], P), inc[1], ce(inc[2], P)))
                P["inc"].append(None)
                out += cs(body[:-1], ind + 1, P, True)
            else:
                out.append("%swhile (%s) {" % (pad, cc(s[2], P)))
                P["inc"].append("%s = %s;" % (inc[1], ce(inc[2], P)) if inc[0] == "set" else None)
                out += cs(body, ind + 1, P, True)
            P["inc"].pop(); out.append(pad + "}")
        elif s[0] == "if":
            last = tail and (n == len(stmts) - 1 and P["inc"][-1] is None or n == len(stmts) - 2 and P["inc"][-1] is not None)
            if last and s[3] and not returns(s[2]) and r.random() < 0.5:
                out.append("%sif (%s) {" % (pad, cc(s[1], P))); out += cs(s[2], ind + 1, P)
                if P["inc"][-1]: out.append(pad + "  " + P["inc"][-1])
                out += [pad + "  continue;", pad + "}"]; out += cs(s[3], ind, P)
                continue
            out.append("%sif (%s) {" % (pad, cc(s[1], P))); out += cs(s[2], ind + 1, P)
            if s[3]: out.append(pad + "} else {"); out += cs(s[3], ind + 1, P)
            out.append(pad + "}")
    return out
def ctext(f, rng):
    P = dict(rng=rng, declared={p for p, _ in f.params}, inc=[], counters={c for c in f.types if c[:1] in "ij" and len(c) <= 2})
    args = ", ".join("%s %s" % ("int" if t == "int" else "vector<int>", p) for p, t in f.params)
    return "%s %s(%s) {\n%s\n}\n" % ("int" if f.ret == "int" else "vector<int>", f.name, args, "\n".join(cs(f.body, 1, P)))

# ------------------------------------------------------------- generation
def ok(f):
    """Within what clang -O0 turns into supported instructions."""
    lists = [v for v, t in f.locs.items() if t == "list"]
    def walk(b):
        for s in b:
            if s[0] == "ret":
                if f.ret == "list" and s[1] != ("v", "out"): return False
            elif s[0] == "if":
                if not walk(s[2]) or not walk(s[3]): return False
            elif s[0] == "while":
                if not walk(s[3]): return False
            elif s[0] == "set" and s[2][0] == "v" and f.types.get(s[2][1]) == "list": return False
        return True
    seen = set()
    for s in f.body:       # declared at the top level before being used
        if s[0] == "set": seen.add(s[1])
        elif s[0] == "append" or s[0] == "ret": continue
        elif not (written((s,)) - {p for p, _ in f.params}) <= seen: return False
    for k, b in loops_of(f.body):     # an inner counter is dead outside its loop
        for w in lang.inner_loops(b):
            j = w[3][-1][1]
            if uses(f.body, j) != uses((w,), j): return False
            if written(w[3]) - {j} & set(dict(f.params)): return False
    return len(lists) <= 1 and walk(f.body) and matters(f)
def matters(f):
    """Every loop contributes to the result."""
    pts = lang.inputs(f, random.Random(5), 40)
    base = lang.results(f, f.body, pts)
    if len(set(base)) < 6: return False
    def drop(b, k): return tuple(("while", s[1], s[2], (s[3][-1],)) if s[0] == "while" and s[1] == k else ("while",) + s[1:3] + (drop(s[3], k),) if s[0] == "while" else ("if", s[1], drop(s[2], k), drop(s[3], k)) if s[0] == "if" else s for s in b)
    for k, _ in f.loops:
        o = lang.results(f, drop(f.body, k), pts)
        if sum(1 for x, y in zip(base, o) if x is not None and y is not None and x != y) < 4: return False
    return True
def uses(x, j):
    if x == ("v", j): return 1
    return sum(uses(y, j) for y in x) if isinstance(x, tuple) else 0
class Plain(lang.Gen): ELSES = False
class Nest(Plain):
    """One loop inside another; the inner one accumulates into the result's type."""
    def loop(self):
        r = self.rng
        out = super().loop()
        w = out[-1]; body = w[3]
        c = self.counters[0]; j = "j" if c == "i" else "i"
        self.locs[j] = "int"
        acc = "out" if self.ret == "list" else r.choice(self.mutable())
        bound = r.choice([("v", c), ("c", 2), ("+", ("v", c), ("c", 1))] + [("len", ("v", l)) for l in self.lists] * 2 + [("v", x) for x in self.ints if x != self.modp])
        elem = [("v", j), ("v", c), ("+", ("v", c), ("v", j))] + [("get", ("v", l), ("v", j)) for l in self.lists if bound == ("len", ("v", l))] * 2 + [("v", x) for x in self.ints]
        e = r.choice(elem)
        st = ("append", "out", e) if acc == "out" else ("set", acc, (r.choice("++-"), ("v", acc), e))
        if r.random() < 0.4: st = ("if", (r.choice(["<", ">", "=="]), r.choice(elem), r.choice([("v", c), ("c", 1)] + [("v", x) for x in self.ints])), (st,), ())
        inner = [("set", j, ("c", 0)), ("while", 90 + w[1], ("<", ("v", j), bound), (st, ("set", j, ("+", ("v", j), ("c", 1)))))]
        keep = [s for s in body[:-1] if not any(x[0] == "ret" for x in flat((s,)))]
        at = r.randrange(len(keep) + 1)
        out[-1] = w[:3] + (tuple(keep[:at] + inner + keep[at:]) + body[-1:],)
        return [("set", j, ("c", 0))] + out
class Late(Nest):
    """More kinds of operators, and appends after loops."""
    def loop(self): return (Nest if self.rng.random() < 0.15 else Plain).loop(self)
    def expr(self, d, extra=()):
        if d and self.rng.random() < 0.1: return ("%", self.expr(0, extra), ("c", self.rng.choice([2, 3])))
        return super().expr(d, extra)
    def cond(self, d=1):
        c = super().cond(d)
        return ("!=",) + c[1:] if c[0] == "==" and self.rng.random() < 0.7 or c[0] in ("<", ">") and self.rng.random() < 0.08 else c
def late(f): return f.ret == "list" and "no append after a loop" in [x for x, _ in misreadings(f.body)]
def flat(b):
    for s in b:
        yield s
        if s[0] == "if": yield from flat(s[2]); yield from flat(s[3])
        if s[0] == "while": yield from flat(s[3])
def generate(seed, names, nested=(), latefs=()):
    rng = random.Random(seed); out = []
    for i, nm in enumerate(names):
        loops = [1, 2, 1, 0, 1, 2, 1, 0][i % 8]
        kw = dict(cls=Nest, ret=None) if nm in nested else {}
        for _ in range(4000):
            g = Late if latefs else Nest if nm in nested else Plain
            if nm in latefs and loops == 0: loops = 1
            try: f = lang.make(rng, nm, "r" + nm, 1 if nm in nested else loops, muts=2, gen=g, **(dict(ret="list") if nm in latefs else {}))
            except (ValueError, IndexError, AssertionError): continue
            if ok(f) and (nm not in latefs or late(f)): break
        else: raise ValueError(nm)
        out.append(f)
    return out

# ------------------------------------------------------------- misreadings
def misreadings(body):
    """What the program would mean if one kind of instruction were misread everywhere in it."""
    def ops(f):
        def e(x):
            if not isinstance(x, tuple): return x
            return f(tuple(e(y) for y in x))
        return e(body)
    def stmts(f):
        def g(b):
            out = []
            for s in b:
                if s[0] == "if": s = ("if", s[1], g(s[2]), g(s[3]))
                if s[0] == "while": s = s[:3] + (g(s[3]),)
                out += f(s)
            return tuple(out)
        return g(body)
    def after(b):
        seen = False; out = []
        for s in b:
            if s[0] == "while": seen = True
            if seen and s[0] == "append": continue
            out.append(s)
        return tuple(out)
    def conds(f):
        """Conditions of branches only: loops keep running as they do."""
        def c(x): return (x[0], c(x[1]), c(x[2])) if x[0] in ("and", "or") else f(x)
        return stmts(lambda s: [("if", c(s[1]), s[2], s[3])] if s[0] == "if" else [s])
    out = []
    for a, b in [("<", "<="), ("<=", "<"), (">", ">="), (">=", ">"), (">", "<"), ("<", ">"), ("==", ">="), ("==", "<="), ("!=", "<"), ("!=", ">"), ("!=", "==")]:
        out.append(("%s as %s" % (a, b), conds(lambda x: (b,) + x[1:] if x[0] == a else x)))
    out.append(("- reversed", ops(lambda x: ("-", x[2], x[1]) if x[:1] == ("-",) and len(x) == 3 else x)))
    out.append(("- as +", ops(lambda x: ("+", x[1], x[2]) if x[:1] == ("-",) and len(x) == 3 else x)))
    out.append(("* as +", ops(lambda x: ("+", x[1], x[2]) if x[:1] == ("*",) else x)))
    out.append(("% as /", ops(lambda x: ("//", x[1], x[2]) if x[:1] == ("%",) else x)))
    out.append(("/ as %", ops(lambda x: ("%", x[1], x[2]) if x[:1] == ("//",) else x)))
    out.append(("branches swapped", stmts(lambda s: [("if", s[1], s[3], s[2])] if s[0] == "if" and s[3] and not returns(s[2]) and not returns(s[3]) else [s])))
    out.append(("then always", stmts(lambda s: list(s[2]) if s[0] == "if" and not returns(s[2]) else [s])))
    out.append(("else always", stmts(lambda s: list(s[3]) if s[0] == "if" and not returns(s[3]) else [s])))
    out.append(("or as and", stmts(lambda s: [("if", ("and",) + s[1][1:], s[2], s[3])] if s[0] == "if" and s[1][0] == "or" else [s])))
    out.append(("and as or", stmts(lambda s: [("if", ("or",) + s[1][1:], s[2], s[3])] if s[0] == "if" and s[1][0] == "and" else [s])))
    out.append(("no append after a loop", after(body)))
    out.append(("loop once", stmts(lambda s: [("if", s[2], s[3], ())] if s[0] == "while" and not lang.inner_loops(s[3]) and not any(x[0] == "ret" for x in flat(s[3])) else [s])))
    out.append(("loop never", stmts(lambda s: [] if s[0] == "while" and not lang.inner_loops(s[3]) else [s])))
    out.append(("nothing before a loop", tuple(s for i, s in enumerate(body) if s[0] != "append" or not any(x[0] == "while" for x in body[i:]))))
    out.append(("appended twice", stmts(lambda s: [s, s] if s[0] == "append" else [s])))
    return [x for x in out if x[1] != body and returns(x[1])]

# ------------------------------------------------------------- loading
def load(base, rng, muts=4):
    """The functions of a fixture with fresh mutants."""
    with open(os.path.join(FIX, base + ".json")) as fh: spec = json.load(fh)
    with open(os.path.join(FIX, base + ".ll")) as fh: ll = fh.read()
    with open(os.path.join(FIX, base + ".loops")) as fh: loops = fh.read()
    out = []
    for d in spec:
        # parameters in the order in which the front end passes them
        body = tup(d["body"]); likely = misreadings(body)
        extra = rng.sample(likely, min(len(likely), 3)) if "wrong" not in d else [("missed %d" % i, tup(b)) for i, b in enumerate(d["wrong"])]
        f = lang.build(d["name"], sorted(tuple(p) for p in d["params"]), d["ret"], dict(d["locs"]), body, rng, muts, "r" + d["name"], extra=extra)
        f.ctext, f.base, f.cparams = d["text"], base, [p for p, _ in d["params"]]
        f.order = loop_order(f, ll, loops)
        out.append(f)
    return out
def text_of(base): 
    with open(os.path.join(FIX, base + ".cc")) as fh: return fh.read()
def loop_order(f, ll, loops):
    """Loop numbers in the order in which the pass lists the loops: headers appear in source order."""
    body = re.search(r"^define [^\n]*@(_Z%d%s\w*)\(.*?^}" % (len(f.name), f.name), ll, re.M | re.S)
    mangled, text = body.group(1), body.group(0)
    sec = loops.split("for function '%s':" % mangled)[1].split("Printing analysis")[0]
    heads = re.findall(r"%([\w.]+)<header>", sec)
    pos = sorted(heads, key=lambda h: text.index("\n%s:" % h))
    ks = [k for k, _ in loops_of(f.body)]
    if not heads: return []
    assert len(ks) == len(heads), (f.name, ks, heads)
    return [ks[pos.index(h)] for h in heads]
def tup(x): return tuple(tup(y) for y in x) if isinstance(x, list) else x
