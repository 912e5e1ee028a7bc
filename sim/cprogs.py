"""The compiled C++ programs under /verif/fixtures and what they mean: reference
functions, loop-head traces, candidate summaries and invariants (right and wrong)."""
import itertools, os, random, re
from .values import EvalError
FIX = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "fixtures")
PY = {"int": "int", "list": "List[int]", "mat": "List[List[int]]", "bool": "bool"}

class Theory:
    """A summary with invariants to go with it; right says whether it is what the program does."""
    def __init__(self, ps, invs, right=False): self.ps, self.invs, self.right = ps, invs, right

class Prog:
    def __init__(self, name, params, out, ret, fn, trace, heads, dsl, theories, pre=(), loops=None, file="progs", src=None, extra=(), inputs=None):
        self.name, self.params, self.out, self.ret, self.fn, self.trace = name, params, out, ret, fn, trace
        self.heads = heads            # per loop, outermost first: (loop variable, read, modified)
        self.dsl, self.theories, self.pre, self.file, self.extra = dsl, theories, list(pre), file, list(extra)
        self.ptypes = dict(params)
        self.double = len(heads) == 2
        self.mat = any(t == "mat" for _, t in params) or ret == "mat"
        self.gen = inputs
        self.locals = {}
    def ll(self): return os.path.join(FIX, self.file + ".ll")
    def loops(self): return os.path.join(FIX, self.file + ".loops")
    def type(self, v):
        if v in self.ptypes: return self.ptypes[v]
        if v == self.out: return self.ret
        return self.locals.get(v, "int")
    def inv_vars(self, k):
        """Sorted as the repository sorts them, under their source names."""
        lv, rd, md = self.heads[k]
        return sorted(set([lv] + rd + md))
    def all_ok(self, env): return all(p[1](env) for p in self.pre)
    def sizes(self, rng, n):
        """Input tuples (in parameter order) satisfying the preconditions."""
        out = []
        def val(t, ln, w):
            if t == "int": return rng.choice([0, 1, 2, -1, 3, 5, -4, 32, 7])
            if t == "list": return tuple(rng.choice([0, 1, 2, -1, 3, -5, 8, 33]) for _ in range(ln))
            return tuple(tuple(rng.choice([0, 1, 2, -1, 3, -5, 8]) for _ in range(w)) for _ in range(ln))
        tries = 0
        while len(out) < n and tries < 60 * n:
            tries += 1
            ln, w = rng.choice([0, 1, 1, 2, 2, 2, 3, 4]), rng.choice([1, 2, 2, 3])
            if self.mat: ln = max(ln, 1)
            t = tuple(val(t, ln, w) for _, t in self.params)
            if self.gen: t = self.gen(rng, t)
            if self.all_ok({p: x for (p, _), x in zip(self.params, t)}) and t not in out: out.append(t)
        return out

# ------------------------------------------------------------- reference semantics
def t_sum_sq(xs):
    ss = 0
    for i in range(len(xs) + 1):
        yield 0, dict(i=i, ss=ss)
        if i < len(xs): ss = ss + xs[i] * xs[i]
    yield None, ss
def t_blend(base, active, opacity):
    out = ()
    for i in range(len(base) + 1):
        yield 0, dict(i=i, out=out)
        if i < len(base): out = out + (opacity * active[i] + (1 - opacity) * base[i],)
    yield None, out
def t_triangle(n):
    s = 0; i = 0
    while True:
        yield 0, dict(i=i, s=s)
        if not i < n: break
        s += i; i += 1
    yield None, s
def t_vmax(base, active):
    out = ()
    for i in range(len(base) + 1):
        yield 0, dict(i=i, out=out)
        if i < len(base): out = out + (max(base[i], active[i]),)
    yield None, out
def double(cell):
    def t(base, active, *more):
        out = (); row_vec = ()
        n = len(base[0]); col = 0
        for row in range(len(base) + 1):
            yield 0, dict(row=row, col=col, out=out, row_vec=row_vec)
            if row == len(base): break
            row_vec = ()
            for col in range(n + 1):
                yield 1, dict(row=row, col=col, out=out, row_vec=row_vec)
                if col < n: row_vec = row_vec + (cell(base[row][col], active[row][col], *more),)
            out = out + (row_vec,)
        yield None, out
    return t
def run_of(trace):
    def f(*a):
        for k, v in trace(*a):
            if k is None: return v
    return f
def dissolve(b, a, opacity, rand_cons):
    m = abs(rand_cons) % 100
    x = (m if rand_cons >= 0 else -m) + 1
    q = abs(x) // 100
    return a if opacity - (q if x >= 0 else -q) >= 0 else b

def same_len(a, b): return (lambda o: o[a].len() == o[b].len(), lambda e: len(e[a]) == len(e[b]), "len(%s) == len(%s)" % (a, b))
def min_len(a, n): return (lambda o: o[a].len() > n, lambda e: len(e[a]) > n, "len(%s) > %d" % (a, n))
def same_width(a, b): return (lambda o: o[a][0].len() == o[b][0].len(), lambda e: all(len(r) == len(e[a][0]) for r in e[a] + e[b]), "len(%s[0]) == len(%s[0])" % (a, b))
def at_least(a, n): return (lambda o: o[a] >= n, lambda e: e[a] >= n, "%s >= %d" % (a, n))
VV = [same_len("base", "active")]
MM = [min_len("base", 0), same_len("base", "active"), same_width("base", "active")]

def vec(ps, inv=None, right=False, v="i", n="len(base)", out="out"):
    """Theories for a single loop over base/active: the summary on prefixes."""
    body = inv or ps.replace("base", "base[:i]").replace("active", "active[:i]")
    full = "i >= 0 and i <= %s and %s == %s" % (n, out, body)
    return Theory(ps, [[full], ["i >= 0 and %s == %s" % (out, body)], ["i <= %s and %s == %s" % (n, out, body)], ["i >= 0 and i < %s and %s == %s" % (n, out, body)]], right)
def mat(ps, row, right=False):
    outer = ps.replace("base", "base[:row]").replace("active", "active[:row]")
    inner = row.replace("base", "base[row][:col]").replace("active", "active[row][:col]")
    o = "row >= 0 and row <= len(base) and out == " + outer
    i = "row >= 0 and row < len(base) and col >= 0 and col <= len(base[0]) and row_vec == %s and out == %s" % (inner, outer)
    return Theory(ps, [[o, i], ["row >= 0 and out == " + outer, i], [o, i.replace(" and out == " + outer, "")], [o, i.replace("col <= len(base[0])", "col < len(base[0])")]], right)

PROGS = {}
def add(p):
    PROGS[p.name] = p
    return p
add(Prog("sum_sq", [("xs", "list")], "ss", "int", None, t_sum_sq, [("i", ["xs"], ["ss"])],
    ["reduce_sum", "vec_elemwise_mul", "vec_elemwise_add", "vec_map", "vec_slice"], [
    vec("reduce_sum(vec_elemwise_mul(xs, xs))", "reduce_sum(vec_elemwise_mul(xs[:i], xs[:i]))", True, n="len(xs)", out="ss"),
    vec("reduce_sum(vec_map(xs, lambda v: v * v))", "reduce_sum(vec_map(xs[:i], lambda v: v * v))", True, n="len(xs)", out="ss"),
    vec("reduce_sum(vec_map(xs, lambda v: v * v))", "reduce_sum(vec_elemwise_mul(xs[:i], xs[:i]))", True, n="len(xs)", out="ss"),
    vec("reduce_sum(xs)", "reduce_sum(xs[:i])", n="len(xs)", out="ss"),
    vec("reduce_sum(vec_map(xs, lambda v: v + v))", "reduce_sum(vec_map(xs[:i], lambda v: v + v))", n="len(xs)", out="ss"),
    vec("reduce_sum(vec_elemwise_mul(xs, xs)) + 1", "reduce_sum(vec_elemwise_mul(xs[:i], xs[:i])) + 1", n="len(xs)", out="ss"),
    vec("reduce_sum(vec_elemwise_mul(xs[1:], xs[1:]))", "reduce_sum(vec_elemwise_mul(xs[1:i], xs[1:i]))", n="len(xs)", out="ss"),
    vec("0", n="len(xs)", out="ss")]))
B = "vec_elemwise_add(vec_scalar_mul(opacity, active), vec_scalar_mul(1 - opacity, base))"
add(Prog("blend", [("base", "list"), ("active", "list"), ("opacity", "int")], "out", "list", None, t_blend, [("i", ["base", "active", "opacity"], ["out"])],
    ["vec_elemwise_add", "vec_scalar_mul", "vec_elemwise_sub", "vec_scalar_add", "vec_elemwise_mul"], [
    vec(B, right=True),
    vec("vec_elemwise_add(vec_scalar_mul(1 - opacity, base), vec_scalar_mul(opacity, active))", right=True),
    vec(B.replace("active", "@").replace("base", "active").replace("@", "base")),
    vec(B.replace("1 - opacity", "opacity")), vec(B.replace("1 - opacity", "2 - opacity")),
    vec("vec_elemwise_add(active, base)"), vec("vec_scalar_mul(opacity, active)"), vec("base"),
    vec(B + "[1:]")], VV))
add(Prog("triangle", [("n", "int")], "s", "int", None, t_triangle, [("i", ["n"], ["s"])], ["tri", "upto"], [
    Theory("tri(n)", [["i >= 0 and (i <= n or i == 0) and s == tri(i)"], ["i >= 0 and i <= n and s == tri(i)"], ["s == tri(i)"], ["i >= 0 and s == tri(n)"]], True),
    Theory("tri(n) if n > 0 else 0", [["i >= 0 and (i <= n or i == 0) and s == tri(i)"], ["i >= 0 and s == tri(i)"]], True),
    Theory("upto(n)", [["i >= 0 and (i <= n or i == 0) and s == upto(i)"], ["s == upto(i)"]]),
    Theory("tri(n - 1)", [["i >= 0 and (i <= n or i == 0) and s == tri(i - 1)"]]),
    Theory("tri(n + 1)", [["i >= 0 and (i <= n or i == 0) and s == tri(i + 1)"]]),
    Theory("0", [["s == 0"], ["i >= 0 and (i <= n or i == 0) and s == 0"]])], extra=["tri", "upto"]))
S = "selection_two_args(base, active, lambda x, y: %s)"
add(Prog("vmax", [("base", "list"), ("active", "list")], "out", "list", None, t_vmax, [("i", ["base", "active"], ["out"])],
    ["selection_two_args", "vec_elemwise_add", "ite_int", "vec_map"], [
    vec(S % "x if x > y else y", right=True), vec(S % "y if x <= y else x", right=True), vec(S % "ite_int(x > y, x, y)", right=True), vec(S % "ite(x > y, x, y)", right=True),
    vec(S % "y if x > y else x"), vec(S % "x"), vec(S % "ite_int(x > y, y, x)"), vec(S % "x if x > y else 0"), vec(S % "ite(x > y, y, x)"),
    vec("base"), vec("vec_elemwise_add(base, active)")], VV))
two = lambda a: ("matrix_selection_two_args(base, active, lambda x, y: %s)" % a, "selection_two_args(base, active, lambda x, y: %s)" % a)
for nm, cell in (("madd", lambda b, a: b + a), ("darken", lambda b, a: a if b > a else b)):
    T = [mat("matrix_elemwise_add(base, active)", "vec_elemwise_add(base, active)", nm == "madd"), mat("matrix_elemwise_add(active, base)", "vec_elemwise_add(active, base)", nm == "madd"),
         mat(*two("x + y"), nm == "madd"), mat(*two("y if x > y else x"), nm == "darken"), mat(*two("ite_int(x > y, y, x)"), nm == "darken"), mat(*two("x if x > y else y")),
         mat(*two("x - y")), mat("matrix_elemwise_sub(base, active)", "vec_elemwise_sub(base, active)"), mat("base", "base")]
    T.sort(key=lambda t: not t.right)
    p = add(Prog(nm, [("base", "mat"), ("active", "mat")], "out", "mat", None, double(cell), [("row", ["base", "active"], ["out"]), ("col", ["base", "active", "row"], ["out", "row_vec"])],
        ["matrix_elemwise_add", "vec_elemwise_add", "matrix_selection_two_args", "selection_two_args", "ite_int", "matrix_elemwise_sub", "vec_elemwise_sub"], T, MM))
    p.locals = {"row_vec": "list"}
D = "%s if opacity - ((rand_cons %% 100) + 1) // 100 >= 0 else %s"
p = add(Prog("dissolve_blend_8", [("base", "mat"), ("active", "mat"), ("opacity", "int"), ("rand_cons", "int")], "out", "mat", None, double(dissolve),
    [("row", ["base", "active", "opacity", "rand_cons"], ["out"]), ("col", ["base", "active", "opacity", "rand_cons", "row"], ["out", "row_vec"])],
    ["matrix_selection_two_args", "selection_two_args", "ite_int", "vec_elemwise_add"], [
    mat(*two(D % ("y", "x")), True), mat(*two(D % ("x", "y"))), mat(*two("y")), mat(*two("x")), mat("base", "base")],
    MM + [at_least("rand_cons", 0)]))
p.locals = {"row_vec": "list"}
for p in PROGS.values(): p.fn = run_of(p.trace)

# Programs with one proposal for every shipped function that has an assumed sentence (C18).
def _single(name, base, dsl, wrong, n, out, cut):
    from copy import copy
    q = copy(PROGS[base]); q.key = name
    right = [t for t in q.theories if t.right][:1]
    q.theories = right + [vec(w, re.sub(r"\b(xs|base|active)\b", r"\1[:i]", w), n=n, out=out) for w in wrong]
    q.dsl = dsl; q.brief = True
    return q
VEC_FNS = ["vec_elemwise_add", "vec_elemwise_sub", "vec_elemwise_mul", "vec_elemwise_div"]
SC_FNS = ["vec_scalar_add", "vec_scalar_sub", "vec_scalar_mul", "vec_scalar_div", "scalar_vec_sub", "scalar_vec_div"]
AX = {}
AX["sums"] = _single("sums", "sum_sq", ["reduce_sum", "reduce_max"] + VEC_FNS + SC_FNS,
    ["reduce_sum(xs)", "reduce_max(xs)"] + ["reduce_sum(%s(xs, xs))" % f for f in VEC_FNS if f != "vec_elemwise_mul"] + ["reduce_sum(%s(2, xs))" % f for f in SC_FNS], "len(xs)", "ss", None)
AX["vectors"] = _single("vectors", "blend", VEC_FNS + SC_FNS,
    ["%s(active, base)" % f for f in VEC_FNS] + ["%s(opacity, base)" % f for f in SC_FNS] + ["vec_elemwise_add(base, vec_scalar_mul(opacity, active))"], "len(base)", "out", None)
def _double(name, base, dsl, wrong):
    from copy import copy
    q = copy(PROGS[base]); q.key = name
    right = [t for t in q.theories if t.right][:1]
    q.theories = right + [mat(m, r) for m, r in wrong]
    q.dsl = dsl; q.brief = True
    return q
AX["matrices"] = _double("matrices", "madd", ["matrix_elemwise_add", "matrix_elemwise_sub", "matrix_elemwise_mul", "matrix_scalar_mul", "matrix_scalar_div", "matrix_scalar_sub", "matrix_vec_mul", "reduce_sum", "vec_elemwise_add", "vec_elemwise_sub", "vec_elemwise_mul", "vec_scalar_mul", "vec_scalar_div", "vec_scalar_sub"],
    [("matrix_elemwise_%s(base, active)" % o, "vec_elemwise_%s(base, active)" % o) for o in ("sub", "mul")] + [("matrix_scalar_%s(2, base)" % o, "vec_scalar_%s(2, base)" % o) for o in ("mul", "div", "sub")]
    + [("ite(reduce_sum(matrix_vec_mul(base, base[0])) > 0, base, active)", "base")])
AX["choices"] = _double("choices", "darken", ["matrix_selection_two_args", "selection_two_args", "dissolve_matrix_selection_two_args", "dissolve_selection_two_args", "matrix_elemwise_add", "vec_elemwise_add"],
    [two("x"), two("x + y"), two("x if x > y else y"),
     ("dissolve_matrix_selection_two_args(base, active, 1, 2, lambda x, y, opacity, rand_cons: x if opacity > 0 else y)", "dissolve_selection_two_args(base, active, 1, 2, lambda x, y, opacity, rand_cons: x if opacity > 0 else y)"),
     ("matrix_elemwise_add(base, active)", "vec_elemwise_add(base, active)")])
