"""A small SMT-LIB front end and evaluator: the simulated CVC5 verifier.

It parses the query file with the strictness of a real solver (every symbol
declared exactly once and before its use, right arity), compiles the function
definitions and the goal to Python, and decides the goal over a finite set of
assignments.  Lists/tuples/sets are native values; the list theory shipped with
metalift is implemented natively, its quantified axioms are taken as true.
"""
import itertools, random, sys
from . import sexp
from .values import Tup, EvalError, SortError, same

class SmtError(Exception):
    """What a real solver reports as (error "...")."""

UNSPEC = 77     # value of unspecified applications (head of nil, out of range get)

def _ck_int(*xs):
    for x in xs:
        if type(x) is not int: raise SortError("integer expected: %r" % (x,))
def _ck_bool(*xs):
    for x in xs:
        if type(x) is not bool: raise SortError("boolean expected: %r" % (x,))
def _lst(x):
    if type(x) is not tuple: raise SortError("list expected: %r" % (x,))
    return x
def add(*a): _ck_int(*a); return sum(a)
def sub(*a):
    _ck_int(*a)
    if len(a) == 1: return -a[0]
    r = a[0]
    for x in a[1:]: r -= x
    return r
def mul(*a):
    _ck_int(*a); r = 1
    for x in a: r *= x
    if abs(r) > 10**30: raise EvalError("too big")
    return r
def div(a, b):
    _ck_int(a, b)
    if b == 0: return UNSPEC
    q = a // b
    if b < 0 and a % b != 0: q = -(a // -b)     # Euclidean
    return (a - (a % abs(b))) // b
def mod(a, b):
    _ck_int(a, b)
    if b == 0: return UNSPEC
    return a % abs(b)
def lt(*a): _ck_int(*a); return all(x < y for x, y in zip(a, a[1:]))
def le(*a): _ck_int(*a); return all(x <= y for x, y in zip(a, a[1:]))
def gt(*a): _ck_int(*a); return all(x > y for x, y in zip(a, a[1:]))
def ge(*a): _ck_int(*a); return all(x >= y for x, y in zip(a, a[1:]))
def eq(*a): return all(same(x, y) for x, y in zip(a, a[1:]))
def get(l, i):
    _lst(l); _ck_int(i)
    if not l: return UNSPEC
    if i <= 0: return l[0]
    return l[i] if i < len(l) else UNSPEC
def mget(l, i):
    _lst(l); _ck_int(i)
    if not l: return (UNSPEC,)
    if i <= 0: return l[0]
    return l[i] if i < len(l) else (UNSPEC,)
def tail_(l, n):
    _lst(l); _ck_int(n)
    return l if n <= 0 else l[n:]
def take_(l, n):
    _lst(l); _ck_int(n)
    return () if n <= 0 else l[:n]
def tget(t, i):
    if not isinstance(t, Tup) or i >= len(t): raise SortError("tuple%d_get on %r" % (i, t))
    return t[i]
def setv(s):
    if not isinstance(s, frozenset): raise SortError("set expected %r" % (s,))
    return s
def _isqrt_helper(n, guess):
    for _ in range(200):
        if guess in (0, 1) or guess > 64: return 1
        if guess == div(n, guess): return guess
        guess = div(guess + div(n, guess), 2)
    raise EvalError("sqrt")
def _iexp(n):
    r = 1
    for _ in range(max(0, n)): r = (r * 3) % 64
    return r
def transpose(m): 
    if len(m) < 1: return ()
    return (tuple(get(r, 0) for r in m),) + transpose(_rests(m)) if m and m[0] else ()
def _rests(m):
    if len(m) < 1: return ()
    n = len(m[0])
    return tuple(take_(r, n)[1:] for r in m)

BUILTIN = {
 "+": (add, None), "-": (sub, None), "*": (mul, None), "div": (div, 2), "mod": (mod, 2),
 "<": (lt, None), "<=": (le, None), ">": (gt, None), ">=": (ge, None), "=": (eq, None),
 "abs": (lambda x: abs(x), 1),
}
LISTLIB = {
 "list_length": (lambda l: len(_lst(l)), 1), "list_prepend": (lambda v, l: (v,) + _lst(l), 2),
 "list_append": (lambda l, v: _lst(l) + (v,), 2), "list_get": (get, 2), "list_get_helper": (get, 2),
 "list_empty": (lambda: (), 0), "list_tail": (tail_, 2), "list_take": (take_, 2),
 "list_concat": (lambda a, b: _lst(a) + _lst(b), 2), "list_contains": (lambda l, v: v in _lst(l), 2),
 "matrix_length": (lambda l: len(_lst(l)), 1), "matrix_prepend": (lambda v, l: (_lst(v),) + _lst(l), 2),
 "matrix_append": (lambda l, v: _lst(l) + (_lst(v),), 2), "matrix_get": (mget, 2), "matrix_get_helper": (mget, 2),
 "matrix_empty": (lambda: (), 0), "matrix_tail": (tail_, 2), "matrix_take": (take_, 2),
 "vec_slice": (lambda l, s, e: tail_(take_(l, e), s), 3),
 "vec_slice_with_length": (lambda l, s, n: tail_(take_(l, s + n), s), 3),
 "matrix_row_slice": (lambda l, s, e: tail_(take_(l, e), s), 3),
 "matrix_row_slice_with_length": (lambda l, s, n: tail_(take_(l, s + n), s), 3),
 "matrix_col_slice": (lambda l, s, e: tuple(tail_(take_(r, e), s) for r in _lst(l)), 3),
 "matrix_col_slice_with_length": (lambda l, s, n: tuple(tail_(take_(r, s + n), s) for r in _lst(l)), 3),
 "firsts": (lambda m: tuple(get(r, 0) for r in m), 1), "rests": (_rests, 1), "matrix_transpose": (transpose, 1),
 "integer_exp": (_iexp, 1), "integer_sqrt": (lambda n: _isqrt_helper(div(n, 2), n), 1),
 "integer_sqrt_helper": (_isqrt_helper, 2),
}
THEORY = {   # always available
 "cons": (lambda h, t: (h,) + _lst(t), 2), "head": (lambda l: _lst(l)[0] if l else UNSPEC, 1), "tail": (lambda l: _lst(l)[1:], 1),
 "set.union": (lambda a, b: setv(a) | setv(b), 2), "set.minus": (lambda a, b: setv(a) - setv(b), 2),
 "set.member": (lambda v, s: v in setv(s), 2), "set.subset": (lambda a, b: setv(a) <= setv(b), 2),
 "set.singleton": (lambda v: frozenset([v]), 1), "set.insert": (lambda v, s: setv(s) | {v}, 2),
 "set.inter": (lambda a, b: setv(a) & setv(b), 2),
}
for _n in range(1, 21):
    THEORY["tuple%d" % _n] = ((lambda *a: Tup(a)), _n)
    for _i in range(_n):
        THEORY["tuple%d_get%d" % (_n, _i)] = ((lambda t, i=_i, n=_n: tget(t, i) if isinstance(t, Tup) and len(t) == n else (_ for _ in ()).throw(SortError("tuple arity"))), 1)

class Fn:
    def __init__(self, name, params, ret, body): self.name, self.params, self.ret, self.body = name, params, ret, body

SHIPPED = {}    # definition text -> is it the native function
SHAPES = {str(("MLList", ("MLList", "Int"))): [(), ((),), ((1,),), ((3, -2),), ((1,), (2,)), ((3, -2), (1, 0)), ((1,), (4, 5)), ((), (2,)), ((-5,), (0,), (7,)), ((0, 1), (1, -1), (2, 2))]}

class Problem:
    """A parsed and checked .smt (or .sl) file."""
    def __init__(self, text, synth=False):
        try:
            self.forms = sexp.parse(text)
        except sexp.SexpError as e:
            raise SmtError("Parse Error: %s" % e)
        self.funs = {}        # name -> Fn (user defined, body may be None: declare-fun)
        self.lib = set()
        self.order = []
        self.consts = {}      # name -> sort
        self.asserts = []
        self.constraints = []
        self.synth_funs = {}  # name -> (params, ret, decls, grammar)
        self.check = False
        self.sorts = {}
        self.synth = synth
        self._load()
    def _dup(self, name):
        if name in self.funs or name in self.consts or name in self.lib or name in self.synth_funs:
            raise SmtError("symbol '%s' is declared twice" % name)
        if name in BUILTIN or name in THEORY or name in ("and", "or", "not", "ite", "let", "=>", "true", "false"):
            raise SmtError("cannot redeclare '%s'" % name)
    def _sort(self, s):
        if isinstance(s, str):
            if s in self.sorts: return self._sort(self.sorts[s])
            if s in ("Int", "Bool"): return s
            raise SmtError("unknown sort %s" % s)
        if s and isinstance(s[0], str) and s[0] in ("MLList", "Set") and len(s) == 2:
            return (s[0], self._sort(s[1]))
        if s and isinstance(s[0], str) and s[0].startswith("Tuple") and s[0][5:].isdigit() and int(s[0][5:]) == len(s) - 1:
            return ("Tuple",) + tuple(self._sort(x) for x in s[1:])
        raise SmtError("unknown sort %s" % sexp.show(s))
    def _load(self):
        done = False
        for f in self.forms:
            if not isinstance(f, list) or not f: raise SmtError("unexpected token %r" % (f,))
            k = f[0]
            if k in ("set-logic", "set-option", "set-info", "declare-datatypes", "declare-datatype"):
                continue
            if k == "define-sort":
                self.sorts[f[1]] = f[3]; continue
            if k == "declare-fun":
                args = [self._sort(s) for s in f[2]]; ret = self._sort(f[3])
                self._dup(f[1])
                if f[1] in LISTLIB and not self.synth: self.lib.add(f[1])
                elif not args: self.consts[f[1]] = ret
                else: self.funs[f[1]] = Fn(f[1], [("a%d" % i, s) for i, s in enumerate(args)], ret, None); self.order.append(f[1])
                continue
            if k in ("define-fun", "define-fun-rec"):
                if len(f) != 5: raise SmtError("malformed %s %s" % (k, f[1] if len(f) > 1 else ""))
                name = f[1]
                self._dup(name)
                if name in LISTLIB and not self.synth and name not in self.funs and self._is_shipped(f):
                    self.lib.add(name); continue
                params = []
                for prm in f[2]:
                    if not isinstance(prm, list) or len(prm) != 2: raise SmtError("malformed parameter in %s" % name)
                    params.append((prm[0], self._sort(prm[1])))
                if len({p for p, _ in params}) != len(params):
                    raise SmtError("duplicate parameter in %s" % name)
                ret = self._sort(f[3])
                scope = {p for p, _ in params}
                me = {name: len(params)} if k == "define-fun-rec" else {}
                self._check(f[4], scope, me)
                self.funs[name] = Fn(name, params, ret, f[4]); self.order.append(name)
                continue
            if k in ("declare-const", "declare-var"):
                self._dup(f[1])
                self.consts[f[1]] = self._sort(f[2]); continue
            if k == "synth-fun":
                self._dup(f[1])
                params = [(p[0], self._sort(p[1])) for p in f[2]]
                self.synth_funs[f[1]] = (params, self._sort(f[3]), f[4] if len(f) > 4 else None, f[5] if len(f) > 5 else None)
                continue
            if k == "assert":
                self._check(f[1], set(), {})
                self.asserts.append(f[1]); continue
            if k == "constraint":
                self._check(f[1], set(), {})
                self.constraints.append(f[1]); continue
            if k in ("check-sat", "check-synth"):
                self.check = True; continue
            if k in ("get-model", "exit", "get-value"): continue
            raise SmtError("unknown command %s" % k)
    def _is_shipped(self, f):
        """Does the definition say what the native one does?  (Otherwise the text counts.)"""
        key = sexp.show(f)
        if key not in SHIPPED: SHIPPED[key] = self._like_native(f)
        return SHIPPED[key]
    def _like_native(self, f):
        try:
            q = Problem.__new__(Problem); q.__dict__.update(self.__dict__)
            q.funs, q.order, q.lib = {}, [], set(self.lib)
            name = f[1]
            params = [(x[0], self._sort(x[1])) for x in f[2]]
            q._check(f[4], {x for x, _ in params}, {name: len(params)})
            if name != "list_tail" and name != "matrix_tail" and len(params) != LISTLIB[name][1]: return False
            q.funs[name] = Fn(name, params, self._sort(f[3]), f[4]); q.order = [name]
            g = Compiled(q, {}); g = g.ns[g.names[name]]
            h = LISTLIB[name][0]
            doms = [SHAPES.get(str(t)) or domain(t) for _, t in params]
            rng = random.Random(3)
            pts = list(itertools.product(*doms))
            if len(pts) > 600: pts = rng.sample(pts, 600)
            for pt in pts:
                try: a = h(*pt)
                except (EvalError, RecursionError): continue
                try: b = g(*pt)
                except (EvalError, RecursionError): continue
                if not same(a, b): return False
            return True
        except SortError: return False
    def _check(self, e, scope, me):
        """Well-formedness of a term: symbols known, arities right."""
        if isinstance(e, str):
            if e in scope or e in self.consts or e in ("true", "false") or _isnum(e): return
            if e in self.lib and LISTLIB[e][1] == 0: return
            if e in self.funs and not self.funs[e].params: return
            if e in self.synth_funs and not self.synth_funs[e][0]: return
            raise SmtError("Symbol '%s' is not declared." % e)
        if not e: raise SmtError("empty term")
        h = e[0]
        if isinstance(h, list):
            raise SmtError("cannot apply %s" % sexp.show(h))
        n = len(e) - 1
        if h == "let":
            inner = set(scope)
            for b in e[1]:
                self._check(b[1], scope, me); inner.add(b[0])
            self._check(e[2], inner, me); return
        if h in ("forall", "exists"):
            inner = set(scope)
            for v, s in e[1]:
                self._sort(s); inner.add(v)
            self._check(e[2], inner, me); return
        if h == "as":
            return
        if h == "!":
            self._check(e[1], scope, me); return
        if h in ("and", "or", "=>"): ar = None
        elif h == "not": ar = 1
        elif h == "ite": ar = 3
        elif h in BUILTIN: ar = BUILTIN[h][1]
        elif h in THEORY: ar = THEORY[h][1]
        elif h in me: ar = me[h]
        elif h in self.funs: ar = len(self.funs[h].params)
        elif h in self.synth_funs: ar = len(self.synth_funs[h][0])
        elif h in self.lib: ar = LISTLIB[h][1]
        else:
            if h in scope or h in self.consts: raise SmtError("'%s' is not a function" % h)
            raise SmtError("Symbol '%s' is not declared." % h)
        if ar is not None and ar != n: raise SmtError("wrong number of arguments to %s" % h)
        if ar is None and n < 1: raise SmtError("no arguments to %s" % h)
        for x in e[1:]: self._check(x, scope, me)

    # ---------------------------------------------------------- evaluation
    def compile(self, extra=None, uninterp=None):
        """Returns (env, compile_term).  extra: name -> python callable overriding."""
        return Compiled(self, extra or {}, uninterp)

def _isnum(s): return s.isdigit()      # numerals have no sign in SMT-LIB

class Compiled:
    def __init__(self, prob, extra, uninterp=None):
        self.prob = prob
        self.ns = {"SortError": SortError, "_b": _truth, "__builtins__": {"frozenset": frozenset}}
        self.names = {}
        for d in (BUILTIN, THEORY, LISTLIB):
            for k, (fn, _) in d.items():
                self._bind(k, fn)
        for k, fn in extra.items(): self._bind(k, fn)
        for name in prob.order:
            f = prob.funs[name]
            if name in extra: continue
            if f.body is None:
                self._bind(name, (uninterp or default_uninterp)(name, f)); continue
            self.define(name, [p for p, _ in f.params], f.body, f.ret)
    def _bind(self, k, fn):
        n = self.names.setdefault(k, "f%d" % len(self.names))
        self.ns[n] = fn
    def define(self, name, params, body, ret=None):
        pn = {p: "p%d" % i for i, p in enumerate(params)}
        self.names.setdefault(name, "f%d" % len(self.names))
        src = "lambda %s: %s" % (", ".join(pn.values()), self.src(body, pn))
        self.ns[self.names[name]] = eval(src, self.ns)
    def term(self, e, params):
        pn = {p: "p%d" % i for i, p in enumerate(params)}
        return eval("lambda %s: %s" % (", ".join(pn.values()), self.src(e, pn)), self.ns)
    def src(self, e, sc, depth=0):
        if isinstance(e, str):
            if e in sc: return sc[e]
            if e == "true": return "True"
            if e == "false": return "False"
            if _isnum(e): return "(%s)" % e
            if e in self.names: return self.names[e] + "()"
            raise SmtError("Symbol '%s' is not declared." % e)
        h = e[0]
        r = lambda x: self.src(x, sc, depth)
        if h == "and": return "(" + " and ".join("_b(%s)" % r(x) for x in e[1:]) + ")"
        if h == "or": return "(" + " or ".join("_b(%s)" % r(x) for x in e[1:]) + ")"
        if h == "not": return "(not _b(%s))" % r(e[1])
        if h == "=>":
            s = r(e[-1])
            for x in reversed(e[1:-1]): s = "((not _b(%s)) or _b(%s))" % (r(x), s)
            return s
        if h == "ite": return "(%s if _b(%s) else %s)" % (r(e[2]), r(e[1]), r(e[3]))
        if h == "let":
            inner = dict(sc); ps, vs = [], []
            for b in e[1]:
                n = "l%d" % (len(inner) + 1000)
                vs.append(r(b[1])); ps.append(n); inner[b[0]] = n
            return "(lambda %s: %s)(%s)" % (", ".join(ps), self.src(e[2], inner, depth), ", ".join(vs))
        if h == "as":
            if e[1] == "nil": return "()"
            if e[1] == "set.empty": return "frozenset()"
            raise SmtError("unknown qualified term %s" % sexp.show(e))
        if h == "!": return r(e[1])
        if h in self.names:
            return "%s(%s)" % (self.names[h], ", ".join(r(x) for x in e[1:]))
        raise SmtError("Symbol '%s' is not declared." % h)

def _truth(x):
    if x is True or x is False: return x
    raise SortError("boolean expected: %r" % (x,))

def default_uninterp(name, f, salt=0):
    """A fixed, well-spread interpretation for an uninterpreted function."""
    seed = sum(ord(c) * (i + 7) for i, c in enumerate(name)) + 31 * salt
    def val(sort, args):
        h = seed
        for a in args: h = (h * 1000003 + _h(a)) & 0x7fffffff
        if sort == "Int": return h % 7 - 2
        if sort == "Bool": return bool(h >> 3 & 1)
        if sort[0] == "MLList": return tuple(val(sort[1], (i, h)) for i in range(h % 3))
        if sort[0] == "Tuple": return Tup(val(s, (i, h)) for i, s in enumerate(sort[1:]))
        return frozenset([h % 3])
    return lambda *a: val(f.ret, a)
def _h(a):
    if isinstance(a, bool): return 3 + a
    if isinstance(a, int): return a * 2654435761 + 11
    if isinstance(a, frozenset): return sum(_h(x) for x in a) + 5
    r = 17
    for x in a: r = r * 31 + _h(x)
    return r

# ---------------------------------------------------------------- domains
INTS = [0, 1, -1, 2, 3, 4, -3, 7]
SMALL = [0, 1, -1, 2]
def domain(sort, ints=None):
    ints = ints or INTS
    if sort == "Int": return list(ints)
    if sort == "Bool": return [False, True]
    if sort[0] == "MLList":
        el = domain(sort[1], [1, 0, -2, 3])
        el = el[:4]
        out = [()]
        out += [(a,) for a in el]
        out += [(a, b) for a in el for b in el]
        if sort[1] == "Int": out += [(1, -2, 3), (0, 0, 1), (3, 1, 1), (-2, -2, 1)]
        return out
    if sort[0] == "Tuple":
        ds = [domain(s, SMALL)[:4] for s in sort[1:]]
        return [Tup(x) for x in itertools.islice(itertools.product(*ds), 200)]
    if sort[0] == "Set":
        el = domain(sort[1], [0, 1, 2])[:3]
        return [frozenset(c) for n in range(len(el) + 1) for c in itertools.combinations(el, n)]
    raise SmtError("no domain for %r" % (sort,))

def literals(p):
    """Numerals reachable from the goals: their neighbourhoods join the domain."""
    out, seen, todo = set(), set(), list(p.asserts)
    while todo:
        e = todo.pop()
        if isinstance(e, str):
            if _isnum(e): out.add(int(e))
            elif e in p.funs and e not in seen:
                seen.add(e)
                if p.funs[e].body is not None: todo.append(p.funs[e].body)
        else: todo.extend(e)
    return out

def assignments(consts, limit=2500, hints=(), seed=0, lits=()):
    """Deterministic assignment stream over the declared constants (name order)."""
    names = sorted(consts)
    big = sorted({x + d for x in sorted(lits)[-4:] for d in (-1, 0, 1) if 4 < x + d < 5000})
    doms = [domain(consts[n], INTS + big) if consts[n] == "Int" else domain(consts[n]) for n in names]
    hr = random.Random(seed * 31 + 7)
    for h in hints:
        miss = [n for n in names if not (n in h and _fits(h[n], consts[n]))]
        for k in range(1 if not miss or len(hints) > 100 else 4):
            yield names, tuple(doms[i][0 if k == 0 else hr.randrange(len(doms[i]))] if n in miss else h[n] for i, n in enumerate(names))
    size = 1
    for d in doms: size *= len(d)
    if size <= limit:
        for t in itertools.product(*doms): yield names, t
        return
    rng = random.Random(seed * 7919 + len(names))
    for _ in range(limit):
        yield names, tuple(d[rng.randrange(len(d))] for d in doms)
def _fits(v, sort):
    if sort == "Int": return type(v) is int
    if sort == "Bool": return type(v) is bool
    if sort[0] == "MLList": return type(v) is tuple and all(_fits(x, sort[1]) for x in v)
    if sort[0] == "Tuple": return isinstance(v, Tup) and len(v) == len(sort) - 1
    if sort[0] == "Set": return isinstance(v, frozenset)
    return False

class Verdict:
    def __init__(self, answer, model=None, error=None, evals=0, skipped=0):
        self.answer, self.model, self.error, self.evals, self.skipped = answer, model, error, evals, skipped
        self.because = None       # a false assumption the answer rests on

# ------------------------------------------------------------- assumed sentences
ASSUMED = {}    # text of a sentence and of what it speaks about -> falsifying values or None
def reach(p, e, seen=None):
    """The defined functions a term speaks about."""
    seen = {} if seen is None else seen
    todo = [e]
    while todo:
        x = todo.pop()
        if isinstance(x, str):
            f = p.funs.get(x)
            if f is not None and x not in seen:
                seen[x] = f
                if f.body is not None: todo.append(f.body)
        else: todo.extend(x)
    return seen
def refuted(p, a, limit=3000):
    """Values at which the assumed sentence a (forall ...) is false, whatever a list holds
    beyond its end and whatever the functions without a definition are; None if none is known."""
    global UNSPEC
    if not (isinstance(a, list) and a and a[0] == "forall"): return None
    used = reach(p, a)
    key = sexp.show(a) + "".join("%s%r%s" % (n, f.params, sexp.show(f.body) if f.body is not None else "") for n, f in sorted(used.items()))
    if key in ASSUMED: return ASSUMED[key]
    names = [v for v, _ in a[1]]
    sorts = [p._sort(t) for _, t in a[1]]
    doms = [SHAPES.get(str(t)) or domain(t) + ([(-99,), (-70, -80)] if t == ("MLList", "Int") else []) for t in sorts]
    size = 1
    for d in doms: size *= len(d)
    if size <= limit: pts = list(itertools.product(*doms))
    else:
        rng = random.Random(11)
        pts = [tuple(d[rng.randrange(len(d))] for d in doms) for _ in range(limit)]
    body = a[2]
    if isinstance(body, list) and body and body[0] == "!": body = body[1]
    keep, bad = UNSPEC, None
    try:
        for u in (77, 0, -50):
            UNSPEC = u
            for salt in ((0, 1, 2) if any(f.body is None for f in used.values()) else (0,)):
                f = Compiled(p, {}, lambda n, fn, s=salt: default_uninterp(n, fn, s)).term(body, names)
                bad = None
                for t in pts:
                    try:
                        if _truth(f(*t)) is False: bad = dict(zip(names, t)); break
                    except (EvalError, RecursionError): continue
                if bad is None: break
            if bad is None: break
    except SortError: bad = None
    finally: UNSPEC = keep
    ASSUMED[key] = bad
    return bad

def verify(text, hints=(), limit=2500, seed=0, strong=False):
    """Honest verdict on a verification query: unsat / sat / error.
    strong: the answer of a solver that finds every contradiction among the assumptions."""
    if strong:
        try: p = Problem(text)
        except SmtError: p = None
        if p is not None:
            for a in p.asserts:
                if _quantified(a):
                    b = refuted(p, a)
                    if b is not None:
                        v = Verdict("unsat"); v.because = (a, b); return v
    try:
        p = Problem(text)
        if not p.check: raise SmtError("no check-sat")
        goals = [a for a in p.asserts if not _quantified(a)]
        c = Compiled(p, {})
        names = sorted(p.consts)
        split = [_conjuncts(g) for g in goals]
        fns = [[c.term(x, names) for x in g] for g in split]
    except SmtError as e:
        return Verdict("error", error=str(e))
    except (RecursionError, SyntaxError, MemoryError) as e:
        return Verdict("error", error="too complex: %s" % type(e).__name__)
    n = skipped = 0
    uninterp = [f for f in p.funs.values() if f.body is None]
    comps = [fns]
    if uninterp:
        for salt in (1, 2):
            c2 = Compiled(p, {}, lambda nm, f, s=salt: default_uninterp(nm, f, s))
            comps.append([[c2.term(x, names) for x in g] for g in split])
    for names_, t in assignments(p.consts, limit, hints, seed, literals(p)):
        for fns in comps:
            n += 1
            try:
                r = _all_goals(fns, t)
                if r is True: return Verdict("sat", dict(zip(names, t)), evals=n, skipped=skipped)
                if r is None: skipped += 1
            except SortError as e:
                return Verdict("error", error="ill-sorted: %s" % e, evals=n)
    return Verdict("unsat", evals=n, skipped=skipped)

def _conjuncts(g):
    """Parts of a goal (not (and ...)): each negated conjunct; any one true suffices."""
    if isinstance(g, list) and g and g[0] == "not":
        out, todo = [], [g[1]]
        while todo:
            e = todo.pop(0)
            if isinstance(e, list) and e and e[0] == "and": todo = e[1:] + todo
            else: out.append(["not", e])
        return out or [g]
    return [g]
def _all_goals(goals, t):
    """True: all goals hold (a definite value of one part decides a goal);
    None: an undefined operation leaves it open."""
    res = True
    for parts in goals:
        v = False
        for f in parts:
            try:
                if _truth(f(*t)): v = True; break
            except (EvalError, RecursionError): v = None
        if v is False: return False
        if v is None: res = None
    return res
def _quantified(e):
    if isinstance(e, str): return False
    return bool(e) and (e[0] in ("forall", "exists") or any(_quantified(x) for x in e))

def functions(text):
    """The defined functions of a query as Python callables (for comparison)."""
    p = Problem(text)
    c = Compiled(p, {})
    return p, {n: c.ns[c.names[n]] for n in p.order}

def preload(assumed=False):
    """Reads the shipped theory once, before the runs fork."""
    import os
    d = os.path.join(os.environ.get("VERIF_REPO") or "/repo", "metalift", "utils")
    try:
        text = ""
        for n in ("tuples.smt", "integer-fn-axioms.smt", "list-axioms.smt"):
            with open(os.path.join(d, n)) as f: text += f.read() + "\n"
        p = Problem(text)
        if assumed:
            for a in p.asserts:
                if _quantified(a): refuted(p, a)
    except (OSError, SmtError, SortError): pass
preload()
