"""What utils.rkt says: a small Racket interpreter for the library that metalift writes
beside every program.  A function whose text means something else than the native
reading in rkt.LIB is replaced by its text; one that is gone is unbound."""
import itertools
from . import sexp
from .values import EvalError, SortError

class Lib:
    def __init__(self): self.over, self.missing, self.error = {}, set(), None
MEMO = {}
FUEL = [0]
INTS = [-1, 0, 1, 2, 3, 5]
LISTS = [(), (4,), (1, -2), (3, 0, 7)]
MATS = [(), ((1,),), ((3, -2), (1, 0)), ((5,), (0,), (7,)), ((0, 1, 4), (1, -1, 2))]
T3 = [(), (((1,),),), (((3, -2), (1, 0)), ((1, 1),)), (((5,),), ((0,),), ((7,),))]
SETS = [(), (1,), (1, 2), (0, 2, 5), (2, 3, 4)]
KINDS = {"i": INTS, "L": LISTS, "M": MATS, "T": T3, "S": SETS, "v": [0, 2, 3], "r": [(4,), (1, 2)], "m": [((4,),), ((1, 2), (0, 0))], "t": [(1, 2), (3, 0, 7)], "n": [0, 1, 3, 9]}
SIGS = {"list-ref-noerr": "Li", "list-tail-noerr": "Li", "list-take-noerr": "Li", "list-append": "Lv", "list-empty": "", "list-prepend": "vL", "list-concat": "LL",
 "vec-slice-noerr": "Lii", "vec-slice-with-length-noerr": "Lin", "make-tuple": "vv", "tupleGet": "ti", "set-singleton": "v", "set-create": "", "set-eq": "SS", "set-union": "SS",
 "set-member": "vS", "set-insert": "vS", "set-subset": "SS", "set-minus": "SS", "matrix-ref-noerr": "Mi", "matrix-tail-noerr": "Mi", "matrix-take-noerr": "Mi", "matrix-length": "M",
 "matrix-prepend": "rM", "matrix-append": "Mr", "matrix-empty": "", "matrix-row-slice-noerr": "Mii", "matrix-row-slice-with-length-noerr": "Min", "matrix-col-slice-noerr": "Mii",
 "matrix-col-slice-with-length-noerr": "Min", "matrix-transpose-noerr": "M", "firsts": "M", "rests": "M", "integer-sqrt-noerr": "n", "integer-exp-noerr": "n", "quotient-noerr": "ii",
 "tensor3d-length": "T", "tensor3d-ref-noerr": "Ti", "tensor3d-tail-noerr": "Ti", "tensor3d-take-noerr": "Ti", "tensor3d-empty": "", "tensor3d-append": "Tm", "tensor3d-prepend": "mT"}

def _need(c, msg):
    if not c: raise EvalError(msg)
def _set(l, i, v): _need(0 <= i < len(l), "list-set"); return l[:i] + (v,) + l[i + 1:]
def _ref(l, i): _need(type(l) is tuple and type(i) is int and 0 <= i < len(l), "list-ref"); return l[i]
def _tail(l, i): _need(0 <= i <= len(l), "list-tail"); return l[i:]
def _take(l, i): _need(0 <= i <= len(l), "take"); return l[:i]
def _quot(a, b):
    _need(b != 0, "quotient"); q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
def _rem(a, b):
    _need(b != 0, "remainder"); r = abs(a) % abs(b); return r if a >= 0 else -r
def _eq(a, b): return type(a) is type(b) and a == b
def _len(l): _need(type(l) is tuple, "length"); return len(l)
def _append(*a):
    _need(all(type(x) is tuple for x in a[:-1]), "append")
    out = ()
    for x in a: out = out + (x if type(x) is tuple else (x,))
    return out
PRIM = {"+": lambda *a: sum(a), "-": lambda a, *b: a - sum(b) if b else -a, "*": lambda a, b: a * b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "=": _eq,
 "equal?": _eq, "eq?": _eq, "length": _len, "list-ref": _ref, "list-tail": _tail, "take": _take, "drop": _tail, "append": _append, "list": lambda *a: tuple(a), "cons": lambda a, b: (a,) + b,
 "car": lambda l: _ref(l, 0), "first": lambda l: _ref(l, 0), "cdr": lambda l: _tail(l, 1), "rest": lambda l: _tail(l, 1), "null?": lambda l: l == (), "empty?": lambda l: l == (), "list?": lambda l: type(l) is tuple, "list-set": _set, "quotient": _quot, "remainder": _rem,
 "modulo": lambda a, b: a % b, "ormap": lambda f, l: any(f(x) for x in l), "andmap": lambda f, l: all(f(x) for x in l), "map": lambda f, l: tuple(f(x) for x in l), "filter": lambda f, l: tuple(x for x in l if f(x)),
 "not": lambda x: x is False, "!": lambda x: x is False, "min": min, "max": max, "abs": abs, "sub1": lambda x: x - 1, "add1": lambda x: x + 1, "reverse": lambda l: l[::-1],
 "member": lambda v, l: v in l, "remove-duplicates": lambda l: tuple(dict.fromkeys(l)), "sort": lambda l, f: tuple(sorted(l))}

def _match(pat, v, env):
    if isinstance(pat, str):
        if pat == "_": return True
        if pat.lstrip("-").isdigit(): return v == int(pat)
        env[pat] = v; return True
    _need(pat and pat[0] == "list", "pattern")
    ps = pat[1:]
    if ps and ps[-1] == "...":
        if type(v) is not tuple or len(v) < len(ps) - 2: return False
        for p, x in zip(ps[:-2], v):
            if not _match(p, x, env): return False
        env[ps[-2]] = v[len(ps) - 2:]; return True
    return type(v) is tuple and len(v) == len(ps) and all(_match(p, x, env) for p, x in zip(ps, v))

class Interp:
    def __init__(self, forms):
        self.defs = {}
        for f in forms:
            if isinstance(f, list) and f and f[0] in ("define", "define-bounded") and isinstance(f[1], list):
                if f[1][0] in self.defs: raise SortError("module: identifier already defined: %s" % f[1][0])
                self.defs[f[1][0]] = (f[1][1:], f[2:])
    def call(self, name, args):
        FUEL[0] -= 1
        if FUEL[0] < 0: raise EvalError("fuel")
        ps, body = self.defs[name]
        if "." in ps:
            k = ps.index(".")
            _need(len(args) >= k, "arity")
            env = dict(zip(ps[:k], args)); env[ps[k + 1]] = tuple(args[k:])
        else:
            if len(ps) != len(args): raise EvalError("arity mismatch")
            env = dict(zip(ps, args))
        r = None
        for b in body: r = self.ev(b, env)
        return r
    def fn(self, name):
        def f(*a):
            FUEL[0] = 4000
            return self.call(name, a)
        return f
    def ev(self, e, env):
        if isinstance(e, str):
            if e in env: return env[e]
            if e in ("#t", "true"): return True
            if e in ("#f", "false"): return False
            if e.lstrip("-").isdigit(): return int(e)
            if e in self.defs: return lambda *a: self.call(e, a)
            if e in PRIM: return PRIM[e]
            raise EvalError("unbound " + e)
        h = e[0] if e else None
        if isinstance(h, str) and h not in env:
            if h == "if": return self.ev(e[2] if self.ev(e[1], env) is not False else e[3], env)
            if h in ("&&", "and"):
                r = True
                for x in e[1:]:
                    r = self.ev(x, env)
                    if r is False: return False
                return r
            if h in ("||", "or"):
                for x in e[1:]:
                    r = self.ev(x, env)
                    if r is not False: return r
                return False
            if h == "cond":
                for c in e[1:]:
                    if c[0] == "else" or self.ev(c[0], env) is not False: return self.ev(c[-1], env)
                return None
            if h in ("let", "let*"):
                inner = dict(env)
                for n, x in e[1]: inner[n] = self.ev(x, inner if h == "let*" else env)
                return self.ev(e[-1], inner)
            if h == "lambda": return lambda *a: self.ev(e[-1], {**env, **dict(zip(e[1], a))})
            if h in ("match*", "match"):
                vs = [self.ev(x, env) for x in e[1]] if h == "match*" else [self.ev(e[1], env)]
                for cl in e[2:]:
                    pats = cl[0] if h == "match*" else [cl[0]]
                    inner = dict(env)
                    if all(_match(p, v, inner) for p, v in zip(pats, vs)): return self.ev(cl[-1], inner)
                raise EvalError("match")
            if h == "assert": return None
        f = self.ev(h, env)
        return f(*[self.ev(x, env) for x in e[1:]])

def load(text, lib):
    """lib: the native readings."""
    if text in MEMO: return MEMO[text]
    L = Lib()
    try:
        forms = sexp.parse(text.replace("#:", ""))
        it = Interp(forms)
    except (sexp.SexpError, SortError) as e:
        L.error = str(e); MEMO[text] = L; return L
    for name, sig in SIGS.items():
        if name not in it.defs: L.missing.add(name); continue
        f = it.fn(name); g = lib[name]
        for a in itertools.product(*[KINDS[k] for k in sig]):
            try: want = g(*a)
            except EvalError: continue
            try: got = f(*a)
            except (EvalError, RecursionError, TypeError, IndexError, ValueError): got = EvalError
            if type(got) is not type(want) or got != want:
                def h(*x, f=f):
                    try: return f(*x)
                    except (TypeError, IndexError, ValueError, RecursionError) as ex: raise EvalError(str(ex))
                L.over[name] = h; break
    MEMO[text] = L
    return L
