"""Reference semantics of IR expressions over native Python values.

Partial operations outside their domain raise EvalError (the point is skipped).
Independent of every printer of the repository.
"""
from .values import Tup, EvalError, SortError

def _int(x):
    if type(x) is not int: raise SortError("int expected: %r" % (x,))
    return x
def _bool(x):
    if type(x) is not bool: raise SortError("bool expected: %r" % (x,))
    return x
def _idx(l, i):
    if type(l) is not tuple: raise SortError("list expected: %r" % (l,))
    if not 0 <= _int(i) < len(l): raise EvalError("index")
    return l[i]
def _rng(l, i):
    if type(l) is not tuple: raise SortError("list expected: %r" % (l,))
    if not 0 <= _int(i) <= len(l): raise EvalError("range")
    return i

def _tget(t, i):
    if not isinstance(t, Tup): raise SortError("tuple expected: %r" % (t,))
    return t[i]
CALLS = {
 "list_get": _idx, "list_length": lambda l: len(l), "list_empty": lambda: (),
 "list_append": lambda l, x: l + (x,), "list_prepend": lambda x, l: (x,) + l,
 "list_tail": lambda l, i: l[_rng(l, i):], "list_take": lambda l, i: l[:_rng(l, i)],
 "list_concat": lambda a, b: a + b, "list_eq": lambda a, b: a == b,
 "make-tuple": lambda *a: Tup(a), "tupleGet": _tget,
 "vec_slice": lambda l, a, b: l[_rng(l, a):_rng(l, b)] if a <= b else (_ for _ in ()).throw(EvalError("slice")),
 "integer_abs": abs,
 "matrix_get": _idx, "matrix_length": lambda l: len(l), "matrix_empty": lambda: (), "matrix_append": lambda l, x: l + (x,),
}
for _n in range(1, 21): CALLS["tuple%d" % _n] = lambda *a: Tup(a)

class Interp:
    """Evaluates expressions given a set of definitions (name -> decl)."""
    def __init__(self, decls, extra=None, fuel=200000):
        self.d = {f.args[0]: f for f in decls}
        self.x = dict(CALLS)
        if extra: self.x.update(extra)
        self.fuel0 = fuel
    def call(self, name, args):
        self.fuel = self.fuel0
        return self._call(name, list(args), 0)
    def expr(self, e, env):
        self.fuel = self.fuel0
        return self.ev(e, env, 0)
    def _call(self, name, args, d):
        if d > 220: raise EvalError("depth")
        f = self.d.get(name)
        if f is not None and f.args[1] is not None and not isinstance(f.args[1], str):
            ps = f.args[2:]
            if len(ps) != len(args): raise SortError("arity of %s" % name)
            return self.ev(f.args[1], {p.args[0]: a for p, a in zip(ps, args)}, d + 1)
        if name in self.x: return self.x[name](*args)
        raise SortError("unknown function %s" % name)
    def ev(self, e, env, d):
        self.fuel -= 1
        if self.fuel < 0: raise EvalError("fuel")
        k = type(e).__name__
        if not hasattr(e, "args") and hasattr(e, "src"): return self.ev(e.src, env, d)
        a = e.args
        ev = lambda x: self.ev(x, env, d)
        if k in ("Var", "NonTerm"):
            if a[0] in env: return env[a[0]]
            if a[0] in self.d or a[0] in self.x: return ("fn", a[0])
            raise SortError("unbound %s" % a[0])
        if k == "Lit": return a[0]
        if k == "Add": return sum(_int(ev(x)) for x in a)
        if k == "Sub":
            if len(a) == 1: return -_int(ev(a[0]))
            r = _int(ev(a[0]))
            for x in a[1:]: r -= _int(ev(x))
            return r
        if k == "Mul":
            r = 1
            for x in a: r *= _int(ev(x))
            if abs(r) > 10**40: raise EvalError("big")
            return r
        if k in ("Div", "Mod"):
            x, y = _int(ev(a[0])), _int(ev(a[1]))
            if y <= 0 or x < 0: raise EvalError("division outside the common domain")
            return x // y if k == "Div" else x % y
        if k == "Eq":
            x, y = ev(a[0]), ev(a[1])
            return type(x) is type(y) and x == y
        if k in ("Lt", "Le", "Gt", "Ge"):
            x, y = _int(ev(a[0])), _int(ev(a[1]))
            return {"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[k]
        if k == "And": return all(_bool(ev(x)) for x in a)
        if k == "Or": return any(_bool(ev(x)) for x in a)
        if k == "Not": return not _bool(ev(a[0]))
        if k == "Implies": return (not _bool(ev(a[0]))) or _bool(ev(a[1]))
        if k == "Ite": return ev(a[1]) if _bool(ev(a[0])) else ev(a[2])
        if k == "Let":
            env2 = dict(env); env2[a[0].args[0]] = ev(a[1])
            return self.ev(a[2], env2, d)
        if k == "TupleExpr": return Tup(ev(x) for x in a)
        if k == "TupleGet": return _tget(ev(a[0]), a[1].args[0])
        if k in ("Call", "TargetCall"):
            n = a[0]
            if n in env and isinstance(env[n], tuple) and env[n] and env[n][0] == "fn": n = env[n][1]
            return self._call(n, [ev(x) for x in a[1:]], d)
        if k == "CallValue":
            f = ev(a[0])
            if isinstance(f, tuple) and f and f[0] == "fn": return self._call(f[1], [ev(x) for x in a[1:]], d)
            if callable(f): return f(*[ev(x) for x in a[1:]])
            raise SortError("not a function")
        if k == "Lambda":
            ps = [p.args[0] for p in a[1:]]
            return lambda *v: self.ev(a[0], {**env, **dict(zip(ps, v))}, d + 1)
        raise SortError("no semantics for %s" % k)
