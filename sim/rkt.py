"""The simulated Racket/Rosette process.

It reads the generated .rkt program, checks it the way Racket's expander would
(unbound identifiers, arity of grammar calls), expands the candidate grammars,
searches them against the program's own assertions, and executes the publishing
part of the program (with-output-to-file, print-forms, ...) step by step on the
virtual clock, with Racket's port buffering.
"""
import itertools, os, random
from . import sexp, rktlib
from .values import EvalError, SortError, same
from .osim import real_open, real, exists_real
from .smt import _h

class RktError(Exception):
    """A Racket error: message on stderr, exit status 1."""

def _i(*xs):
    for x in xs:
        if type(x) is not int: raise SortError("integer expected: %r" % (x,))
def _l(x):
    if type(x) is not tuple: raise SortError("list expected: %r" % (x,))
    return x
def _b(x):
    if type(x) is not bool: raise SortError("boolean expected: %r" % (x,))
    return x
def add(*a): _i(*a); return sum(a)
def sub(*a):
    _i(*a)
    if len(a) == 1: return -a[0]
    r = a[0]
    for x in a[1:]: r -= x
    return r
def mul(*a):
    _i(*a); r = 1
    for x in a: r *= x
    if abs(r) > 10**30: raise EvalError("big")
    return r
def quot(x, y):
    _i(x, y)
    if y == 0: y = 1
    q = abs(x) // abs(y)
    return q if (x < 0) == (y < 0) else -q
def rem(x, y):
    _i(x, y)
    if y == 0: raise EvalError("remainder by zero")
    r = abs(x) % abs(y)
    return r if x >= 0 else -r
def ref(l, i, d=0):
    _l(l); _i(i)
    return l[i] if 0 <= i < len(l) else d
def tailn(l, i):
    _l(l); _i(i)
    return l[i:] if 0 <= i <= len(l) else ()
def taken(l, i):
    _l(l); _i(i)
    return () if i <= 0 else l[:i]
def strict_take(l, n):
    _l(l); _i(n)
    if not 0 <= n <= len(l): raise EvalError("take: out of range")
    return l[:n]
def lt(*a): _i(*a); return all(x < y for x, y in zip(a, a[1:]))
def le(*a): _i(*a); return all(x <= y for x, y in zip(a, a[1:]))
def gt(*a): _i(*a); return all(x > y for x, y in zip(a, a[1:]))
def ge(*a): _i(*a); return all(x >= y for x, y in zip(a, a[1:]))
def equal(a, b):
    return type(a) is type(b) and a == b
def s_union(a, b): return tuple(sorted(set(_l(a)) | set(_l(b))))
def s_minus(a, b): return tuple(x for x in _l(a) if x not in _l(b))
def mprep(i, l): return (i,) + _l(l) if type(i) is tuple and len(i) > 0 else _l(l)
def iexp(n):
    r = 1
    for _ in range(max(0, n)): r = rem(3 * r, 64)
    return r
def firsts(m): return tuple(ref(r, 0) for r in m)
def rests(m): return () if len(m) < 1 else mcol(m, 1, len(m[0]))
def mcol(m, s, e):
    out = ()
    for r in reversed(_l(m)): out = mprep(tailn(taken(r, e), s), out)
    return out
def transpose(m):
    if len(m) < 1: return ()
    if len(m) > 60: raise EvalError("fuel")
    return mprep(firsts(m), transpose(rests(m)))

LIB = {
 "+": add, "-": sub, "*": mul, "quotient-noerr": quot, "quotient": quot, "remainder": rem, "modulo": lambda a, b: a % b,
 "<": lt, "<=": le, ">": gt, ">=": ge, "=": equal, "equal?": equal, "eq?": equal,
 "!": lambda x: not _b(x), "not": lambda x: not _b(x), "abs": lambda x: abs(x),
 "max": lambda *a: max(a), "min": lambda *a: min(a),
 "length": lambda l: len(_l(l)), "list-ref-noerr": ref, "list-tail-noerr": tailn, "list-take-noerr": taken,
 "list-append": lambda l, i: _l(l) + (i,), "list-empty": lambda: (), "list-prepend": lambda i, l: (i,) + _l(l),
 "list-concat": lambda a, b: _l(a) + _l(b), "append": lambda a, b: _l(a) + _l(b), "list": lambda *a: tuple(a), "take": strict_take,
 "vec-slice-noerr": lambda l, s, e: tailn(taken(l, e), s), "vec-slice-with-length-noerr": lambda l, s, n: tailn(taken(l, s + n), s),
 "make-tuple": lambda *a: tuple(a), "tupleGet": ref,
 "set-singleton": lambda v: (v,), "set-create": lambda: (), "set-eq": equal, "set-union": s_union, "set-member": lambda v, s: v in s,
 "set-insert": lambda v, s: s_union((v,), s), "set-subset": lambda a, b: set(a) <= set(b), "set-minus": s_minus,
 "sort": lambda l, f=None: tuple(sorted(l)), "remove-duplicates": lambda l: tuple(dict.fromkeys(l)),
 "matrix-ref-noerr": lambda l, i: ref(l, i, ()), "matrix-tail-noerr": tailn, "matrix-take-noerr": taken, "matrix-length": lambda l: len(_l(l)),
 "matrix-prepend": mprep, "matrix-append": lambda l, i: _l(l) + (i,), "matrix-empty": lambda: (),
 "matrix-row-slice-noerr": lambda l, s, e: tailn(taken(l, e), s), "matrix-row-slice-with-length-noerr": lambda l, s, n: tailn(taken(l, s + n), s),
 "matrix-col-slice-noerr": mcol, "matrix-col-slice-with-length-noerr": lambda m, s, n: mcol(m, s, s + n),
 "matrix-transpose-noerr": transpose, "firsts": firsts, "rests": rests,
 "integer-sqrt-noerr": lambda n: n, "integer-exp-noerr": iexp,
 "tensor3d-length": lambda l: len(_l(l)), "tensor3d-ref-noerr": lambda l, i: ref(l, i, ()), "tensor3d-tail-noerr": tailn, "tensor3d-take-noerr": taken,
 "tensor3d-empty": lambda: (), "tensor3d-append": lambda l, i: _l(l) + (i,), "tensor3d-prepend": mprep,
}
SPECIAL = {"if", "let", "let*", "&&", "||", "and", "or", "=>", "lambda", "choose", "true", "false", "#t", "#f"}

def isnum(s): return s.isdigit() or (len(s) > 1 and s[0] == "-" and s[1:].isdigit())

class Grammar:
    def __init__(self, name, params, prods):
        self.name, self.params, self.prods = name, params, prods   # prods: name -> [alternatives]
        self.first = next(iter(prods))

class Expansion:
    """One way through a grammar: the body, and whether any real choice was made."""
    def __init__(self, body, printed, real): self.body, self.printed, self.real = body, printed, real

def expand(g, chooser, depth=0):
    """chooser(n) -> index.  Returns (expression, number of real choices, all-zero flag)."""
    st = {"real": 0}
    def ex(e, d):
        if d > 60: raise RktError("grammar too deep")
        if isinstance(e, str): return e, True
        if not e: return e, True
        if len(e) == 1 and isinstance(e[0], str) and e[0] in g.prods:
            body, z = alt(g.prods[e[0]], d + 1)
            return _Hole(body, e[0], z), z
        if e[0] == "choose":
            return alt(e[1:], d + 1)
        out, z = [], True
        for x in e:
            y, zz = ex(x, d + 1)
            out.append(y); z = z and zz
        return out, z
    def alt(alts, d):
        i = 0
        if len(alts) > 1:
            st["real"] += 1
            i = chooser(len(alts))
        b, z = ex(alts[i], d)
        return b, z and i == 0
    body, z = alt(g.prods[g.first], 0)
    return body, st["real"], z

class _Hole:
    """An expanded non-terminal; may be printed as (vK) when all its choices are 0."""
    def __init__(self, body, nt, zero): self.body, self.nt, self.zero = body, nt, zero
def strip(e):
    if isinstance(e, _Hole): return strip(e.body)
    if isinstance(e, str): return e
    return [strip(x) for x in e]
def printed(e, rng):
    """Like strip, but leaves some all-default non-terminals unexpanded, as Rosette does."""
    if isinstance(e, _Hole):
        if e.zero and rng is not None and rng.random() < 0.25: return [e.nt]
        return printed(e.body, rng)
    if isinstance(e, str): return e
    return [printed(x, rng) for x in e]

class Program:
    def __init__(self, text, lib=None):
        self.lib = lib or rktlib.Lib()      # what utils.rkt says differently from LIB
        try: self.forms = sexp.parse(text)
        except sexp.SexpError as e: raise RktError("read-syntax: %s" % e)
        if self.forms[:2] != ["#lang", "rosette"]: raise RktError("missing #lang rosette")
        self.funs, self.grammars, self.synth = {}, {}, {}
        self.symbolics, self.derived, self.script = [], [], []
        self.uninterp = {}
        self.assertion = None
        self.line = {}
        self.names = {}
        n = 0
        for f in self.forms[2:]:
            n += 1
            if isinstance(f, str):
                self.script.append(f); continue
            h = f[0]
            if h in ("require", "current-solver", "current-bitwidth", "provide"): continue
            if h == "define-symbolic":
                if isinstance(f[-1], str):
                    for v in f[1:-1]: self._new(v); self.symbolics.append((v, f[-1]))
                else:
                    for v in f[1:-1]: self._new(v); self.uninterp[v] = f[-1]
                continue
            if h == "define-grammar":
                prods = {}
                for pr in f[2:]:
                    if len(pr) != 2 or pr[1][0] != "choose": raise RktError("define-grammar: bad syntax")
                    if pr[0] in prods: raise RktError("define-grammar: duplicate production")
                    prods[pr[0]] = pr[1][1:]
                self._new(f[1][0])
                self.grammars[f[1][0]] = Grammar(f[1][0], f[1][1:], prods); continue
            if h in ("define", "define-bounded"):
                if isinstance(f[1], list):
                    nm = f[1][0]
                    self._new(nm); self.line[nm] = n
                    body = f[2] if len(f) == 3 else None
                    if body is None: raise RktError("define: bad syntax in %s" % nm)
                    if nm == "assertions":
                        self.assertion = body[1] if body[0] == "assert" else body; continue
                    if isinstance(body, list) and body and isinstance(body[0], str) and body[0] in self.grammars and nm not in ("assertions",):
                        call = body[1:]
                        if "#:depth" in call: call = call[:call.index("#:depth")]
                        self.synth[nm] = (f[1][1:], body[0], call); continue
                    self.funs[nm] = (f[1][1:], body); continue
                if isinstance(f[2], list) and f[2] and f[2][0] in ("synthesize", "verify"):
                    self._new(f[1])
                    self.script.append(f); continue
                self._new(f[1])
                self.derived.append((f[1], f[2])); continue
            self.script.append(f)
        # nothing below depends on the order of declarations
        self.symbolics.sort()
        self.synth = {k: self.synth[k] for k in sorted(self.synth)}
        self._check_all()
    def _new(self, n):
        if n in self.names: raise RktError("module: identifier already defined: %s" % n)
        self.names[n] = True
    def _lib(self, n): return n in LIB and n not in self.lib.missing
    def _check_all(self):
        glob = set(self.funs) | set(self.synth) | set(self.uninterp)
        top = {v for v, _ in self.symbolics} | {d for d, _ in self.derived}
        for nm, (ps, body) in self.funs.items(): self._chk(body, set(ps) | top, glob, None)
        for g in self.grammars.values():
            for alts in g.prods.values():
                for a in alts: self._chk(a, set(g.params) | top, glob, g)
        for nm, (ps, g, call) in self.synth.items():
            if len(call) != len(self.grammars[g].params): raise RktError("%s: grammar arity mismatch" % nm)
        if self.assertion is not None: self._chk(self.assertion, top, glob, None)
        def evals(e):
            if isinstance(e, str): return
            if e and e[0] == "evaluate":
                self._chk(e[1], top, glob, None); return
            for x in e: evals(x)
        for f in self.script: evals(f)
    def _chk(self, e, scope, glob, g):
        if isinstance(e, str):
            if e in scope or e in glob or isnum(e) or e in SPECIAL or self._lib(e) or e.startswith('"'): return
            raise RktError("%s: unbound identifier" % e)
        if not e: raise RktError("#%app: missing procedure expression")
        h = e[0]
        if isinstance(h, str):
            if h in ("let", "let*"):
                sc = set(scope)
                for b in e[1]:
                    self._chk(b[1], sc if h == "let*" else scope, glob, g); sc.add(b[0])
                for x in e[2:]: self._chk(x, sc, glob, g)
                return
            if h == "lambda":
                for x in e[2:]: self._chk(x, set(scope) | set(e[1]), glob, g)
                return
            if g is not None and h in g.prods and len(e) == 1: return
            if h in SPECIAL or self._lib(h) or h in scope or h in glob: pass
            else: raise RktError("%s: unbound identifier" % h)
        else: self._chk(h, scope, glob, g)
        for x in e[1:]: self._chk(x, scope, glob, g)

class Evaluator:
    """Compiles expressions of a program to Python."""
    def __init__(self, prog):
        self.prog = prog
        self.ns = {"_b": _b, "__builtins__": {}}
        self.id = {}
        for k, f in LIB.items(): self.bind(k, f)
        for k, f in prog.lib.over.items(): self.bind(k, f)
        for k, sig in prog.uninterp.items(): self.bind(k, _uninterp(k, sig))
        self.syms = [v for v, _ in prog.symbolics]
        for nm, (ps, body) in prog.funs.items(): self.id.setdefault(nm, "f%d" % len(self.id))
        for nm in prog.synth: self.id.setdefault(nm, "f%d" % len(self.id))
        for nm, (ps, body) in prog.funs.items():
            self.ns[self.id[nm]] = self.lam(ps, body)
    def bind(self, k, fn):
        n = self.id.setdefault(k, "f%d" % len(self.id)); self.ns[n] = fn
    def lam(self, params, body):
        sc = {p: "p%d" % i for i, p in enumerate(params)}
        return eval("lambda %s: %s" % (", ".join(sc.values()), self.src(body, sc)), self.ns)
    def define(self, name, params, body): self.bind(name, self.lam(params, body))
    def src(self, e, sc):
        if isinstance(e, str):
            if e in sc: return sc[e]
            if e in ("true", "#t"): return "True"
            if e in ("false", "#f"): return "False"
            if isnum(e): return "(%s)" % e
            if e in self.id: return self.id[e]
            raise RktError("%s: unbound identifier" % e)
        h = e[0]
        r = lambda x: self.src(x, sc)
        if isinstance(h, str) and h not in sc:
            if h == "if":
                if len(e) != 4: raise RktError("if: bad syntax")
                return "(%s if _b(%s) else %s)" % (r(e[2]), r(e[1]), r(e[3]))
            if h in ("&&", "and"): return "(" + (" and ".join("_b(%s)" % r(x) for x in e[1:]) or "True") + ")"
            if h in ("||", "or"): return "(" + (" or ".join("_b(%s)" % r(x) for x in e[1:]) or "False") + ")"
            if h == "=>": return "((not _b(%s)) or _b(%s))" % (r(e[1]), r(e[2]))
            if h in ("let", "let*"):
                if h == "let*" and len(e[1]) > 1: return r(["let", [e[1][0]], ["let*", e[1][1:], e[2]]])
                inner = dict(sc); ps = []; vs = []
                for b in e[1]:
                    n = "l%d" % (len(inner) + 1000); vs.append(r(b[1])); ps.append(n); inner[b[0]] = n
                return "(lambda %s: %s)(%s)" % (", ".join(ps), self.src(e[2], inner), ", ".join(vs))
            if h == "lambda":
                inner = dict(sc); ps = []
                for p in e[1]:
                    n = "l%d" % (len(inner) + 1000); ps.append(n); inner[p] = n
                return "(lambda %s: %s)" % (", ".join(ps), self.src(e[2], inner))
        return "%s(%s)" % (r(h), ", ".join(r(x) for x in e[1:]))

def _uninterp(name, sig):
    ret = [x for x in sig if x != "~>"][-1]
    seed = sum(ord(c) * (i + 7) for i, c in enumerate(name))
    def f(*a):
        h = seed
        for x in a: h = (h * 1000003 + _h(x)) & 0x7fffffff
        return bool(h >> 3 & 1) if ret == "boolean?" else h % 7 - 2
    return f

INT_POOL = [0, 1, 2, -1, 3, 5, -2, 4]
def hinted(symbolics, env):
    """Values of the symbolics that give the variables the values of env, or None."""
    out = []
    slots = {}
    for v, _ in symbolics:
        if "_BOUNDEDSET-" in v and not v.endswith("-len"): slots[v.split("_BOUNDEDSET-")[0]] = slots.get(v.split("_BOUNDEDSET-")[0], 0) + 1
    for v, t in symbolics:
        if "_BOUNDEDSET-" not in v:
            x = env.get(v, 0 if t != "boolean?" else False)
            if isinstance(x, tuple): return None
            out.append(x); continue
        base, i = v.split("_BOUNDEDSET-")
        l = env.get(base, ())
        n = slots.get(base, 0)
        mat = bool(l) and isinstance(l[0], tuple)
        bound = 2 if n >= 2 else n
        if mat and (n != bound * bound or any(len(r) != bound for r in l)): return None
        if len(l) > bound: return None
        if i == "len": out.append(len(l))
        elif mat: k = int(i); out.append(l[k // bound][k % bound] if k // bound < len(l) else 0)
        else: out.append(l[int(i)] if int(i) < len(l) else 0)
        if isinstance(out[-1], tuple): return None
    return tuple(out)

def pool(prog, ev, rng, size=220, span=len(INT_POOL), hints=()):
    """Assignments to symbolics and derived variables (tuples in a fixed order)."""
    names = [v for v, _ in prog.symbolics]
    order = names + [d for d, _ in prog.derived]
    der = []
    known = list(names)
    for d, ex in prog.derived:
        der.append(ev.lam(known, ex)); known.append(d)
    out, seen = [], set()
    tries = 0
    small = [INT_POOL[i] for i in range(max(1, span))]
    # exhaustive when tiny, sampled otherwise
    def dom(v, t):
        if t == "boolean?": return [False, True]
        if v.endswith("-len"): return [0, 1, 2, 3]
        return small
    doms = [dom(v, t) for v, t in prog.symbolics]
    total = 1
    for d in doms:
        total *= len(d)
        if total > 4 * size: break
    if total <= 2 * size:
        it = itertools.product(*doms)
    else:
        it = (tuple(d[rng.randrange(len(d))] for d in doms) for _ in range(6 * size))
    first = [t for t in (hinted(prog.symbolics, h) for h in hints) if t is not None]
    size += len(first)
    for t in itertools.chain(first, it):
        try:
            vals = list(t)
            for fn in der: vals.append(fn(*vals))
        except (EvalError, SortError): continue
        t = tuple(vals)
        if t in seen: continue
        seen.add(t); out.append(t)
        if len(out) >= size and total > 2 * size: break
    return order, out

class Candidate:
    def __init__(self, bodies, prints, vecs): self.bodies, self.prints, self.vecs = bodies, prints, vecs   # name -> sexp (None printed: no choice)
    def key(self): return tuple(sorted((k, sexp.show(v)) for k, v in self.bodies.items()))

class Solver:
    """Candidate enumeration and search for one program."""
    def __init__(self, prog, rng, cap=600, hints=()):
        self.prog, self.rng = prog, rng
        self.ev = Evaluator(prog)
        self.order, self.pool = pool(prog, self.ev, rng, size=70 if hints else 220, hints=hints)
        self.names = list(prog.synth)
        self.cands = {}
        for nm in self.names:
            self.cands[nm] = self._enum(nm, cap)
    def _one(self, nm, vec, rng=None):
        params, gname, call = self.prog.synth[nm]
        g = self.prog.grammars[gname]
        used = []
        it = iter(vec)
        def ch(n):
            v = next(it, 0) % n if rng is None else rng.randrange(n)
            used.append((v, n)); return v
        body, real, z = expand(g, ch)
        sub = dict(zip(g.params, call))
        plain = strip(body)
        plain = _subst(plain, sub)
        return dict(vec=used, body=plain, raw=body, sub=sub, real=real, nm=nm, params=params)
    def _enum(self, nm, cap):
        out, keys = [], set()
        vec = []
        for _ in range(cap):
            c = self._one(nm, vec)
            k = sexp.show(c["body"])
            if k not in keys: keys.add(k); out.append(c)
            u = c["vec"]
            i = len(u) - 1
            while i >= 0 and u[i][0] + 1 >= u[i][1]: i -= 1
            if i < 0: return out
            vec = [x for x, _ in u[:i]] + [u[i][0] + 1]
        for _ in range(cap // 2):    # too many: add random ones
            c = self._one(nm, [], self.rng)
            k = sexp.show(c["body"])
            if k not in keys: keys.add(k); out.append(c)
        return out
    def fn(self, c):
        if "fn" not in c: c["fn"] = self.ev.lam(c["params"], c["body"])
        return c["fn"]
    def install(self, combo):
        for c in combo: self.ev.bind(c["nm"], self.fn(c))
    def assertion(self):
        if not hasattr(self, "_as"):
            self._as = self.ev.lam(self.order, self.prog.assertion)
        return self._as
    def holds(self, combo, pts):
        """True, or the first failing point."""
        self.install(combo)
        a = self.assertion()
        for t in pts:
            try:
                if a(*t) is not True: return t
            except (EvalError, RecursionError): return t
        return True
    def search(self, excluded, pts=None, budget=60000, order=None):
        """CEGIS-like search; excluded: list of predicates on combos."""
        pts = self.pool if pts is None else pts
        cex = []
        doms = [self.cands[n] for n in self.names]
        n = 0
        for combo in itertools.product(*doms):
            n += 1
            if n > budget: return None
            if cex and self.holds(combo, cex) is not True: continue
            if any(x(combo) for x in excluded): continue
            r = self.holds(combo, pts)
            if r is True: return combo
            cex = [r] + [c for c in cex if c != r][:7]
        return None
    def random_combo(self, rng, excluded=()):
        for _ in range(30):
            combo = tuple(self.cands[n][rng.randrange(len(self.cands[n]))] for n in self.names)
            if not any(x(combo) for x in excluded): return combo
        return None

def _subst(e, m):
    if isinstance(e, str): return m.get(e, e)
    return [_subst(x, m) for x in e]

def pretty(e, width, indent=0):
    """Racket-like pretty printing: breaks lines, indenting with spaces."""
    flat = sexp.show(e)
    if isinstance(e, str) or len(flat) + indent <= width or len(e) < 2: return flat
    pad = "\n" + " " * (indent + 1)
    if e[0] == "define":
        return "(define " + pretty(e[1], width, indent + 8) + "".join("\n" + " " * (indent + 2) + pretty(x, width, indent + 2) for x in e[2:]) + ")"
    return "(" + pretty(e[0], width, indent + 1) + "".join(pad + pretty(x, width, indent + 1) for x in e[1:]) + ")"

def forms_text(prog, path, combo, rng, width=79, holes=True, quote="'"):
    out = []
    for c in combo:
        if c["real"] == 0: continue
        body = _subst(printed(c["raw"], rng if holes else None), c["sub"])
        d = ["define", [c["nm"]] + list(c["params"]), body]
        out.append("%s:%d:0\n" % (os.path.abspath(path), prog.line.get(c["nm"], 1)))
        out.append(quote + pretty(d, width, 1) + "\n")
    return out

class Sol:
    def __init__(self, combo): self.combo = combo

class Plan:
    """How this racket process behaves; filled in by a scenario."""
    startup = 300
    def __init__(self): 
        self.rounds = []      # per round: dict(kind, think, open_delay, mid_delay, close_delay)
        self.crash = None     # (round, stage, code)
        self.flood = {}       # stage -> (stream, bytes)
        self.block = 4096
        self.width = 79
        self.quote = "'"
        self.holes = True
        self.exit_code = 0
        self.linger = 0
        self.default = dict(kind="honest", think=500, open=0, mid=0, close=0)
    def round(self, i): return self.rounds[i] if i < len(self.rounds) else self.default

def racket_process(world, proc, path, plan, rng, observer=None, reads=()):
    """Generator of process actions executing the program at `path`."""
    obs = observer or (lambda *a: None)
    yield ("sleep", plan.startup)
    if plan.crash and plan.crash[:2] == (-1, "start"):
        yield ("exit", plan.crash[2])
    def fail(msg):
        return [("err", msg + "\n"), ("exit", 1)]
    tools = None
    try:
        with real_open(path) as f: text = f.read()
        d = os.path.dirname(path)
        for lib in ("utils.rkt", "bounded.rkt"):
            if '"./%s"' % lib in text:
                t = real_open(os.path.join(d, lib)).read()
                if "#lang rosette" not in t: raise RktError("default-load-handler: expected a module in %s" % lib)
                sexp.parse(t.replace("#:", "").replace("\\n", ""))
                if lib == "utils.rkt":
                    tools = rktlib.load(t, LIB)
                    if tools.error: raise RktError("utils.rkt: %s" % tools.error)
        prog = Program(text, tools)
        solver = None
    except (RktError, OSError, sexp.SexpError) as e:
        obs("load-error", str(e))
        for a in fail("%s" % e): yield a
        return
    if "start" in plan.flood: yield plan.flood["start"]
    env = {}
    st = {"round": 0}
    def get_solver():
        nonlocal solver
        if solver is None: solver = Solver(prog, rng, hints=getattr(plan, "hints", ()))
        return solver
    def excl_from(guar):
        """Predicates for (assume (|| (! (eq? call (evaluate call solK))) ...))."""
        preds = []
        def walk(e):
            if isinstance(e, str): return
            if e and e[0] == "assume":
                pairs = []
                collect(e, pairs)
                if pairs:
                    preds.append(lambda combo, pairs=pairs: not any(_differs(combo, env[s].combo, f) for f, s in pairs if env.get(s) is not None and env[s].combo is not None))
                elif _never(e[1]):
                    preds.append(lambda combo: True)
                return
            for x in e: walk(x)
        def collect(e, pairs):
            if isinstance(e, str): return
            if e and e[0] == "evaluate": pairs.append((e[1][0], e[2])); return
            for x in e: collect(x, pairs)
        walk(guar)
        return preds
    def _never(e): return e == ["||"]
    def _differs(combo, prev, f):
        s = get_solver()
        a = next((c for c in combo if c["nm"] == f), None); b = next((c for c in prev if c["nm"] == f), None)
        if a is None or b is None: return False
        return sexp.show(a["body"]) != sexp.show(b["body"])
    def has_assertions(e):
        if isinstance(e, str): return False
        if e and e[0] == "assertions": return True
        return any(has_assertions(x) for x in e)
    def run(e, port):
        """Executes one script form; port collects output chunks."""
        if isinstance(e, str):
            if e in env and env[e] is not None:
                v = env[e]
                if isinstance(v, str): port.write(v + "\n")
                return v
            if e.startswith('"'): return e[1:-1].encode().decode("unicode_escape")
            if e in ("#t", "true"): return True
            if e in ("#f", "false"): return False
            return e
            yield
        h = e[0]
        if h == "begin":
            v = None
            for x in e[1:]: v = yield from run(x, port)
            return v
        if h in ("when", "unless"):
            c = yield from run(e[1], port)
            v = None
            if bool(c) == (h == "when"):
                for x in e[2:]: v = yield from run(x, port)
            return v
        if h == "if":
            c = yield from run(e[1], port)
            return (yield from run(e[2] if c else e[3], port))
        if h == "sat?":
            s = env.get(e[1])
            if s is None: raise RktError("%s: undefined" % e[1])
            return s.combo is not None
        if h == "unsat?":
            return env[e[1]].combo is None
        if h == "~a":
            v = yield from run(e[1], port)
            return "#t" if v is True else "#f" if v is False else str(v)
        if h in ("printf", "display", "displayln"):
            v = yield from run(e[1], port)
            v = "#t" if v is True else "#f" if v is False else str(v)
            yield from port.write(v + ("\n" if h == "displayln" else "")); return None
        if h == "newline":
            yield from port.write("\n"); return None
        if h == "print-forms":
            s = env.get(e[1])
            if s.combo is None: raise RktError("print-forms: contract violation expected: sat?")
            for chunk in s.text: yield from port.write(chunk)
            return None
        if h == "with-output-to-file":
            tgt = yield from run(e[1], port)
            mode = "error"
            if "#:exists" in e: mode = e[e.index("#:exists") + 1]
            fp = os.path.join(os.getcwd(), tgt)
            r = plan.round(st["round"] - 1)
            if exists_real(fp) and mode == "error": raise RktError("with-output-to-file: file exists %s" % tgt)
            p = FilePort(world, fp, plan.block, r, mode)
            obs("open", tgt)
            yield ("sleep", r.get("open", 0))
            if plan.crash and plan.crash[:2] == (st["round"] - 1, "open"): yield ("exit", plan.crash[2])
            thunk = e[-1]
            try:
                for x in thunk[2:]: yield from run(x, p)
                if plan.crash and plan.crash[:2] == (st["round"] - 1, "mid"): yield ("exit", plan.crash[2])
                yield ("sleep", r.get("close", 0))
            except RktError:
                p.close(); raise
            p.close()
            obs("close", tgt)
            return None
        if h == "rename-file-or-directory":
            a = yield from run(e[1], port); b = yield from run(e[2], port)
            ok = len(e) > 3 and (yield from run(e[3], port)) is True
            A, B = os.path.join(os.getcwd(), a), os.path.join(os.getcwd(), b)
            if exists_real(B) and not ok: raise RktError("rename-file-or-directory: exists")
            try: real("replace")(A, B)
            except OSError as ex: raise RktError("rename-file-or-directory: %s" % ex)
            obs("rename", b)
            return None
        if h == "delete-file":
            a = yield from run(e[1], port)
            try: real("unlink")(os.path.join(os.getcwd(), a))
            except OSError as ex: raise RktError("delete-file: %s" % ex)
            return None
        if h in ("flush-output",): return None
        if h == "synthesize":
            i = st["round"]; st["round"] += 1
            r = plan.round(i)
            yield ("sleep", r.get("think", 0))
            if plan.crash and plan.crash[:2] == (i, "think"): yield ("exit", plan.crash[2])
            guar = e[e.index("#:guarantee") + 1]
            s = get_solver()
            ex = excl_from(guar)
            kind = r["kind"]
            if kind == "unsat": combo = None
            elif not has_assertions(guar): combo = s.random_combo(rng, ex)
            elif kind == "honest": combo = s.search(ex)
            elif kind == "bounded": combo = s.search(ex, s.pool[: r.get("span", 6)]) 
            elif kind == "wrong": combo = s.random_combo(rng, ex)
            elif callable(kind): combo = kind(s, ex)
            else: raise RktError("plan " + str(kind))
            sol = Sol(combo)
            sol.text = forms_text(prog, path, combo, rng, plan.width, plan.holes, plan.quote) if combo is not None else []
            obs("solved", i, combo, s)
            return sol
        if h == "verify":
            yield ("sleep", plan.round(0).get("think", 0))
            s = get_solver()
            goal = e[1]
            fn = s.ev.lam(s.order, goal[1]) if goal[0] == "assert" else s.assertion()
            bad = None
            for t in s.pool:
                try:
                    if fn(*t) is not True: bad = t; break
                except (EvalError, RecursionError): bad = t; break
            obs("verified", bad, s.order)
            return "(unsat)" if bad is None else "(model\n" + "".join(" [%s %s]\n" % (n, v) for n, v in zip(s.order, bad)) + ")"
        if h == "define":
            env[e[1]] = yield from run(e[2], port)
            return None
        raise RktError("%s: unsupported form" % (h,))
    out = StdPort()
    try:
        for f in prog.script:
            v = yield from run(f, out)
            if isinstance(v, bool): yield from out.write("#t\n" if v else "#f\n")
            elif isinstance(v, str) and v.startswith("("): yield from out.write(v + "\n")
            if "after%d" % st["round"] in plan.flood:
                yield plan.flood.pop("after%d" % st["round"])
    except RktError as e:
        obs("error", str(e))
        for a in fail(str(e)): yield a
        return
    except SortError as e:
        obs("error", "contract violation: %s" % e)
        for a in fail("contract violation"): yield a
        return
    if "end" in plan.flood: yield plan.flood["end"]
    yield ("sleep", plan.linger)
    obs("exit", plan.exit_code)
    yield ("exit", plan.exit_code)

class StdPort:
    def write(self, s):
        yield ("out", s)
class FilePort:
    """Racket file port: block buffered; blocks become visible one by one."""
    def __init__(self, world, path, block, r, mode):
        self.w, self.path, self.block, self.r = world, path, block, r
        self.buf = b""
        self.f = real_open(path, "ab" if mode == "append" else "wb", 0)
    def write(self, s):
        self.buf += s.encode()
        while len(self.buf) >= self.block:
            self.f.write(self.buf[:self.block]); self.buf = self.buf[self.block:]
            yield ("sleep", self.r.get("mid", 0))
    def close(self):
        try:
            if self.buf: self.f.write(self.buf)
        finally: self.f.close()

def _preload():
    try:
        with real_open(os.path.join(os.environ.get("VERIF_REPO") or "/repo", "metalift", "utils", "utils.rkt")) as f: rktlib.load(f.read(), LIB)
    except OSError: pass
_preload()
