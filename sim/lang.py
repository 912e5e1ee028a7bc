"""Source programs for the lifting scenarios: a small statement language with a
Python printer, a symbolic executor and mutations.

The symbolic executor turns any program into an equivalent expression over its
parameters; a loop becomes a recursive target function over the variables in
scope.  That gives, for every generated program, a summary and invariants that
are correct by construction, and, for every mutated variant of it, a summary and
invariants that satisfy all proof obligations except those about the mutated
place - so a lost or weakened obligation shows up as an accepted wrong summary.

Expressions are tuples: ("v",n) ("c",k) ("+"|"-"|"*",a,b) ("neg",a) ("len",l)
("get",l,i) ("empty",) ("app",l,x) ("ite",c,a,b) ("call",f,args...)
Conditions: (op,a,b) with op < <= > >= ==, ("and"|"or",c,d), ("chain",op,op,a,b,c)
Statements: ("set",v,e) ("append",l,e) ("if",c,then,else) ("while",k,c,body) ("ret",e)
("else",stmts), only right after a loop: the loop's else block, which always runs as the language has no break
"""
import random
OPS = ["<", "<=", ">", ">=", "=="]

def ir():
    import metalift.ir as m
    return m

# ------------------------------------------------------------- printing
def pe(e):
    k = e[0]
    if k == "v": return e[1]
    if k == "c": return str(e[1]) if e[1] >= 0 else "(0 - %d)" % -e[1]
    if k == "//": return "(%s // %s)" % (pe(e[1]), pe(e[2]))
    if k == "%": return "(%s %% %s)" % (pe(e[1]), pe(e[2]))
    if k == "cmod": return "_cmod(%s, %s)" % (pe(e[1]), pe(e[2]))
    if k == "cdiv": return "_cdiv(%s, %s)" % (pe(e[1]), pe(e[2]))
    if k in "+-*": return "(%s %s %s)" % (pe(e[1]), k, pe(e[2]))
    if k == "neg": return "(-%s)" % pe(e[1])
    if k == "len": return "len(%s)" % pe(e[1])
    if k == "get": return "%s[%s]" % (pe(e[1]), pe(e[2]))
    if k == "empty": return "[]"
    raise ValueError(e)
def pc(c):
    if c[0] in ("and", "or"): return "(%s %s %s)" % (pc(c[1]), c[0], pc(c[2]))
    if c[0] == "chain": return "%s %s %s %s %s" % (pe(c[3]), c[1], pe(c[4]), c[2], pe(c[5]))
    return "%s %s %s" % (pe(c[1]), c[0], pe(c[2]))
def ps(stmts, ind, lists):
    out = []
    pad = "    " * ind
    for s in stmts:
        if s[0] == "set":
            ann = ": List[int]" if s[2] == ("empty",) else ""
            out.append("%s%s%s = %s" % (pad, s[1], ann, pe(s[2])))
        elif s[0] == "append": out.append("%s%s.append(%s)" % (pad, s[1], pe(s[2])))
        elif s[0] == "ret": out.append("%sreturn %s" % (pad, pe(s[1])))
        elif s[0] == "while":
            out.append("%swhile %s:" % (pad, pc(s[2]))); out += ps(s[3], ind + 1, lists)
        elif s[0] == "else": out.append("%selse:" % pad); out += ps(s[1], ind + 1, lists)
        elif s[0] == "if":
            out.append("%sif %s:" % (pad, pc(s[1]))); out += ps(s[2], ind + 1, lists)
            if s[3]:
                if len(s[3]) == 1 and s[3][0][0] == "if":
                    sub = ps(s[3], ind, lists); sub[0] = sub[0].replace("if", "elif", 1); out += sub
                else: out.append("%selse:" % pad); out += ps(s[3], ind + 1, lists)
    return out

# ------------------------------------------------------------- symbolic execution
def sub(e, env):
    k = e[0]
    if k == "v": return env[e[1]]
    if k in ("c", "empty"): return e
    return (k,) + tuple(sub(x, env) for x in e[1:])
def subc(c, env):
    if c[0] in ("and", "or"): return (c[0], subc(c[1], env), subc(c[2], env))
    if c[0] == "chain": return ("and", (c[1], sub(c[3], env), sub(c[4], env)), (c[2], sub(c[4], env), sub(c[5], env)))
    return (c[0], sub(c[1], env), sub(c[2], env))
class TooBig(Exception): pass
class Sym:
    """Summary and loop functions of one program."""
    def __init__(self, fun, body, tag):
        self.fun, self.tag = fun, tag
        self.fns = {}       # loop number -> (name, params, expr)
        self.now = {}       # loop number -> result of the whole program from the loop's head
        self.n = 0
        self.inside = False
        self.named = mentioned(body)
        env = {p: ("v", p) for p, _ in fun.params}
        self.summary = self.run(list(body), env, lambda env: ("c", 0))
    def fname(self, k): return "%s_%d_%s" % (self.fun.rname, k, self.tag)
    def run(self, st, env, k):
        self.n += 1
        if self.n > 150: raise TooBig()
        if not st: return k(env)
        s, rest = st[0], st[1:]
        if s[0] == "ret": return sub(s[1], env)
        if s[0] == "set": return self.run(rest, {**env, s[1]: sub(s[2], env)}, k)
        if s[0] == "append": return self.run(rest, {**env, s[1]: ("app", env[s[1]], sub(s[2], env))}, k)
        if s[0] == "else": return self.run(list(s[1]) + rest, env, k)
        if s[0] == "if":
            c = subc(s[1], env)
            return ("ite", c, self.run(list(s[2]) + rest, dict(env), k), self.run(list(s[3]) + rest, dict(env), k))
        if s[0] == "while" and self.inside:    # computes one variable; its counter is dead afterwards
            acc = list(written(s[3]) - {s[3][-1][1]})
            if len(acc) != 1: raise TooBig()
            acc = acc[0]
            scope = sorted(v for v in env if v in mentioned((s,)))
            f = lambda e: ("call", self.fname(s[1])) + tuple(e[v] for v in scope)
            if s[1] not in self.fns:
                ident = {v: ("v", v) for v in env}
                self.fns[s[1]] = (self.fname(s[1]), scope, ("ite", subc(s[2], ident), self.run(list(s[3]), dict(ident), f), ("v", acc)))
                self.now[s[1]] = self.run(rest, {**ident, acc: f(ident)}, k)
            return self.run(rest, {**env, acc: f(env)}, k)
        if s[0] == "while":
            dead = {x[3][-1][1] for b in [s[3]] for x in inner_loops(b)}
            scope = sorted(v for v in env if v in self.named and v not in dead)
            if s[1] not in self.fns:
                self.fns[s[1]] = None
                ident = {v: ("v", v) for v in scope}
                again = lambda e: ("call", self.fname(s[1])) + tuple(e[v] for v in scope)
                self.inside = True
                then = self.run(list(s[3]), {**ident, **{v: ("v", v) for v in dead}}, again)
                self.inside = False
                body = ("ite", subc(s[2], ident), then, self.run(rest, dict(ident), k))
                self.fns[s[1]] = (self.fname(s[1]), scope, body)
                self.now[s[1]] = again(ident)
            return ("call", self.fname(s[1])) + tuple(env[v] for v in scope)
        raise ValueError(s)

# ------------------------------------------------------------- to IR
def toir(e, env, ret):
    m = ir(); k = e[0]
    r = lambda x: toir(x, env, ret)
    if k == "v": return env[e[1]]
    if k == "c": return m.Int(e[1])
    if k == "+": return r(e[1]) + r(e[2])
    if k == "-": return r(e[1]) - r(e[2])
    if k == "*": return r(e[1]) * r(e[2])
    if k == "//": return r(e[1]) // r(e[2])
    if k == "%": return r(e[1]) % r(e[2])
    if k == "neg": return m.Int(0) - r(e[1])
    if k == "len": return r(e[1]).len()
    if k == "get": return r(e[1])[r(e[2])]
    if k == "empty": return m.List.empty(m.Int)
    if k == "app": return m.call("list_append", m.List[m.Int], r(e[1]), r(e[2]))
    if k == "ite": return m.ite(cir(e[1], env, ret), r(e[2]), r(e[3]))
    if k == "call": return m.call(e[1], ty(ret), *[r(x) for x in e[2:]])
    raise ValueError(e)
def cir(c, env, ret):
    m = ir()
    if c[0] in ("and", "or"): return m.Bool((m.And if c[0] == "and" else m.Or)(cir(c[1], env, ret).src, cir(c[2], env, ret).src))
    a, b = toir(c[1], env, ret), toir(c[2], env, ret)
    return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: (a == b).Not()}[c[0]]()
def ty(t):
    m = ir()
    return m.Int if t == "int" else m.List[m.Int]
def var(n, t):
    m = ir()
    return m.Int(n) if t == "int" else m.List(m.Int, n)

# ------------------------------------------------------------- programs
class Fun:
    """One source function with its correct summary and mutated variants."""
    def __init__(self, name, params, ret, locs, body, rng, muts=3, rname=None, extra=()):
        self.name, self.params, self.ret, self.locs, self.body = name, params, ret, locs, body
        self.rname = rname or "r" + name
        self.types = dict(params); self.types.update(locs)
        self.loops = loops_of(body)
        self.variants = [Sym(self, body, "0")]
        self.bodies = [body]
        seen = {self.variants[0].summary}
        pts = inputs(self, random.Random(3), 24)
        base = results(self, body, pts)
        likely = beliefs(body, {p for p, t in params if t == "list"}) + list(extra)
        self.beliefs = set()
        muts += len(likely)
        for t in range(len(likely) + muts * 6):
            if len(self.variants) > muts: break
            b = likely[t][1] if t < len(likely) else mutate(body, self, rng)
            if b is None or b in self.bodies: continue
            if not any(x is not None and y is not None and x != y for x, y in zip(base, results(self, b, pts))): continue
            try: s = Sym(self, b, str(len(self.variants)))
            except TooBig: continue
            if not self.loops and s.summary in seen: continue
            seen.add(s.summary)
            self.variants.append(s); self.bodies.append(b)
            if t < len(likely): self.beliefs.add(likely[t][0])
    def text(self):
        args = ", ".join("%s: %s" % (p, "int" if t == "int" else "List[int]") for p, t in self.params)
        return "def %s(%s) -> %s:\n%s\n" % (self.name, args, "int" if self.ret == "int" else "List[int]", "\n".join(ps(self.body, 1, None)))
    def writes(self, k):
        return sorted(written(next(b for kk, b in self.loops if kk == k)))
    def originals(self):
        """Names under which the initial parameter values can be read inside loops."""
        w = written(self.body)
        return {p: (p if p not in w else p + "0") for p, _ in self.params}
    def target(self):
        m = ir(); out = []
        for s in self.variants:
            for k, (n, ps_, e) in sorted(s.fns.items()):
                vs = {p: var(p, self.types[p]) for p in ps_}
                out.append(m.fn_decl_recursive(n, ty(self.ret), toir(e, vs, self.ret), *[vs[p] for p in ps_]))
        return out
    def inv_alts(self, env, names):
        """(variant, loop, Bool) for every loop whose variables are all available."""
        m = ir(); out = []
        orig = self.originals()
        for a, s in enumerate(self.variants):
            for k, (n, ps_, e) in sorted(s.fns.items()):
                need = mentioned(s.summary)
                if any(p not in env for p in vars_in(s.now[k])) or any(q not in env for p, q in orig.items() if p in need): continue
                if names is not None and sorted(names) != self.writes(k): continue
                now = toir(s.now[k], env, self.ret)
                start = toir(s.summary, {p: env[q] for p, q in orig.items() if q in env}, self.ret)
                out.append((a, k, m.Bool(m.Eq(now.src, start.src))))
        return out
    def ps_alts(self, env): return [toir(s.summary, env, self.ret) for s in self.variants]

def mentioned(x):
    """Variable names occurring in a statement list or expression."""
    if not isinstance(x, tuple) or not x: return set()
    out = set()
    if x[0] == "v" or x[0] == "set" or x[0] == "append": out.add(x[1])
    for y in x: out |= mentioned(y)
    return out
def vars_in(x):
    if not isinstance(x, tuple) or not x: return set()
    if x[0] == "v": return {x[1]}
    out = set()
    for y in x: out |= vars_in(y)
    return out
def inner_loops(b):
    out = []
    for s in b:
        if s[0] == "while": out += [s] + inner_loops(s[3])
        elif s[0] == "if": out += inner_loops(s[2]) + inner_loops(s[3])
    return out
def loops_of(b):
    out = []
    for s in b:
        if s[0] == "while": out.append((s[1], s[3])); out += loops_of(s[3])
        elif s[0] == "if": out += loops_of(s[2]) + loops_of(s[3])
    return out
def written(b):
    w = set()
    for s in b:
        if s[0] in ("set", "append"): w.add(s[1])
        elif s[0] == "if": w |= written(s[2]) | written(s[3])
        elif s[0] == "else": w |= written(s[1])
        elif s[0] == "while": w |= written(s[3])
    return w
def returns(b):
    """Does every path through b return?"""
    for s in b:
        if s[0] == "ret" or s[0] == "else" and returns(s[1]): return True
        if s[0] == "if" and returns(s[2]) and s[3] and returns(s[3]): return True
    return False

def beliefs(body, lists):
    """What the program would mean if some construct were misread everywhere in it."""
    def walk(b, f): return tuple(y for s in b for y in f(s))
    def chains(s, pick):
        def c(x): return (x[0], c(x[1]), c(x[2])) if x[0] in ("and", "or") else pick(x) if x[0] == "chain" else x
        g = lambda s: [("if", c(s[1]), walk(s[2], g), walk(s[3], g))] if s[0] == "if" else [("while", s[1], c(s[2]), walk(s[3], g))] if s[0] == "while" else [s]
        return g(s)
    def noelse(s):
        if s[0] == "else": return []
        return [("if", s[1], walk(s[2], noelse), walk(s[3], noelse))] if s[0] == "if" else [s]
    def noparam(s):
        if s[0] == "append" and s[1] in lists: return []
        if s[0] == "if": return [("if", s[1], walk(s[2], noparam), walk(s[3], noparam))]
        if s[0] == "while": return [("while", s[1], s[2], walk(s[3], noparam))]
        return [s]
    def merged(s, take, drop):
        # the list effects of one branch count whichever branch is taken
        if s[0] == "if" and not returns(s[2]) and not returns(s[3]):
            a = [x for x in s[take] if x[0] == "append"]
            keep = lambda b: tuple(x for x in b if x[0] != "append")
            return a + [("if", s[1], keep(s[2]), keep(s[3]))]
        if s[0] == "while": return [("while", s[1], s[2], walk(s[3], lambda x: merged(x, take, drop)))]
        return [s]
    out = [("loop-else", walk(body, noelse)),
           ("chain-zero", walk(body, lambda s: chains(s, lambda x: ("and", (x[1], x[3], x[4]), (x[2], x[3], x[5]))))),
           ("chain-last", walk(body, lambda s: chains(s, lambda x: (x[2], x[4], x[5])))),
           ("chain-first", walk(body, lambda s: chains(s, lambda x: (x[1], x[3], x[4])))),
           ("param-append", walk(body, noparam)),
           ("merge-then", walk(body, lambda s: merged(s, 2, 3))), ("merge-else", walk(body, lambda s: merged(s, 3, 2)))]
    return [x for x in out if x[1] != body]

def mutate(body, fun, rng):
    """One changed place; never the loop counters or loop conditions."""
    sites = []
    counters = {c for c in fun.types if c[:1] in "ij" and len(c) <= 2}
    def expr(e, put, t):
        if e[0] == "c": sites.append(lambda: put(("c", e[1] + rng.choice([1, -1, 2]))))
        elif e[0] == "v":
            alt = [n for n, tt in fun.types.items() if tt == t and n != e[1] and n in fun.safe]
            if alt: sites.append(lambda: put(("v", rng.choice(alt))))
            if t == "int": sites.append(lambda: put(("+", e, ("c", 1))))
        elif e[0] in "+-*":
            sites.append(lambda: put((rng.choice([o for o in "+-*" if o != e[0]]),) + e[1:]))
            for i in (1, 2): expr(e[i], lambda x, i=i: put(e[:i] + (x,) + e[i + 1:]), "int")
        elif e[0] in ("//", "%"):
            sites.append(lambda: put((e[0], e[1], ("c", e[2][1] + 1)))); sites.append(lambda: put(e[1])); expr(e[1], lambda x: put((e[0], x, e[2])), "int")
        elif e[0] == "neg": sites.append(lambda: put(e[1]))
        elif e[0] == "get": sites.append(lambda: put(("+", e, ("c", 1))))
        elif e[0] == "len": sites.append(lambda: put(("+", e, ("c", 1))))
    def cond(c, put):
        if c[0] in ("and", "or"):
            sites.append(lambda: put(({"and": "or", "or": "and"}[c[0]],) + c[1:])); sites.append(lambda: put(c[1])); sites.append(lambda: put(c[2]))
            cond(c[1], lambda x: put((c[0], x, c[2]))); cond(c[2], lambda x: put((c[0], c[1], x)))
        elif c[0] == "chain":
            sites.append(lambda: put((c[1], c[3], c[4]))); sites.append(lambda: put((c[2], c[4], c[5])))
        else:
            sites.append(lambda: put((rng.choice([o for o in OPS if o != c[0]]),) + c[1:]))
            for i in (1, 2): expr(c[i], lambda x, i=i: put(c[:i] + (x,) + c[i + 1:]), "int")
    def block(b, put):
        for i, s in enumerate(b):
            pt = lambda x, i=i: put(b[:i] + x + b[i + 1:])
            if s[0] in ("set", "append") and (s[1] in counters or s[1] in fun.keep): continue
            if s[0] == "set":
                expr(s[2], lambda x, s=s, pt=pt: pt((("set", s[1], x),)), fun.types[s[1]])
                if s[2] == ("empty",): pass
                elif s[1] in fun.set_before.get(id(b), ()): sites.append(lambda pt=pt: pt(()))
            elif s[0] == "append":
                expr(s[2], lambda x, s=s, pt=pt: pt((("append", s[1], x),)), "int")
                sites.append(lambda pt=pt: pt(())); sites.append(lambda pt=pt, s=s: pt((s, s)))
            elif s[0] == "ret":
                for _ in range(2): expr(s[1], lambda x, pt=pt: pt((("ret", x),)), fun.ret)
                if fun.ret == "int": sites.append(lambda pt=pt, s=s: pt((("ret", ("+", s[1], ("c", 1))),)))
            elif s[0] == "if":
                cond(s[1], lambda x, s=s, pt=pt: pt((("if", x, s[2], s[3]),)))
                if s[3]: sites.append(lambda pt=pt, s=s: pt((("if", s[1], s[3], s[2]),)))
                elif not returns(s[2]): sites.append(lambda pt=pt, s=s: pt(()))
                else: sites.append(lambda pt=pt: pt(()))
                block(s[2], lambda x, s=s, pt=pt: pt((("if", s[1], x, s[3]),)))
                block(s[3], lambda x, s=s, pt=pt: pt((("if", s[1], s[2], x),)))
            elif s[0] == "while":
                block(s[3], lambda x, s=s, pt=pt: pt((("while", s[1], s[2], x),)))
            elif s[0] == "else":
                sites.append(lambda pt=pt: pt(()))
                block(s[1], lambda x, pt=pt: pt((("else", x),) if x else ()))
    box = []
    block(body, box.append)
    if not sites: return None
    rng.choice(sites)()
    return box[-1]

class Gen:
    """Random programs."""
    ELSES = True
    def __init__(self, rng, name, rname, loops=1, listy=None, mutparam=True, prefix="", force=None, ret=None, alias=False, elses=1):
        self.elses = elses if self.ELSES else 0
        self.rng = r = rng
        self.loops = loops
        self.alias = alias
        ints = r.sample(["x", "y", "n", "a"], r.choice([1, 1, 2, 2, 3]))
        params = [(prefix + p, "int") for p in ints]
        listy = r.random() < 0.3 if listy is None else listy
        if listy: params.insert(r.randrange(len(params) + 1), (prefix + "l", "list"))
        if r.random() < 0.15 and len(params) > 1 and listy: params = [p for p in params if p[1] == "list"]
        if force is not None: params = list(force)
        self.ints = [p for p, t in params if t == "int"]
        self.lists = [p for p, t in params if t == "list"]
        self.ret = ret or ("list" if r.random() < 0.25 else "int")
        self.locs = {}
        body = []
        self.modp = None
        w = []
        if self.ints and mutparam and r.random() < 0.2:
            self.modp = r.choice(self.ints)
            self.locs[self.modp + "0"] = "int"; body.append(("set", self.modp + "0", ("v", self.modp)))
        for n in r.sample(["s", "t", "acc"], r.choice([0, 1, 1, 2]) if not loops else r.choice([1, 1, 2])):
            self.locs[n] = "int"; body.append(("set", n, self.expr(1)))
        if self.ret == "list" or r.random() < 0.1:
            self.locs["out"] = "list"; body.append(("set", "out", ("empty",)))
        self.k = 0
        self.counters = []
        for i in range(loops):
            c = "i" if not self.counters or r.random() < 0.5 else "j"
            if c not in self.counters:
                self.counters.append(c); self.locs[c] = "int"; body.append(("set", c, ("c", 0)))
        left = loops
        n = r.choice([1, 2, 3])
        plan = ["loop"] * loops + ["stmt"] * n
        r.shuffle(plan)
        for p in plan:
            if p == "loop":
                l = self.loop()
                if r.random() < 0.2:     # a loop in a branch
                    other = tuple(self.stmt(1, early=True) for _ in range(r.choice([0, 1])))
                    l = [("if", self.cond(), cut(tuple(l)), cut(other))] if r.random() < 0.6 else [("if", self.cond(), cut(other) or (self.stmt(0),), cut(tuple(l)))]
                body += l
            else: body.append(self.stmt(1, early=True))
        if alias:    # a second name for a list, one of the two modified
            src = r.choice([l for l in ["out"] * 2 + self.lists if l in self.locs or l in self.lists] or [None])
            if src:
                at = r.randrange(max(i for i, x in enumerate(body) if x == ("set", "out", ("empty",))) + 1 if src == "out" else 0, len(body) + 1)
                body.insert(at, ("set", "cp", ("v", src)))
                k = r.randrange(at + 1, len(body) + 1)
                app = ("append", r.choice(["cp", src]), self.expr(1))
                if r.random() < 0.5:    # once in a branch and once after it
                    body.insert(k, ("append", r.choice(["cp", src]), self.expr(0)))
                    body.insert(k, ("if", self.cond(), (app,), ()))
                else: body.insert(k, app if r.random() < 0.6 else ("if", self.cond(), (app,), ()))
                self.locs["cp"] = "list"
                body.append(("ret", r.choice([("v", "cp"), ("v", src)]) if self.ret == "list" else r.choice([("len", ("v", "cp")), ("len", ("v", src))])))
        body.append(("ret", self.retval()))
        self.body = tuple(body)
        self.params = params
    def mutable(self): return [n for n, t in self.locs.items() if t == "int" and n not in ("i", "j") and not (self.modp and n == self.modp + "0")] + ([self.modp] if self.modp else [])
    def names(self): return self.ints + [n for n, t in self.locs.items() if t == "int"]
    def expr(self, d, extra=()):
        r = self.rng; ns = self.names() + list(extra)
        x = r.random()
        if d == 0 or x < 0.25:
            if ns and r.random() < 0.75: return ("v", r.choice(ns))
            if self.lists and r.random() < 0.5: return ("len", ("v", r.choice(self.lists)))
            return ("c", r.randrange(0, 4))
        if x < 0.32: return ("neg", self.expr(d - 1, extra))
        if x < 0.36: return ("//", self.expr(0, extra), ("c", r.choice([2, 3])))
        if x < 0.44: return ("*", self.expr(0, extra), ("c", r.choice([2, 3])))
        a, b = self.expr(d - 1, extra), self.expr(d - 1, extra)
        for _ in range(3):
            if a != b: break
            b = self.expr(d - 1, extra)
        return (r.choice("+-"), a, b)
    def cond(self, d=1):
        r = self.rng; x = r.random()
        if d and x < 0.12: return (r.choice(["and", "or"]), self.cond(0), self.cond(0))
        if x < 0.22: return ("chain", r.choice(["<", "<="]), r.choice(["<", "<="]), self.expr(0), self.expr(0), self.expr(0))
        a, b = self.expr(0), self.expr(0)
        for _ in range(4):
            if a != b and not (a[0] == "c" and b[0] == "c"): break
            a, b = self.expr(0), self.expr(0)
        return (r.choice(OPS if r.random() < 0.4 else ["<", "<=", ">", ">="]), a, b)
    def retval(self):
        if self.ret == "list": return ("v", self.rng.choice(["out"] * 4 + self.lists))
        mu = self.mutable(); r = self.rng
        if "out" in self.locs and r.random() < 0.5: return ("len", ("v", "out"))
        if self.lists and r.random() < 0.2: return ("len", ("v", r.choice(self.lists)))
        if mu and r.random() < 0.8:
            v = ("v", r.choice(mu)); x = r.random()
            if x < 0.5: return v
            return (r.choice("+-"), v, self.expr(0)) if x < 0.8 or len(mu) < 2 else ("+", ("v", mu[0]), ("*", ("v", mu[1]), ("c", 2)))
        return self.expr(r.choice([0, 1, 2]))
    def stmt(self, d, early=False, inloop=None):
        r = self.rng; x = r.random()
        mu = self.mutable()
        el = [("get", ("v", l), ("v", c)) for l, c in ([inloop] if inloop else [])]
        if inloop and r.random() < 0.25: el = [("get", ("v", inloop[0]), ("-", ("-", ("len", ("v", inloop[0])), ("c", 1)), ("v", inloop[1])))]
        if not inloop and self.lists and mu and d and r.random() < 0.12:
            l = r.choice(self.lists); v = r.choice(mu)
            return ("if", (">", ("len", ("v", l)), ("c", 0)), (("set", v, r.choice([("get", ("v", l), ("c", 0)), ("+", ("v", v), ("get", ("v", l), ("-", ("len", ("v", l)), ("c", 1)))) ])),), cut(tuple(self.stmt(0) for _ in range(r.choice([0, 1])))))
        def val():
            if el and r.random() < 0.7: return (r.choice("+-"), self.expr(0), r.choice(el)) if r.random() < 0.5 else r.choice(el)
            return self.expr(1)
        if d and x < 0.45:
            then = tuple(self.stmt(d - 1, early, inloop) for _ in range(r.choice([1, 1, 2])))
            els = tuple(self.stmt(d - 1, early, inloop) for _ in range(r.choice([0, 1, 1])))
            c = self.cond()
            if el and r.random() < 0.5: c = (r.choice(["<", ">", "=="]), r.choice(el), self.expr(0))
            return ("if", c, cut(then), cut(els))
        if early and x < 0.6 and d == 0: return ("ret", self.retval())
        if "out" in self.locs and r.random() < 0.5: return ("append", "out", val())
        if not self.loops and self.lists and r.random() < 0.4: return ("append", r.choice(self.lists), val())
        if mu:
            t, v = r.choice(mu), val()
            if v == ("v", t) or inloop is not None and r.random() < 0.5: v = (r.choice("++-"), ("v", t), v if v != ("v", t) else ("c", 1))
            return ("set", t, v)
        if "out" in self.locs: return ("append", "out", val())
        n = "t"
        return ("if", self.cond(), (("ret", self.retval()),), ())
    def loop(self):
        r = self.rng
        c = r.choice(self.counters)
        used = [l for l in self.lists]
        over = r.choice(used) if used and r.random() < 0.7 else None
        bound = ("len", ("v", over)) if over else ("v", r.choice(self.ints)) if self.ints and r.random() < 0.8 else ("c", r.choice([2, 3]))
        if bound[0] == "v" and bound[1] == self.modp: bound = ("v", self.modp + "0")
        body = []
        for _ in range(r.choice([1, 1, 2])): body.append(self.stmt(1, early=r.random() < 0.35, inloop=(over, c) if over else ()))
        k = self.k; self.k += 1
        inc = ("set", c, ("+", ("v", c), ("c", 1)))
        out = [("while", k, ("<", ("v", c), bound), cut(tuple(body)) + (inc,))]
        if self.elses and r.random() < (0.6 if self.elses > 1 else 0.08): out.append(("else", cut((self.stmt(1, early=r.random() < 0.2), self.stmt(0))[:r.choice([1, 1, 2])])))
        if self.k > 1: out.insert(0, ("set", c, ("c", r.choice([0, 0, 1]))))
        return out

def cut(b):
    out = []
    for s in b:
        out.append(s)
        if returns((s,)): break
    return tuple(out)
def prune(b):
    """Drops unreachable statements."""
    out = []
    for s in b:
        if s[0] == "if": s = ("if", s[1], prune(s[2]), prune(s[3]))
        if s[0] == "while": s = ("while", s[1], s[2], prune(s[3]))
        if s[0] == "else": s = ("else", prune(s[1]))
        out.append(s)
        if returns((s,)): break
    return tuple(out)

def rename(x, m):
    if isinstance(x, tuple): return tuple(rename(y, m) if i or not isinstance(y, str) else y for i, y in enumerate(x))
    return m.get(x, x) if isinstance(x, str) else x
SWAPS = [{"out": "s", "s": "out"}, {"l": "x", "x": "l", "x0": "l0"}, {"out": "t", "t": "out"}, {"acc": "out", "out": "acc"}, {"l": "s", "s": "l"}]
def make(rng, name, rname, loops=1, muts=3, swap=False, want=None, gen=Gen, **kw):
    for n in range(1500 if want else 200):
        g = gen(rng, name, rname, loops, **kw)
        b = prune(g.body)
        if not returns(b): continue
        if kw.get("alias") and not any(s[:2] == ("set", "cp") for s in b): continue
        if swap and rng.random() < 0.3:
            m = rng.choice(SWAPS)
            b = rename(b, m)
            g.params = [(m.get(p, p), t) for p, t in g.params]; g.locs = {m.get(p, p): t for p, t in g.locs.items()}
            g.ints = [m.get(p, p) for p in g.ints]; g.lists = [m.get(p, p) for p in g.lists]; g.modp = m.get(g.modp, g.modp)
        try:
            f = build(name, g.params, g.ret, g.locs, b, rng, muts, rname, {g.modp + "0"} if g.modp else set())
        except (TooBig, KeyError, RecursionError):
            continue
        if len(f.variants) < 3: continue
        if want and n < 1200 and not want(f): continue
        return f
    raise ValueError("no program")

def build(name, params, ret, locs, body, rng, muts, rname, keep=(), extra=()):
    f = Fun.__new__(Fun)
    f.safe = (set(dict(params)) | set(locs)) - {w[3][-1][1] for _, b in loops_of(body) for w in inner_loops(b)}
    f.keep = set(keep)
    f.set_before = {}
    f.__init__(name, params, ret, locs, body, rng, muts, rname, extra)
    return f

# ------------------------------------------------------------- ground truth
class Diverges(Exception): pass
def instrument(fun, body=None):
    """The function as Python with loop-head observations: run(args) -> (value, [(loop, state)])."""
    def st(stmts, ind):
        out = []; pad = "    " * ind
        for s in stmts:
            if s[0] == "while":
                out.append("%swhile True:" % pad)
                out.append("%s    _see(%d, dict(locals()))" % (pad, s[1]))
                out.append("%s    if not (%s): break" % (pad, pc(s[2])))
                out += st(s[3], ind + 1)
            elif s[0] == "else": out += st(s[1], ind)
            elif s[0] == "if":
                out.append("%sif %s:" % (pad, pc(s[1]))); out += st(s[2], ind + 1) or ["%s    pass" % pad]
                if s[3]: out.append("%selse:" % pad); out += st(s[3], ind + 1)
            else: out += ps([s], ind, None)
        return out
    args = ", ".join(p for p, _ in fun.params)
    src = "def _f(%s):\n%s" % (args, "\n".join(st(fun.body if body is None else body, 1)))
    from typing import List
    log = []
    def see(k, env):
        if len(log) > 400: raise Diverges()
        log.append((k, {v: tuple(x) if isinstance(x, list) else x for v, x in env.items()}))
    ns = {"_see": see, "List": List, "len": len, "_cdiv": cdiv, "_cmod": cmod}
    exec(src, ns)
    def run(args):
        log.clear()
        v = ns["_f"](*[L(a) if isinstance(a, tuple) else a for a in args])
        return (tuple(v) if isinstance(v, list) else v), list(log)
    return run
def cdiv(a, b):
    """Where C's division is the one of the language."""
    if a < 0 or b <= 0: raise IndexError(a)
    return a // b
def cmod(a, b):
    cdiv(a, b)
    return a % b
def c_body(x):
    """The program with C's division."""
    if not isinstance(x, tuple): return x
    return tuple({"//": "cdiv", "%": "cmod"}[y] if i == 0 and y in ("//", "%") else c_body(y) for i, y in enumerate(x))
class L(list):
    """A list without Python's negative indices, which the language leaves undefined."""
    def __getitem__(self, i):
        if i < 0: raise IndexError(i)
        return list.__getitem__(self, i)
def truth(fun, body=None):
    """The printed source text, executed; None where it has no value."""
    from typing import List
    src = fun.text() if body is None else "def %s(%s):\n%s\n" % (fun.name, ", ".join(p for p, _ in fun.params), "\n".join(ps(body, 1, None)))
    ns = {"List": List}
    exec("from typing import List\n" + src, ns)
    f = ns[fun.name]
    def run(args):
        try: v = f(*[L(a) if isinstance(a, tuple) else a for a in args])
        except (IndexError, Diverges): return None
        return tuple(v) if isinstance(v, list) else v
    return run
def results(fun, body, pts):
    f = instrument(fun, body)
    out = []
    for p in pts:
        try: out.append(f(p)[0])
        except (IndexError, Diverges, NameError): out.append(None)
    return out
INTS = [0, 1, 2, 3, -1, 4, 5, -2, 7, 10, 6, -3, 12, 9]
LISTS = [(), (1,), (0, 2), (3, -1, 2), (1, 1, 1, 1), (5, 4, -3, 0, 2), (-2,), (2, 3)]
def inputs(fun, rng, n=40):
    out = []
    for i in range(n):
        out.append(tuple((INTS[i % len(INTS)] if j == 0 and i < 14 else rng.choice(INTS)) if t == "int" else LISTS[i % len(LISTS)] if i < 16 else tuple(rng.randrange(-3, 8) for _ in range(rng.randrange(0, 5))) for j, (p, t) in enumerate(fun.params)))
    return list(dict.fromkeys(out))
