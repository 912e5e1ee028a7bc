"""LLM-guided lifting in the simulator: compiled fixture programs, a scripted model
service behind the three client libraries, emulated verifiers whose samples are
steered along executions, and a native reading of every proposal."""
import errno, importlib, io, itertools, json, os, random, re, shutil, sys, types
from . import kernel, osim, smt, rkt, irsem, rig, cprogs, sexp, boot
from .kernel import World, SimHang, SimAbort, HarnessError
from .values import EvalError, SortError
from .cprogs import PROGS, PY, FIX

# ------------------------------------------------------------- client libraries
SERVER = None
class ApiError(Exception):
    """What the client libraries raise for overload, rate limits, lost connections."""
def NS(**k): return types.SimpleNamespace(**k)
def stubs():
    def serve(client, msgs): return SERVER.respond(client, msgs)
    def flat(c):
        if isinstance(c, str): return c
        if isinstance(c, (list, tuple)): return "".join(flat(x) for x in c)
        if isinstance(c, dict): return flat(c.get("text", ""))
        return str(c)
    class Claude:
        def __init__(self, *a, **k): self.messages = NS(create=self.create)
        def create(self, *, model, max_tokens, messages, system=None, temperature=None, **k):
            t = serve("claude", [(m["role"], flat(m["content"])) for m in messages])
            return NS(content=[] if t is None else [NS(type="text", text=t)], stop_reason="end_turn", role="assistant")
    class Gpt:
        def __init__(self, *a, **k): self.chat = NS(completions=NS(create=self.create))
        def create(self, *, model, messages, n=1, temperature=None, **k):
            t = serve("gpt", [(m["role"], flat(m["content"])) for m in messages if m["role"] != "system"])
            return NS(choices=[NS(index=0, finish_reason="stop", message=NS(role="assistant", content=t))])
    class Reply:
        def __init__(self, t): self._t = t; self.parts = [] if t is None else [NS(text=t)]; self.candidates = [NS(content=NS(parts=self.parts), finish_reason=1)] if t is not None else []
        @property
        def text(self):
            if self._t is None: raise ValueError("Invalid operation: the response has no valid Part (finish_reason SAFETY)")
            return self._t
    class Chat:
        def __init__(self, history): self.history = list(history or [])
        def send_message(self, content, **k):
            name = {"model": "assistant"}
            return Reply(serve("gemini", [(name.get(m["role"], m["role"]), flat(m["parts"])) for m in self.history] + [("user", flat(content))]))
    class Gemini:
        def __init__(self, model_name=None, generation_config=None, **k): pass
        def start_chat(self, history=None, **k): return Chat(history)
        def generate_content(self, contents, **k):
            name = {"model": "assistant"}
            if isinstance(contents, str): contents = [{"role": "user", "parts": contents}]
            return Reply(serve("gemini", [(name.get(m["role"], m["role"]), flat(m["parts"])) for m in contents]))
    def mod(name, **k):
        m = types.ModuleType(name); m.__dict__.update(k); sys.modules[name] = m; return m
    try: import google
    except ImportError: google = mod("google"); google.__path__ = []
    google.generativeai = mod("google.generativeai", GenerativeModel=Gemini, configure=lambda *a, **k: None)
    mod("anthropic", Anthropic=Claude, APIError=ApiError)
    mod("openai", OpenAI=Gpt, OpenAIError=ApiError)
    mod("dotenv", load_dotenv=lambda *a, **k: None)

# ------------------------------------------------------------- target functions
def ir():
    import metalift.ir as m
    return m
def shipped():
    from metalift.utils.tenspiler.constants import TENSPILER_FNS
    import metalift.utils.tenspiler.tenspiler_common as t
    more = [t.dissolve_matrix_selection_two_args_fn_decl, t.dissolve_selection_two_args_fn_decl]
    return {f.name(): f for f in more + TENSPILER_FNS}
def axioms():
    from metalift.utils.tenspiler.constants import TENSPILER_FN_NAME_TO_AXIOMS
    return TENSPILER_FN_NAME_TO_AXIOMS
def own_fn(name, variant=0):
    """Target functions written for the programs (and look-alikes of shipped ones)."""
    m = ir()
    n = m.Int("n"); x = m.List(m.Int, "x"); y = m.List(m.Int, "y")
    if name in ("tri", "upto"):
        step = n - 1 if (name == "tri") != bool(variant) else n
        return m.fn_decl_recursive(name, m.Int, m.ite(n < 1, m.Int(0), step + m.call(name, m.Int, n - 1)), n)
    if name == "reduce_sum":      # same name, other meaning: alternate sign
        return m.fn_decl_recursive(name, m.Int, m.ite(x.len() < 1, m.Int(0), x[0] - m.call(name, m.Int, x[1:])), x)
    if name == "vec_scalar_mul":  # same name, other parameter order
        a = m.Int("a")
        return m.fn_decl_recursive(name, m.List[m.Int], m.ite(x.len() < 1, m.List.empty(m.Int), m.call(name, m.List[m.Int], x[1:], a).prepend(a * x[0])), x, a)
    if name == "ite_int":         # same name, branches exchanged
        c, a, b = m.Bool("cond"), m.Int("int1"), m.Int("int2")
        return m.fn_decl(name, m.Int, m.ite(c, b, a), c, a, b)
    raise KeyError(name)
CHANGED = {"sum_sq": "reduce_sum", "blend": "vec_scalar_mul", "triangle": "tri", "vmax": "ite_int", "madd": "ite_int", "darken": "ite_int", "dissolve_blend_8": None}
MISSING = {"sum_sq": "vec_map", "blend": "vec_scalar_mul", "triangle": "upto", "vmax": "ite_int", "madd": "matrix_elemwise_add", "darken": "ite_int", "dissolve_blend_8": "ite_int"}
def dsl(prog, variant):
    """variant 0: all; 1: one function missing; 2: one function with another meaning or signature."""
    lib = shipped()
    out = []
    for n in prog.dsl:
        if variant == 1 and n == MISSING[prog.name]: continue
        if variant == 2 and n == CHANGED[prog.name]: out.append(own_fn(n, 1))
        elif n in prog.extra: out.append(own_fn(n))
        else: out.append(lib[n])
    return out

# ------------------------------------------------------------- native reading
class L(list):
    """A list that knows its bounds."""
    def __getitem__(self, i):
        if isinstance(i, slice):
            for b in (i.start, i.stop):
                if b is not None and (type(b) is not int or b < 0): raise EvalError("slice")
            return L(list.__getitem__(self, i))
        if type(i) is not int or not 0 <= i < len(self): raise EvalError("index")
        return list.__getitem__(self, i)
    def __add__(self, o): return L(list.__add__(self, o))
def to_l(v): return L(to_l(x) for x in v) if isinstance(v, tuple) else v
def from_l(v): return tuple(from_l(x) for x in v) if isinstance(v, list) else v
def native_dsl(decls):
    import typing
    ns = {"List": typing.List, "Callable": typing.Callable, "Any": typing.Any, "ite": lambda c, a, b: a if c else b}
    exec("\n\n".join(f.to_python() for f in decls), ns)
    return ns
def native_fns(code, decls):
    """The functions of a proposal as callables over tuples: name -> (parameter names, fn)."""
    ns = native_dsl(decls)
    had = set(ns)
    exec(code, ns)
    out = {}
    for k, f in ns.items():
        if k in had or not callable(f) or k.startswith("__") or not hasattr(f, "__code__"): continue
        def g(*a, f=f):
            try: return from_l(f(*[to_l(x) for x in a]))
            except (IndexError, RecursionError, ZeroDivisionError, TypeError, ValueError, NameError, AttributeError) as e: raise EvalError(str(e))
        out[k] = (f.__code__.co_varnames[:f.__code__.co_argcount], g)
    return out

# ------------------------------------------------------------- answers
class Answer:
    """One possible answer of the model: kind ps/inv, cls good/bad/odd."""
    def __init__(self, kind, cls, label, text, code=None, theory=None):
        self.kind, self.cls, self.label, self.text, self.code, self.theory = kind, cls, label, text, code, theory
    def render(self, n):
        if self.text is None: return None
        return self.text.replace("@N@", "attempt %d" % n)
def fence(code, lang="python"): return "```%s\n# @N@\n%s\n```" % (lang, code)
def sig(vs): return ", ".join("%s: %s" % (v, PY[t]) for v, t in vs)
def ps_code(prog, body, name=None, params=None):
    return "def %s(%s) -> %s:\n    return %s" % (name or prog.name, sig(params or prog.params), PY[prog.ret], body)
def inv_code(prog, bodies, names=None, rng=None):
    names = names or (["invariant1", "invariant2"] if prog.double else ["invariant"])
    out = []
    for k, b in enumerate(bodies):
        vs = [(v, prog.type(v)) for v in prog.inv_vars(k)]
        if rng: rng.shuffle(vs)
        out.append("def %s(%s) -> bool:\n    return %s" % (names[k], sig(vs), b))
    return "\n\n".join(out)
def answers(prog, rng):
    A = []
    def ps(cls, label, text, code=None, th=None): A.append(Answer("ps", cls, label, text, code, th))
    def inv(cls, label, text, code=None, th=None): A.append(Answer("inv", cls, label, text, code, th))
    wrong = [t for t in prog.theories if not t.right]; right = [t for t in prog.theories if t.right]
    brief = getattr(prog, "brief", False)
    for t in right[:3] + (wrong if brief else rng.sample(wrong, min(4, len(wrong)))):
        c = ps_code(prog, t.ps)
        ps("good", "theory%d" % prog.theories.index(t), "The function can be written as follows.\n\n" + fence(c) + "\n\nIt uses only the given functions.", c, t)
        for j, bodies in enumerate(t.invs if t.right else t.invs[:2]):
            c = inv_code(prog, bodies, rng=rng)
            inv("good", "theory%d.%d" % (prog.theories.index(t), j), fence(c), c, t)
    t = right[0]
    body = t.ps
    c = ps_code(prog, body)
    if brief:
        ps("bad", "prose", "I am sorry, but I cannot rewrite this function."); inv("bad", "none", None)
        for b in ("True", "False"): k = inv_code(prog, [b] * len(t.invs[0])); inv("odd", b.lower(), fence(k), k)
        w = ps_code(prog, {"int": "0"}.get(prog.ret, "base")); ps("odd", "constant", fence(w), w)
        return A
    # two statements, comments and documentation
    two = "def %s(%s) -> %s:\n    result = %s  # one statement\n    return result" % (prog.name, sig(prog.params), PY[prog.ret], body)
    ps("good", "assigned", fence(two), two, t)
    ps("odd", "blocks", fence(c) + "\n\nAlternatively:\n\n" + fence(ps_code(prog, wrong[0].ps)), None, t)
    ps("odd", "nolang", "```\n# @N@\n%s\n```" % c, c, t)
    ps("odd", "py", fence(c, "py"), c, t)
    ren = {"base": "a", "active": "b", "opacity": "c", "rand_cons": "d", "xs": "v9", "n": "m9"}
    order = [(ren[p], ty) for p, ty in prog.params]
    rb = re.sub(r"\b(%s)\b" % "|".join(ren), lambda m: ren[m.group(1)], body)
    rc = ps_code(prog, rb, params=order)
    ps("odd", "renamed", fence(rc), rc, t)
    if len(prog.params) > 1:
        sw = [prog.params[1], prog.params[0]] + prog.params[2:]
        rc = ps_code(prog, body, params=sw)
        ps("good", "reordered", fence(rc), rc, t)
    ps("bad", "prose", "I am sorry, but I cannot rewrite this function.")
    ps("bad", "none", None); ps("bad", "empty", "")
    ps("bad", "unclosed", "```python\n# @N@\n%s" % c[: len(c) // 2])
    ps("bad", "syntax", fence(c.replace("return", "retrun")))
    ps("bad", "othername", fence(ps_code(prog, body, name="rewritten")))
    ps("bad", "psname", fence(ps_code(prog, body, name="steps_of_it")))
    ps("bad", "two", fence(c + "\n\ndef helper(q: int) -> int:\n    return q"))
    ps("bad", "unknown", fence(ps_code(prog, "magic(%s)" % ", ".join(p for p, _ in prog.params))))
    ps("bad", "method", fence(ps_code(prog, "%s.copy()" % prog.params[0][0])))
    ps("bad", "untyped", fence("def %s(%s):\n    return %s" % (prog.name, ", ".join(p for p, _ in prog.params), body)))
    ps("bad", "loop", fence("def %s(%s) -> %s:\n    for k in range(3):\n        pass\n    return %s" % (prog.name, sig(prog.params), PY[prog.ret], body)))
    if prog.ret != "int": ps("bad", "comprehension", fence(ps_code(prog, "[q for q in %s]" % prog.params[0][0])))
    if prog.ret == "list":
        w = "[0, 0]"; ps("odd", "literal", fence(ps_code(prog, w)), ps_code(prog, w))
        w = "vec_elemwise_add(%s, [1])" % prog.params[0][0]
        if "vec_elemwise_add" in prog.dsl: ps("odd", "literal-arg", fence(ps_code(prog, w)), ps_code(prog, w))
    first, ty = prog.params[0]
    zero = {"int": "0", "list": "base[:0]", "mat": "base[:0]"}[prog.ret]
    cond = "%s < 1" % (first if ty == "int" else "len(%s)" % first)
    w = "ite(%s, %s, %s)" % (cond, zero, body); ps("odd", "ite-commas", fence(ps_code(prog, w)), ps_code(prog, w), t)
    w = "ite(%s, ite(%s, %s, %s), %s)" % (cond, cond, zero, first if prog.ret != "int" else "1", body); ps("odd", "ite-nested", fence(ps_code(prog, w)), ps_code(prog, w), t)
    u = wrong[0]
    w = "%s if True else %s" % (u.ps, body); ps("odd", "constant", fence(ps_code(prog, w)), ps_code(prog, w), t)
    for u in rng.sample(wrong, min(3, len(wrong))):
        w = ps_code(prog, re.sub(r"\b(%s)\b" % "|".join(ren), lambda m: ren[m.group(1)], u.ps), params=order)
        ps("odd", "renamed-wrong", fence(w), w, t)
    pw = {"blend": "vec_scalar_mul(ite(opacity > 1, 2, 1) * opacity, active)", "vmax": cprogs.S % "ite(x > y, x, y) + x"}.get(prog.name)
    if prog.mat: pw = cprogs.two("ite(x > y, x, y) * 2")[0]
    if pw: ps("odd", "ite-precedence", fence(ps_code(prog, pw)), ps_code(prog, pw), t)
    if "ite_int" in prog.dsl and prog.name in ("vmax", "darken", "madd"):
        for k in ("int1=%s, int2=%s, cond=x > y", "int2=%s, int1=%s, cond=x > y"):
            w = next(q for q in prog.theories if "ite_int(" in q.ps).ps
            w = re.sub(r"ite_int\(x > y, (\w+), (\w+)\)", lambda m: "ite_int(%s)" % (k % (m.group(1), m.group(2))), w)
            ps("odd", "keywords", fence(ps_code(prog, w)), ps_code(prog, w), t)
    if "vec_elemwise_sub" in prog.dsl and prog.ret == "list":
        w = "vec_elemwise_sub(y=base, x=active)"; ps("odd", "keywords", fence(ps_code(prog, w)), ps_code(prog, w), t)
    if prog.name == "triangle":
        w = "ite(n > 0, tri(n), 0)"; ps("odd", "ite-commas", fence(ps_code(prog, w)), ps_code(prog, w), t)
        w = "ite(n > 0, n, 0) * (n - 1)"; ps("odd", "ite-precedence", fence(ps_code(prog, w)), ps_code(prog, w))
    if prog.name == "sum_sq":
        w = "ite(len(xs) < 1, 0, 1) + reduce_sum(xs)"; ps("odd", "ite-precedence", fence(ps_code(prog, w)), ps_code(prog, w))
    bodies = t.invs[0]
    c = inv_code(prog, bodies)
    inv("odd", "nolang", "```\n# @N@\n%s\n```" % c, c, t)
    inv("bad", "prose", "The invariant is that everything stays true.")
    inv("bad", "none", None); inv("bad", "empty", "")
    inv("bad", "unclosed", "```python\n# @N@\n%s" % c[: len(c) // 2])
    inv("bad", "syntax", fence(c.replace("return", "retrun")))
    inv("bad", "unknown", fence(inv_code(prog, ["magic(%s)" % prog.heads[0][0]] * len(bodies))))
    inv("bad", "othername", fence(inv_code(prog, bodies, names=["loop_inv", "inner_inv"])))
    if prog.double: inv("bad", "one", fence(inv_code(prog, bodies[:1])))
    else: inv("bad", "two", fence(inv_code(prog, bodies) + "\n\n" + inv_code(prog, bodies, names=["invariant2"])))
    inv("odd", "false", fence(inv_code(prog, ["False"] * len(bodies))), inv_code(prog, ["False"] * len(bodies)))
    inv("odd", "true", fence(inv_code(prog, ["True"] * len(bodies))), inv_code(prog, ["True"] * len(bodies)))
    inv("odd", "typeerror", fence(inv_code(prog, ["%s" % prog.heads[0][0]] * len(bodies))))
    inv("bad", "ps-again", fence(ps_code(prog, body)))
    inv("odd", "renamed", fence(re.sub(r"\b%s\b" % prog.heads[0][0], "kk", c)))
    return A

# ------------------------------------------------------------- parse memo
class Memo:
    """mypy builds of known texts are made once, before the runs fork, through the
    parser's own entry point; unknown texts are built for real."""
    def __init__(self): self.memo, self.real, self.live, self.cache = {}, None, 0, None
    def key(self, sources, options):
        try:
            with osim.real_open(os.path.join("llmlift_scripts", "dsl.py")) as f: d = f.read()
        except OSError: d = None
        return (tuple((s.module, s.path, s.text) for s in sources), d, options.incremental, options.preserve_asts, options.export_types, options.python_version)
    def install(self):
        from mypy import build
        plain = build.build
        def real(sources, options, *a, **k):
            if hasattr(options, "sqlite_cache"): options.sqlite_cache = False    # its files would stay open
            return plain(sources, options, *a, **k)
        self.real = real
        def memo_build(sources, options, *a, **k):
            w = kernel.current(); kernel.set_current(None)
            try:
                if a or k: return self.real(sources, options, *a, **k)
                key = self.key(sources, options)
                if key not in self.memo:
                    self.live += 1
                    if self.cache and not os.path.exists(".mypy_cache"): shutil.copytree(self.cache, ".mypy_cache")
                    try: return self.real(sources, options)
                    except BaseException as e: raise
                r = self.memo[key]
                if isinstance(r, BaseException): raise r
                return r
            finally: kernel.set_current(w)
        build.build = memo_build
    def record(self):
        from mypy import build
        keep = build.build
        def rec(sources, options, *a, **k):
            key = self.key(sources, options)
            if key in self.memo:
                r = self.memo[key]
                if isinstance(r, BaseException): raise r
                return r
            try: r = self.real(sources, options, *a, **k)
            except BaseException as e: self.memo[key] = e; raise
            self.memo[key] = r
            return r
        build.build = rec
        return lambda: setattr(build, "build", keep)
MEMO = Memo()
DEMANGLE = {}
def place(root):
    """The repository's layout, as far as the sessions need it, under the scratch root."""
    d = os.path.join(root, "llmlift_scripts")
    if not os.path.isdir(d): os.makedirs(d)
    src = os.path.join(boot.REPO, "llmlift_scripts")
    for f in sorted(osim.real("listdir")(src)):
        if f.endswith(".py"): shutil.copy(os.path.join(src, f), os.path.join(d, f))
    os.symlink(os.path.join(boot.REPO, "metalift"), os.path.join(root, "metalift"))
def fresh_scripts(root):
    """Imports llmlift_scripts from the copy under root."""
    for k in [k for k in sys.modules if k == "llmlift_scripts" or k.startswith("llmlift_scripts.")]: del sys.modules[k]
    sys.path[:] = [p for p in sys.path if not os.path.isdir(os.path.join(p or ".", "llmlift_scripts")) or p == boot.REPO]
    sys.path.insert(0, root)
    importlib.invalidate_caches()
    return importlib.import_module("llmlift_scripts.synthesis")
POOL = {}
def extracted(text):
    return re.findall(r"```(?:Python|python|assembly|cpp|c|c\+\+)?(.*?)```", text or "", re.S)
def warm(scratch, nprog=2, names=None, progs=None):
    global DEMANGLE
    sys.setrecursionlimit(4000)
    import mypy.build
    import metalift.frontend.llvm, metalift.utils.tenspiler.constants, metalift.synthesize_rosette, metalift.process_tracker
    stubs()
    with osim.real_open(os.path.join(FIX, "names.json")) as f: DEMANGLE = json.load(f)
    seed = int(os.environ.get("PYTHONHASHSEED") or 0)
    rng = random.Random(seed)
    MEMO.install()
    vecs = [n for n in PROGS if not PROGS[n].mat]; mats = [n for n in PROGS if PROGS[n].mat]
    if names is None: names = rng.sample(vecs, max(1, nprog - 1)) + rng.sample(mats, 1)
    back = os.getcwd()
    n = 0
    for prog in progs or [PROGS[n] for n in names]:
        name = getattr(prog, "key", prog.name)
        prog.answers = answers(prog, random.Random("%s/%d" % (name, seed)))
        for variant in (0,) if progs else (0, 1, 2):
            if variant == 2 and CHANGED[name] is None: continue
            root = os.path.join(scratch, "warm", "d%d" % n); n += 1
            os.makedirs(root); place(root); os.chdir(root)
            prev = os.path.join(scratch, "warm", "d%d" % (n - 2), ".mypy_cache")
            if n > 1: shutil.copytree(prev, ".mypy_cache")
            syn = fresh_scripts(root)
            from llmlift_scripts import parser
            code = "\n\n".join(f.to_python() for f in dsl(prog, variant))
            undo = MEMO.record()
            try:
                for a in prog.answers:
                    # the changed functions matter only for what can be accepted
                    if variant and a.cls == "bad" and a.label not in ("unknown", "prose"): continue
                    sols = ["\n\n".join(extracted(a.text))]
                    if a.label == "blocks": sols.append(extracted(a.text)[0])
                    for sol in sols:
                        from llmlift_scripts.utils import replace_ite
                        try: parser.check_solution(solution=replace_ite(sol), expected_num_funcs=2 if a.kind == "inv" and prog.double else 1, dsl_code=code, lambda_exprs={}, arg_name_to_count={})
                        except Exception: pass
            finally: undo()
        POOL[name] = prog
    MEMO.cache = os.path.join(scratch, "warm", "d%d" % (n - 1), ".mypy_cache")
    os.chdir(back)
    sys.path[:] = [p for p in sys.path if not p.startswith(os.path.join(scratch, "warm"))]
    for k in [k for k in sys.modules if k.startswith("llmlift_scripts")]: del sys.modules[k]
