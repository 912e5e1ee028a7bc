"""C13: the same session under two set iteration orders.

A session of one of the other scenarios is run, then run again from the same
choices with the sets of the repository's modules iterated in another order.
Every problem handed to a solver must be well formed, and the two sequences of
problems must be the same up to the order of their declarations.
"""
import importlib, os, re, shutil, sys
from . import orders, osim, kernel, rig, rkt, smt, sexp, boot

GROUPS = {
    "L": [("sc_lift", "C09", 5), ("sc_lift", "C11", 3), ("sc_lift", "C12", 3)],
    "V": [("sc_llvm", "C09", 3), ("sc_llvm", "C12", 3)],
    "M": [("sc_llm", "C15", 3), ("sc_llm", "C14", 2)],
    "R": [("sc_rosette", "C02", 3), ("sc_sygus", "C04", 2)],
}
PRELOAD = []
MODS = {}
orders.install(boot.REPO)
def warm(scratch, focuses):
    for f in focuses:
        for m, sub, _ in GROUPS[f]:
            if m in MODS: continue
            mod = MODS[m] = importlib.import_module("sim." + m)
            for lib in getattr(mod, "PRELOAD", ()): importlib.import_module(lib)
            if hasattr(mod, "warm"): mod.warm(scratch, [s for mm, s, _ in GROUPS[f] if mm == m])

BAD = ("declared twice", "already defined", "is not declared", "unbound identifier", "cannot redeclare", "before its definition", "duplicate", "unknown sort")

def flat(e):
    if isinstance(e, str): yield e
    else:
        for x in e: yield from flat(x)

def canon(kind, text):
    """(sorted canonical forms, defect of the text or None)."""
    try: forms = sexp.parse(text)
    except sexp.SexpError as e: return [text], "does not parse: %s" % e
    try:
        if kind == "rkt": rkt.Program(text)
        else: smt.Problem(text, synth=kind == "sl")
        bad = None
    except (rkt.RktError, smt.SmtError) as e:
        bad = str(e) if any(b in str(e) for b in BAD) else None
    out = []
    where = {}
    for i, f in enumerate(forms):
        if kind == "rkt" and isinstance(f, list):
            if f[0] == "define-symbolic":
                for v in f[1:-1]: out.append("symbolic %s %s" % (v, sexp.show(f[-1]))); where[v] = i
                continue
            if f[0] == "define" and isinstance(f[1], str): where[f[1]] = i
            for j, x in enumerate(f):
                if isinstance(x, list) and len(x) > 0 and x[0] in ("synthesize", "verify"): f = f[:j] + [quant(x)] + f[j + 1:]
        out.append(sexp.show(f))
    if kind == "rkt" and bad is None:
        for i, f in enumerate(forms):      # what is evaluated when the form is reached
            if isinstance(f, list) and f[0] == "define" and isinstance(f[1], str):
                for a in flat(f[2]):
                    if where.get(a, -1) >= i: bad = "%s is used before its definition" % a; break
    return sorted(out), bad

def quant(x):
    x = list(x)
    for j in range(len(x) - 1):
        if x[j] == "#:forall" and isinstance(x[j + 1], list): x[j + 1] = x[j + 1][:1] + sorted(x[j + 1][1:], key=sexp.show)
    return x

def collect(mod, sub, ch, root, order):
    seen = []
    def spy(w, argv):
        p = str(argv[-1]); ext = p.rsplit(".", 1)[-1]
        if ext not in ("rkt", "smt", "sl"): return
        try:
            with osim.real_open(p if os.path.isabs(p) else os.path.join(root, p)) as f: seen.append((ext, f.read()))
        except OSError: seen.append((ext, "<no file>"))
    d = os.getcwd()
    os.makedirs(root)
    os.chdir(root)
    osim.ON_SPAWN = spy
    orders.set_order(order)
    calls = getattr(sys.modules.get("sim.liftrig"), "GRAMMAR_CALLS", [])
    calls.clear()
    try: o = MODS[mod].run(ch, root, sub)
    finally:
        orders.set_order(None); osim.ON_SPAWN = None; os.chdir(d)
        shutil.rmtree(root, ignore_errors=True)
    return o, seen, list(calls)

def run(ch, root, focus):
    out = rig.Outcome()
    order = ch.draw(1 << 20, "order")
    mod, sub = ch.weighted([(w, (m, s)) for m, s, w in GROUPS[focus]], "session")
    mark = len(ch.rec)
    orders.COUNT[:] = [0, 0]
    where = os.path.join(root, "s")
    o1, a, ga = collect(mod, sub, ch, where, None)
    ch2 = kernel.Choices(None, ch.rec[mark:])
    o2, b, gb = collect(mod, sub, ch2, where, order)
    for k in ("sim_ms", "ops", "inconclusive"): setattr(out, k, getattr(o1, k))
    out.stats = dict(o1.stats); out.digest = o1.digest
    out.key = (mod, sub) + tuple(o1.key)
    out.nontrivial = bool(a) and orders.COUNT[1] > 0
    out.note = "%s/%s, order %d, %d problems: %s" % (mod, sub, order, len(a), o1.note)
    out.stats["fault:set_iterations_reordered"] = orders.COUNT[1]
    out.stats["probe:problems_compared"] = min(len(a), len(b))
    ca = [(k,) + canon(k, t) for k, t in a]; cb = [(k,) + canon(k, t) for k, t in b]
    for k, forms, bad in ca + cb:
        # a proposal that does not define what it should is the model's fault, not the problem's
        if bad and focus == "M" and re.search(r"\b\w+_(inv\d|ps)\b", bad): continue
        if bad: out.bad("C13", "malformed", "%s problem: %s (%s)" % (k, bad, o1.note)); return out
    for i, (x, y) in enumerate(zip(ca, cb)):
        if x[0] != y[0]: out.bad("C13", "other-solver", "problem %d is for %s or for %s" % (i, x[0], y[0])); return out
        if x[1] != y[1]:
            p = [f for f in x[1] if f not in y[1]]; q = [f for f in y[1] if f not in x[1]]
            out.bad("C13", "order-dependent", "%s problem %d of %s depends on the order of a set: %s against %s" % (x[0], i, o1.note[:120], [f[:160] for f in p[:2]] or "repetitions", [f[:160] for f in q[:2]] or "repetitions")); return out
    for i, (x, y) in enumerate(zip(ga, gb)):
        if x != y: out.bad("C13", "order-dependent", "call %d of a grammar in %s is given other variables, or in another order: %s against %s" % (i, o1.note[:120], x, y)); return out
    if len(a) != len(b) and not o2.inconclusive and not o1.inconclusive: out.bad("C13", "other-number", "%d problems are posed in one order, %d in another: %s | %s" % (len(a), len(b), o1.note, o2.note))
    return out
