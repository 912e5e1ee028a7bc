"""Shared parts of the scenarios: worlds, emulated verifiers, outcome records."""
import errno, os, random, shutil, sys
from . import kernel, osim, smt, rkt, irsem
from .kernel import World, SimHang, SimAbort, HarnessError
from .values import EvalError, SortError, Tup

WORLDS = []      # worlds created by the current run, for traces
_init = World.__init__
def _rec_init(self, *a, **k):
    _init(self, *a, **k); WORLDS.append(self)
World.__init__ = _rec_init

class Violation:
    def __init__(self, pid, kind, msg): self.pid, self.kind, self.msg = pid, kind, msg
    def key(self): return (self.pid, self.kind)
    def __repr__(self): return "%s[%s]: %s" % (self.pid, self.kind, self.msg)

class Outcome:
    """Result of one simulated run."""
    def __init__(self):
        self.violations = []
        self.stats = {}
        self.digest = ""
        self.sim_ms = 0
        self.ops = 0
        self.key = ()        # coarse description of the execution, for counting distinct ones
        self.nontrivial = False
        self.inconclusive = None
        self.note = ""
    def bad(self, pid, kind, msg): self.violations.append(Violation(pid, kind, str(msg)[:600]))
    def take(self, w):
        for k, v in w.stats.items(): self.stats[k] = self.stats.get(k, 0) + v
        self.sim_ms += w.now; self.ops += w.ops
        self.digest += w.digest()[:16]

def count(w, k): w.count(k)

VERIF_FAULTS = [(0, None), (3, "kill-silent"), (3, "kill-after-answer"), (2, "kill-mid-answer"), (3, "unknown"), (2, "empty"), (3, "error"), (2, "timeout")]

class Query:
    def __init__(self, path, t):
        self.path, self.t = path, t
        self.text = None; self.verdict = None; self.fault = None
        self.completed = False      # the answer was delivered and the process exited with status >= 0
        self.task = None
    @property
    def accepted(self): return self.completed and self.fault is None and self.verdict is not None and self.verdict.answer == "unsat"

class Verifier:
    """Emulated cvc5 in SMT mode."""
    def __init__(self, w, hints=(), fault_pct=0, limit=2500, slow=True):
        self.w, self.hints, self.fault_pct, self.limit, self.slow = w, list(hints), fault_pct, limit, slow
        self.queries = []
        self.memo = {}
        self.enoent_pct = 0
        self.strong = False       # finds contradictions among the assumptions
    def spawn(self, argv):
        w = self.w
        if self.enoent_pct and w.ch.flip(self.enoent_pct, "enoent"):
            w.count("fault:verifier_missing")
            q = Query(argv[-1], w.now); q.fault = "missing"; q.task = w.cur.name if w.cur else None
            self.queries.append(q)
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", argv[0])
        q = Query(argv[-1], w.now); q.task = w.cur.name if w.cur else None
        self.queries.append(q)
        if self.fault_pct and w.ch.flip(self.fault_pct, "vfault"):
            q.fault = w.ch.weighted(VERIF_FAULTS[1:], "vfault-kind")
            w.count("fault:verifier_" + q.fault)
        delay = w.ch.pick([5, 40, 900, 2100, 30000, 99000], "vdelay") if self.slow else 5
        return lambda proc: self.gen(proc, q, delay)
    def judge(self, text):
        if text not in self.memo:
            self.memo[text] = smt.verify(text, self.hints, self.limit, strong=self.strong)
        return self.memo[text]
    def gen(self, proc, q, delay):
        w = self.w
        yield ("sleep", 3)
        path = q.path if os.path.isabs(q.path) else os.path.join(w.root, q.path)
        try:
            with osim.real_open(path) as f: q.text = f.read()
        except OSError:
            yield ("out", '(error "Couldn\'t open file: %s")\n' % q.path)
            q.completed = True
            yield ("exit", 1); return
        q.verdict = v = self.judge(q.text)
        w.count("verifier:" + v.answer)
        w.rec("verdict", os.path.basename(q.path), v.answer, q.fault)
        yield ("sleep", delay)
        fa = q.fault
        if fa == "kill-silent": yield ("exit", -9); return
        if fa == "empty": yield ("exit", 0); return
        if fa == "unknown":
            yield ("out", "unknown\n(\n)\n"); yield ("exit", 0); return
        if fa == "timeout":
            yield ("out", "cvc5 interrupted by timeout.\n"); yield ("exit", 134); return
        if fa == "error":
            yield ("out", '(error "unsat: Fatal failure within cvc5")\n'); yield ("exit", 1); return
        if fa == "kill-mid-answer":
            yield ("out", "uns" if v.answer == "unsat" else "s"); yield ("exit", -11); return
        if v.answer == "unsat":
            text = 'unsat\n(error "Cannot get model unless after a SAT or UNKNOWN response.")\n'
        elif v.answer == "sat":
            text = "sat\n(\n" + "".join("(define-fun %s () X %s)\n" % (k, x) for k, x in (v.model or {}).items()) + ")\n"
        else:
            text = '(error "%s")\n' % (v.error or "").replace('"', "'")
        yield ("out", text)
        if fa == "kill-after-answer": yield ("exit", -6); return
        q.completed = True
        yield ("exit", 1 if v.answer == "error" else 0)

def is_synth(proc):
    b = os.path.basename(proc.argv[0])
    if b == "racket": return not proc.argv[-1].endswith("_verif.rkt")
    return any("sygus" in a for a in proc.argv)

def listed_hook(w, out):
    """C06: while a synthesizer runs it is listed in the process tracker."""
    from metalift import process_tracker
    warned = set()
    def hook(what):
        if what[0] not in ("sleep", "readline"): return
        for p in w.procs:
            if p.done or p.idx in warned or not is_synth(p): continue
            if not any(getattr(x, "_proc", None) is p for x in process_tracker.all_processes):
                warned.add(p.idx)
                out.bad("C06", "unlisted", "%s runs but is not in process_tracker.all_processes" % p.label)
    return hook

def check_reaped(w, out):
    from metalift import process_tracker
    for p in w.procs:
        if not p.done: out.bad("C06", "survivor", "%s is still running after the call ended" % p.label)
        elif not p.reaped: out.bad("C06", "zombie", "%s has exited but was never reaped" % p.label)

class Fresh:
    """A scratch directory that is the cwd of one run."""
    def __init__(self, base):
        self.base = base; self.n = 0
    def new(self):
        self.n += 1
        d = os.path.join(self.base, "r%d" % (self.n % 2))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        os.chdir(d)
        return d

class FileFaults:
    """Injects errors into file operations under the scratch root."""
    KINDS = [errno.ENOSPC, errno.EIO, errno.EACCES, errno.EMFILE]
    def __init__(self, w, at, err):
        self.w, self.at, self.err = w, at, err
        self.n = 0; self.hit = None
    def __call__(self, kind, rel):
        self.n += 1
        if self.n == self.at:
            self.hit = (kind, rel)
            return OSError(self.err, os.strerror(self.err), rel)
        return None

def same_value(a, b):
    """Racket has no tuple type: compare sequences structurally."""
    if isinstance(a, bool) or isinstance(b, bool): return a is b
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b

def differs(interp, name, fn, points):
    """First point where the definition `name` differs from the callable fn, or None."""
    for pt in points:
        try: x = interp.call(name, pt)
        except EvalError: continue
        try: y = fn(*pt)
        except (EvalError, RecursionError): continue
        except SortError as e: return pt, x, "error %s" % e
        if not same_value(x, y): return pt, x, y
    return None

def owned(b, rel):
    """Files in the log directory that belong to the synthesis called b."""
    import re
    return re.fullmatch(re.escape(b) + r"(\.rkt|_sol\d*(\.tmp)?|_\d+\.smt|_\d+\.sl|\.log)", rel) is not None

def foreign_ops(w, out, b1, b2):
    """C07: no run writes, renames or removes a file of the other one."""
    for e in w.log:
        if len(e) >= 5 and e[1] == "op" and e[3] in ("unlink", "remove", "rename", "replace", "open", "rmdir"):
            if e[3] == "open" and (len(e) < 6 or "r" in str(e[5])): continue
            me, rel = e[2], os.path.basename(str(e[4]))
            other = b2 if me == b1 else b1
            if me in (b1, b2) and owned(other, rel) and not owned(me, rel):
                out.bad("C07", "foreign-file", "%s does %s on %s of %s" % (me, e[3], rel, other)); break
