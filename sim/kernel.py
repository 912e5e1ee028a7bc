"""Deterministic simulation kernel.

One World is one simulated execution.  Everything nondeterministic is decided
by World.ch (a recorded sequence of choices derived from one seed), time is
virtual (integer milliseconds), and simulated processes are Python generators
advanced by a discrete-event queue.  Code under test runs on ordinary threads
that are parked and released one at a time (baton passing): the scheduler
decides who runs at every seam operation.
"""
from __future__ import annotations
import hashlib, heapq, random, sys, threading

class SimHang(BaseException):
    """The code under test made no progress within the step budget."""

class SimAbort(BaseException):
    """World is being torn down; unwinds parked tasks."""

class HarnessError(Exception):
    """The simulator itself is at fault (never reported as a violation)."""

class Choices:
    """Recorded choice sequence.  Value 0 always means 'simplest / no fault'."""
    def __init__(self, seed=None, replay=None):
        self.replay = list(replay) if replay is not None else None
        self.rng = random.Random(seed) if replay is None else None
        self.rec = []
    def draw(self, n, label=""):
        if n <= 1:
            return 0
        if self.replay is not None:
            i = len(self.rec)
            v = self.replay[i] if i < len(self.replay) else 0
            if v >= n:
                v = n - 1
        else:
            v = self.rng.randrange(n)
        self.rec.append(v)
        return v
    def flip(self, pct, label=""):
        """True with probability pct/100; 0 is False."""
        return self.draw(100, label) >= 100 - pct
    def pick(self, seq, label=""):
        return seq[self.draw(len(seq), label)]
    def weighted(self, pairs, label=""):
        """pairs: [(weight, value)...]; the first value is the simplest."""
        tot = sum(w for w, _ in pairs)
        v = self.draw(tot, label)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        raise HarnessError("weighted")
    def delay(self, label="", scale=1):
        """A delay in ms with a wide, skewed distribution."""
        k = self.draw(10, label)
        base = [1, 3, 20, 150, 700, 1900, 2000, 2300, 9000, 60000][k]
        return base * scale
    def sub(self):
        """A derived PRNG for bulk data that need not be shrunk."""
        return random.Random(self.draw(1 << 30, "sub"))

_tls = threading.local()
def current():
    return getattr(_tls, "world", None)
def set_current(w):
    _tls.world = w

class Task:
    def __init__(self, world, name, fn):
        self.world, self.name, self.fn = world, name, fn
        self.lock = threading.Semaphore(0)
        self.done = False
        self.result = None        # ("ok", value) | ("exc", exception)
        self.blocked = None       # predicate or None
        self.deadline = None
        self.thread = None
    def ready(self, now):
        if self.done: return False
        if self.blocked is None: return True
        if self.blocked(): return True
        return self.deadline is not None and now >= self.deadline

class World:
    MAX_OPS = 80000
    QUIET_OPS = 400
    def __init__(self, choices, root):
        self.ch = choices
        self.root = root
        self.now = 0
        self.seq = 0
        self.q = []
        self.procs = []
        self.log = []
        self.ops = 0
        self.quiet = 0
        self.hang = None
        self.tasks = []
        self.cur = None
        self.stats = {}
        self.interrupt_at = None     # op index at which to raise KeyboardInterrupt
        self.interrupted = False
        self.armed = False
        self.file_fault = None       # f(kind, relpath) -> OSError | None
        self.spawn_handler = None    # f(argv, proc) -> generator or raises OSError
        self.clock_jump = 0
        self.op_hooks = []
        self.in_event = 0
    # -- recording -------------------------------------------------------
    def rec(self, *a):
        self.log.append((self.now,) + a)
    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n
    def digest(self):
        h = hashlib.sha256()
        for e in self.log:
            h.update(repr(e).encode())
        return h.hexdigest()
    # -- events ----------------------------------------------------------
    def after(self, ms, fn):
        self.seq += 1
        heapq.heappush(self.q, (self.now + max(0, int(ms)), self.seq, fn))
    def _run_due(self):
        ran = False
        while self.q and self.q[0][0] <= self.now:
            t, s, fn = heapq.heappop(self.q)
            # the environment acts here: its own file accesses are not operations of the code under test
            self.in_event += 1
            set_current(None)
            try: fn()
            finally:
                self.in_event -= 1
                set_current(self)
            ran = True
        if ran: self.quiet = 0
        return ran
    def _check(self):
        if self.hang:
            raise SimHang(self.hang)
        if getattr(self, "aborting", False):
            raise SimAbort()
    def _fail_hang(self, why):
        self.hang = why
        self.rec("HANG", why)
        raise SimHang(why)
    # -- seam operations ---------------------------------------------------
    def op(self, *what, cost=1):
        """One visible operation of the code under test."""
        self._check()
        self.ops += 1
        self.quiet += 1
        self.rec("op", self.cur.name if self.cur else "-", *what)
        if self.ops > self.MAX_OPS:
            raise SimAbort("operation budget exhausted")
        if self.quiet > self.QUIET_OPS and not self.q and all(p.done or p.cur_write is not None for p in self.procs):
            if all(p.done for p in self.procs):
                self._fail_hang("all solver processes have stopped but the call keeps polling")
            self._fail_hang("a solver process is blocked for ever on output that nobody reads")
        self.now += cost
        self._run_due()
        for h in self.op_hooks: h(what)
        if self.armed and self.interrupt_at is not None and not self.interrupted and self.ops >= self.interrupt_at \
                and what[0] not in ("signal", "poll", "wait") and not any(p.signals for p in self.procs):
            # never inside the stopping of processes itself: no Python code can be safe against that
            self.interrupted = True
            self.count("fault:keyboard_interrupt")
            self.rec("fault", "KeyboardInterrupt")
            raise KeyboardInterrupt()
        if len(self.tasks) > 1:
            self._switch()
    def block(self, pred, deadline=None, what=""):
        """Block the calling task until pred() or the deadline."""
        self._check()
        me = self.cur
        if len(self.tasks) <= 1 or me is None:
            while not pred():
                if deadline is not None and self.now >= deadline:
                    return False
                if not self._advance(deadline):
                    self._fail_hang("blocked for ever: %s" % what)
            return True
        me.blocked, me.deadline = pred, deadline
        self._switch()
        me.blocked = None; me.deadline = None
        return pred()
    def _advance(self, deadline):
        """Advance the clock to the next event (or the deadline)."""
        nxt = self.q[0][0] if self.q else None
        if nxt is None and deadline is None:
            return False
        if nxt is None or (deadline is not None and deadline < nxt):
            self.now = max(self.now, deadline)
        else:
            self.now = max(self.now, nxt)
        self._run_due()
        return True
    def sleep(self, seconds):
        ms = int(seconds * 1000)
        self.op("sleep", ms)
        self.block(lambda: False, self.now + max(ms, 0), "sleep")
    # -- tasks -------------------------------------------------------------
    def _switch(self):
        me = self.cur
        while True:
            ready = [t for t in self.tasks if t.ready(self.now)]
            if ready:
                nxt = ready[self.ch.draw(len(ready), "sched")] if len(ready) > 1 else ready[0]
                break
            dls = [t.deadline for t in self.tasks if not t.done and t.deadline is not None]
            alive = [t for t in self.tasks if not t.done]
            if not alive:
                nxt = None
                break
            if not self._advance(min(dls) if dls else None):
                self.hang = "all tasks blocked for ever"
                self.rec("HANG", self.hang)
                nxt = alive[0]
                break
        if nxt is me:
            if self.hang: raise SimHang(self.hang)
            return
        self.cur = nxt
        if nxt is None:
            self.main_lock.release()
        else:
            nxt.lock.release()
        if me is not None and not me.done:
            me.lock.acquire()
            self._check()
    def run_tasks(self, fns):
        """fns: list of (name, callable).  Runs them under the seeded scheduler."""
        self.main_lock = threading.Semaphore(0)
        self.tasks = [Task(self, n, f) for n, f in fns]
        def body(t):
            t.lock.acquire()
            set_current(self)
            try:
                try:
                    self._check()
                    t.result = ("ok", t.fn())
                except BaseException as e:
                    t.result = ("exc", e)
            finally:
                t.done = True
                self.rec("task-end", t.name, t.result[0])
                try:
                    self._switch()
                except BaseException as e:   # hang while handing over
                    self.main_lock.release()
        for t in self.tasks:
            t.thread = threading.Thread(target=body, args=(t,), daemon=True)
            t.thread._sim_internal = True
            t.thread.start()
        first = self.tasks[self.ch.draw(len(self.tasks), "sched")]
        self.cur = first
        first.lock.release()
        self.main_lock.acquire()
        for t in self.tasks:
            if t.done: t.thread.join(5)
        self.cur = None
        res = [t.result for t in self.tasks]
        self.tasks = []
        return res
