"""Seams: subprocess, time and file access, dispatched to the current World.

install() must run before any module of the repository is imported.  Outside a
World (or outside its scratch root) everything behaves as shipped.
"""
import builtins, io, os, signal, subprocess, sys, time, threading, pathlib
from .kernel import current, World, SimHang, HarnessError

_real_open = io.open
_real = {}
PIPE_CAP = 65536
ON_SPAWN = None       # f(world, argv): an observer of every process start

# ---------------------------------------------------------------- processes
class SimStream:
    """Read end of a simulated pipe."""
    def __init__(self, proc, name, text=False, encoding=None):
        self.proc, self.name = proc, name
        self.buf = bytearray()
        self.eof = False
        self.closed = False
        self.text = text
        self.encoding = "utf-8" if encoding in (None, "locale") else encoding
    def _w(self): return self.proc.world
    def _conv(self, b):
        b = bytes(b)
        return b.decode(self.encoding, "replace") if self.text else b
    def _take(self, n):
        out = self.buf[:n]; del self.buf[:n]
        if out: self.proc.world.quiet = 0
        self.proc._unblock()
        return out
    def readline(self, size=-1):
        w = self._w()
        w.op("readline", self.proc.label, self.name)
        w.block(lambda: self.eof or b"\n" in self.buf or len(self.buf) >= PIPE_CAP, what="readline " + self.name)
        out = bytearray()
        # a line longer than the pipe is drained piecewise
        while True:
            i = self.buf.find(b"\n")
            if i >= 0:
                out += self._take(i + 1); break
            if self.eof and not self.proc._pending(self.name):
                out += self._take(len(self.buf)); break
            out += self._take(len(self.buf))
            w.block(lambda: self.eof or len(self.buf) > 0, what="readline " + self.name)
        return self._conv(out)
    def read(self, n=-1):
        w = self._w()
        w.op("read", self.proc.label, self.name)
        if n is None or n < 0:
            out = bytearray()
            while True:
                w.block(lambda: self.eof or len(self.buf) > 0, what="read " + self.name)
                out += self._take(len(self.buf))
                if self.eof and not self.buf: break
            return self._conv(out)
        w.block(lambda: self.eof or len(self.buf) >= min(n, PIPE_CAP), what="read " + self.name)
        return self._conv(self._take(n))
    read1 = read
    def readlines(self):
        return self.read().splitlines(True)
    def __iter__(self):
        while True:
            l = self.readline()
            if not l: return
            yield l
    def __next__(self):
        l = self.readline()
        if not l: raise StopIteration
        return l
    def close(self):
        self.closed = True
        self.proc._unblock()
    def readable(self): return True
    def fileno(self): raise io.UnsupportedOperation("simulated pipe has no descriptor")
    def flush(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): self.close()

class SimProc:
    """The process itself: a generator of actions advanced by the event queue."""
    n = 0
    def __init__(self, world, argv, label):
        self.world, self.argv, self.label = world, argv, label
        self.done = False
        self.code = None            # exit status once done
        self.reaped = False
        self.streams = {"out": None, "err": None}   # SimStream | file | None
        self.gen = None
        self.cur_write = None       # (stream name, remaining bytes) while blocked
        self.started = world.now
        self.ended = None
        self.signals = []
        world.procs.append(self)
        self.idx = len(world.procs) - 1
    def _pending(self, name):
        return self.cur_write is not None and self.cur_write[0] == name
    def _unblock(self):
        if self.cur_write is not None and not self.done:
            self.world.after(0, self._resume_write)
    def _resume_write(self):
        if self.done or self.cur_write is None: return
        name, data = self.cur_write
        s = self.streams[name]
        if s.closed:
            self.cur_write = None
            self.finish(-13); return
        room = PIPE_CAP - len(s.buf)
        if room <= 0: return
        s.buf += data[:room]
        data = data[room:]
        if data:
            self.cur_write = (name, data)
            return
        self.cur_write = None
        self.step()
    def step(self):
        if self.done: return
        w = self.world
        while True:
            try:
                act = next(self.gen)
            except StopIteration:
                self.finish(0); return
            k = act[0]
            if k == "sleep":
                w.after(act[1], self.step); return
            if k in ("out", "err"):
                s = self.streams[k]
                data = act[1].encode() if isinstance(act[1], str) else act[1]
                w.rec("proc", self.label, k, len(data))
                if s is None: continue
                if isinstance(s, SimStream):
                    room = PIPE_CAP - len(s.buf)
                    s.buf += data[:room]
                    rest = data[room:]
                    if rest:
                        w.count("probe:pipe_full")
                        self.cur_write = (k, rest)
                        return
                else:
                    try: s.write(data)
                    except (TypeError,): s.write(data.decode())
                    try: s.flush()
                    except Exception: pass
                continue
            if k == "do":
                act[1](); continue
            if k == "exit":
                self.finish(act[1]); return
            raise HarnessError("unknown action %r" % (act,))
    def finish(self, code):
        if self.done: return
        self.done = True
        self.code = code
        self.cur_write = None
        self.ended = self.world.now
        self.world.quiet = 0
        self.world.rec("proc-exit", self.label, code)
        try: self.gen.close()
        except Exception: pass
        for s in self.streams.values():
            if isinstance(s, SimStream): s.eof = True
    def deliver(self, sig):
        if self.done: return
        self.signals.append(int(sig))
        self.world.rec("signal", self.label, int(sig))
        if sig == signal.SIGKILL:
            self.finish(-int(sig))
        else:
            d = self.world.ch.pick([0, 2, 40, 1500], "term-delay")
            self.world.after(d, lambda: self.finish(-int(sig)))

class SimPopen:
    """Drop-in replacement for subprocess.Popen."""
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                 preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
                 universal_newlines=None, startupinfo=None, creationflags=0, restore_signals=True,
                 start_new_session=False, pass_fds=(), *, user=None, group=None, extra_groups=None,
                 encoding=None, errors=None, text=None, umask=-1, pipesize=-1, process_group=None):
        w = current()
        if w is None:
            raise HarnessError("Popen outside a simulated world: %r" % (args,))
        argv = [args] if isinstance(args, (str, bytes, os.PathLike)) else list(args)
        argv = [os.fspath(a) for a in argv]
        if shell: raise HarnessError("shell=True is not simulated")
        self.args = args
        self.text_mode = bool(text or universal_newlines or encoding or errors)
        w.op("spawn", *[str(a) for a in argv])
        label = "%s#%d" % (os.path.basename(argv[0]), len(w.procs))
        if ON_SPAWN is not None: ON_SPAWN(w, argv)
        maker = w.spawn_handler(argv)      # may raise OSError
        proc = SimProc(w, argv, label)
        self._proc = proc
        self.pid = 100000 + proc.idx
        self.returncode = None
        self.stdin = None
        self.stdout = self.stderr = None
        if stdin == subprocess.PIPE:
            self.stdin = io.BytesIO() if not self.text_mode else io.StringIO()
        if stdout == subprocess.PIPE:
            self.stdout = proc.streams["out"] = SimStream(proc, "stdout", self.text_mode, encoding)
        elif stdout not in (None, subprocess.DEVNULL):
            proc.streams["out"] = stdout if hasattr(stdout, "write") else _FdWriter(stdout)
        if stderr == subprocess.PIPE:
            self.stderr = proc.streams["err"] = SimStream(proc, "stderr", self.text_mode, encoding)
        elif stderr == subprocess.STDOUT:
            proc.streams["err"] = proc.streams["out"]
        elif stderr not in (None, subprocess.DEVNULL):
            proc.streams["err"] = stderr if hasattr(stderr, "write") else _FdWriter(stderr)
        for k in ("out", "err"):   # files: the child has its own duplicate of the descriptor
            s = proc.streams[k]
            if s is not None and not isinstance(s, (SimStream, _FdWriter)):
                try: s.flush()
                except Exception: pass
                proc.streams[k] = _FdWriter(os.dup(s.fileno()))
        proc.cwd = cwd
        proc.gen = maker(proc)
        w.after(0, proc.step)
    # -- API ---------------------------------------------------------------
    def _collect(self):
        if self._proc.done and self.returncode is None:
            self.returncode = self._proc.code
            self._proc.reaped = True
    def poll(self):
        self._proc.world.op("poll", self._proc.label)
        self._collect()
        return self.returncode
    def wait(self, timeout=None):
        w = self._proc.world
        w.op("wait", self._proc.label)
        dl = None if timeout is None else w.now + int(timeout * 1000)
        w.block(lambda: self._proc.done, dl, "wait " + self._proc.label)
        self._collect()
        if self.returncode is None:
            raise subprocess.TimeoutExpired(self.args, timeout)
        return self.returncode
    def communicate(self, input=None, timeout=None):
        w = self._proc.world
        w.op("communicate", self._proc.label)
        dl = None if timeout is None else w.now + int(timeout * 1000)
        if not hasattr(self, "_acc"): self._acc = [bytearray(), bytearray()]
        ss = [self.stdout, self.stderr]
        def drain():
            for a, s in zip(self._acc, ss):
                if s is not None and s.buf: a += s._take(len(s.buf))
        def fin():
            drain()
            return self._proc.done and all(s is None or (s.eof and not s.buf) for s in ss)
        w.block(fin, dl, "communicate " + self._proc.label)
        if not fin():
            raise subprocess.TimeoutExpired(self.args, timeout)
        self._collect()
        return tuple(None if s is None else s._conv(a) for a, s in zip(self._acc, ss))
    def send_signal(self, sig):
        self._proc.world.op("signal", self._proc.label, int(sig))
        self._collect()
        if self.returncode is None: self._proc.deliver(sig)
    def terminate(self): self.send_signal(signal.SIGTERM)
    def kill(self): self.send_signal(signal.SIGKILL)
    def __enter__(self): return self
    def __exit__(self, et, ev, tb):
        for s in (self.stdout, self.stderr):
            if s: s.close()
        self.wait()
    def __del__(self): pass

class _FdWriter:
    def __init__(self, fd): self.fd = fd
    def write(self, b): os.write(self.fd, b if isinstance(b, bytes) else b.encode())
    def flush(self): pass

class _PopenMeta(type):
    """subprocess.Popen stays usable as a class (subscription, isinstance)."""
    def __instancecheck__(cls, obj):
        return isinstance(obj, (SimPopen, _real["Popen"]))
    def __getitem__(cls, item): return cls
class PopenDispatch(metaclass=_PopenMeta):
    def __new__(cls, *a, **k):
        if current() is None:
            return _real["Popen"](*a, **k)
        return SimPopen(*a, **k)
    def __class_getitem__(cls, item): return cls

# ---------------------------------------------------------------- files
def _rel(path):
    """Path relative to the scratch root of the current world, or None."""
    w = current()
    if w is None: return None, None
    try:
        p = os.fspath(path)
    except TypeError:
        return None, None
    if isinstance(p, bytes): p = os.fsdecode(p)
    a = os.path.abspath(p)
    if a == w.root or a.startswith(w.root + os.sep):
        return w, os.path.relpath(a, w.root)
    return None, None

def _fault(w, kind, rel):
    if w.file_fault is not None:
        e = w.file_fault(kind, rel)
        if e is not None:
            w.count("fault:file_%s" % kind)
            w.rec("fault", kind, rel, type(e).__name__, getattr(e, "errno", None))
            raise e

class SimWriter:
    """File opened for writing: buffered, every flush is visible to others."""
    def __init__(self, w, f, rel, mode, text, encoding, newline):
        self._w, self._f, self._rel, self.mode = w, f, rel, mode
        self._text, self._enc = text, "utf-8" if encoding in (None, "locale") else encoding
        self._buf = bytearray()
        self.name = getattr(f, "name", rel)
        self.encoding = self._enc
        self.errors = "strict"; self.newlines = None
    @property
    def closed(self): return self._f.closed
    def writable(self): return True
    def readable(self): return False
    def seekable(self): return False
    def isatty(self): return False
    def fileno(self):
        self.flush(); return self._f.fileno()
    def write(self, s):
        if self._f.closed: raise ValueError("I/O operation on closed file.")
        b = s.encode(self._enc) if self._text else bytes(s)
        self._buf += b
        while len(self._buf) >= 8192:
            self._w.op("write", self._rel)
            self._push(8192)
        return len(s)
    def _push(self, n):
        _fault(self._w, "write", self._rel)
        self._f.write(bytes(self._buf[:n])); del self._buf[:n]
    def writelines(self, ls):
        for l in ls: self.write(l)
    def flush(self):
        if self._buf:
            self._w.op("flush", self._rel)
            self._push(len(self._buf))
    def close(self):
        if self._f.closed: return
        try:
            self._w.op("close", self._rel)
            if self._buf: self._push(len(self._buf))
        finally:
            self._f.close()
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def __del__(self):
        try:
            if not self._f.closed:
                self._f.write(bytes(self._buf)); self._f.close()
        except Exception: pass

class SimReader:
    def __init__(self, w, f, rel):
        self.__dict__.update(_w=w, _f=f, _rel=rel)
    def __getattr__(self, k): return getattr(self._f, k)
    def read(self, *a):
        self._w.op("fread", self._rel); _fault(self._w, "read", self._rel)
        return self._f.read(*a)
    def readline(self, *a):
        self._w.op("fread", self._rel)
        return self._f.readline(*a)
    def readlines(self, *a):
        self._w.op("fread", self._rel)
        return self._f.readlines(*a)
    def __iter__(self): return iter(self._f)
    def __next__(self): return next(self._f)
    def close(self): self._f.close()
    def __enter__(self): return self
    def __exit__(self, *a): self._f.close()

def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w, rel = (None, None) if isinstance(file, int) else _rel(file)
    if w is None:
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    w.op("open", rel, mode)
    _fault(w, "open", rel)
    if "r" in mode and "+" not in mode:
        return SimReader(w, _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener), rel)
    if "+" in mode:
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    text = "b" not in mode
    raw = _real_open(file, mode.replace("t", "").replace("b", "") + "b", 0)
    return SimWriter(w, raw, rel, mode, text, encoding, newline)

def _wrap_path_fn(name, nargs=1, faultable=True):
    fn = _real[name]
    def f(path, *a, **k):
        w, rel = _rel(path)
        if w is not None:
            w.op(name, rel)
            if faultable: _fault(w, name, rel)
        return fn(path, *a, **k)
    f.__name__ = name
    return f

def sim_time():
    w = current()
    return _real["time"]() if w is None else 1.7e9 + w.clock_jump + w.now / 1000.0
def sim_monotonic():
    w = current()
    return _real["monotonic"]() if w is None else w.now / 1000.0
def sim_sleep(s):
    w = current()
    if w is None: return _real["sleep"](s)
    if s < 0: raise ValueError("sleep length must be non-negative")
    w.sleep(s)

_installed = False
def install():
    global _installed
    if _installed: return
    _installed = True
    _real["Popen"] = subprocess.Popen
    subprocess.Popen = PopenDispatch
    _real["time"], _real["monotonic"], _real["sleep"] = time.time, time.monotonic, time.sleep
    _real["perf_counter"] = time.perf_counter
    time.time, time.monotonic, time.sleep, time.perf_counter = sim_time, sim_monotonic, sim_sleep, sim_monotonic
    _real["time_ns"] = time.time_ns
    time.time_ns = lambda: int(sim_time() * 1e9)
    builtins.open = sim_open
    io.open = sim_open
    for name in ("mkdir", "unlink", "remove", "rename", "replace", "rmdir", "listdir", "scandir", "stat"):
        _real[name] = getattr(os, name)
    for name in ("mkdir", "unlink", "remove", "rename", "replace", "rmdir"):
        setattr(os, name, _wrap_path_fn(name))
    setattr(os, "stat", _wrap_path_fn("stat", faultable=False))
    def _sys(*a): raise HarnessError("os.system is not simulated")
    os.system = _sys
    for name in ("listdir", "scandir"):
        real = _real[name]
        def lister(path=".", _real=real, _n=name):
            w, rel = (None, None) if isinstance(path, int) else _rel(path)
            if w is not None: w.op(_n, rel)
            return _real(path)
        setattr(os, name, lister)

def real_open(*a, **k): return _real_open(*a, **k)
def real(name): return _real[name]
def exists_real(p):
    try:
        _real["stat"](p); return True
    except OSError: return False
