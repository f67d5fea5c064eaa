"""The seams: every source of nondeterminism or failure the simulator owns.

Installed before ahkab is imported, on the *external* libraries ahkab stands on
(numpy/scipy linear algebra, the file layer, the clock, tracing), never on
ahkab's own functions: a refactoring of ahkab does not move a seam.  Disarmed,
every seam is a plain pass-through.
"""
import builtins
import errno
import io
import os
import random
import sys
import threading
import time

import numpy as np
import numpy.linalg
import scipy.linalg
import scipy.sparse.linalg

from .core import Budget

REPO = os.path.realpath(os.environ.get("SIM_REPO", "/repo"))
AHKAB = os.path.join(REPO, "ahkab") + os.sep

# originals, used by the reference models and by the harness itself
real = {
    "solve": np.linalg.solve, "inv": np.linalg.inv, "det": np.linalg.det,
    "eigvals": np.linalg.eigvals, "pinv": np.linalg.pinv,
    "sp_solve": scipy.linalg.solve,
    "splu": scipy.sparse.linalg.splu, "spsolve": scipy.sparse.linalg.spsolve,
    "open": open, "time": time.time, "sleep": time.sleep,
    "gmtime": time.gmtime, "localtime": time.localtime,
    "strftime": time.strftime, "ctime": time.ctime,
    "perf_counter": time.perf_counter, "monotonic": time.monotonic,
}


# ------------------------------------------------------------------ the solver

class Solver(object):
    def __init__(self):
        self.armed = False
        self.calls = 0
        self.plan = {}
        self.fired = []
        self.budget = 400000
        self.where = None      # optional callback: called before each solve
        self.skip = ()         # names of solver entry points left alone


solver = Solver()


def _solve_fault(kind, name):
    solver.fired.append((solver.calls - 1, kind, name))
    if kind == "singular":
        if name == "splu":
            raise RuntimeError("Factor is exactly singular")
        raise np.linalg.LinAlgError("Singular matrix")
    if kind == "overflow":
        raise OverflowError("math range error")
    if kind == "nomem":
        raise MemoryError("simulated allocation failure")
    if kind == "intr":
        raise KeyboardInterrupt()
    return None


def _damage(kind, x):
    """A solve that 'succeeds' with a useless direction (ill conditioning)."""
    if kind == "nan":
        return x * np.nan
    if kind == "inf":
        return x + np.inf
    if kind == "wild":
        return x * -3.7 + 11.0
    return x


def _pre(name, a=()):
    s = solver
    if name in s.skip:
        return None
    i = s.calls
    s.calls += 1
    if s.calls > s.budget:
        raise Budget("%d linear solves" % s.calls)
    if s.where is not None:
        s.where(name, a)
    k = s.plan.get(i)
    if k in ("nan", "inf", "wild"):
        s.fired.append((i, k, name))
        return k
    if k is not None:
        _solve_fault(k, name)
    return None


def _wrap_dense(name, fn):
    def wrapped(*a, **k):
        if not solver.armed:
            return fn(*a, **k)
        d = _pre(name, a)
        r = fn(*a, **k)
        return _damage(d, r) if d else r
    wrapped.__name__ = name
    wrapped.__wrapped__ = fn
    return wrapped


class _LU(object):
    def __init__(self, lu, d):
        self._lu, self._d = lu, d

    def solve(self, *a, **k):
        r = self._lu.solve(*a, **k)
        return _damage(self._d, r) if self._d else r

    def __getattr__(self, n):
        return getattr(self._lu, n)


def _splu(*a, **k):
    if not solver.armed:
        return real["splu"](*a, **k)
    d = _pre("splu", a)
    lu = real["splu"](*a, **k)
    return _LU(lu, d) if d else lu


# ------------------------------------------------------------------ the files

class Disk(object):
    """Raw file operations below `root`, counted, traced, and failed by plan.

    plan: {operation index: fault}, fault = {"k": kind, "frac": f}
    kinds on write: enospc, eio (frac of the bytes reach the disk), short
    (frac of the bytes written and reported), kill (frac written, process dies),
    intr; on read: eio, short, trunc; on open: enospc, eio, eacces, emfile; on
    close: eio.
    """

    def __init__(self):
        self.armed = False
        self.root = None
        self.n = 0
        self.plan = {}
        self.trace = []
        self.fired = []
        self.open_files = {}
        self.observer = None
        self.chunk = None        # (rng) for short reads/writes everywhere
        self.sticky = None       # kind which stays on once it fired (full disk)
        self.wbuf = None

    def rel(self, path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if self.root and (p.startswith(self.root + os.sep)):
            r = p[len(self.root) + 1:]
            return None if r.startswith(".log") else r
        return None

    def step(self, op, rel, nbytes=0):
        i = self.n
        self.n += 1
        f = self.plan.get(i)
        if f is None and self.sticky is not None and op in self.sticky.get("ops", ()):
            f = self.sticky
        if f is not None and not _applies(f["k"], op):
            f = None
        self.trace.append((op, rel, nbytes))
        if f is not None:
            self.fired.append((i, f["k"], op, rel))
            if f.get("sticky"):
                self.sticky = dict(f, ops=f.get("ops", ("write", "open")))
        if self.observer is not None:
            self.observer("before", i, op, rel)
        return f


disk = Disk()

_ERR = {"enospc": errno.ENOSPC, "eio": errno.EIO, "eacces": errno.EACCES, "emfile": errno.EMFILE}
_OPS = {"enospc": ("write", "open", "close"), "eio": ("write", "read", "open", "close"),
        "eacces": ("open",), "emfile": ("open",), "short": ("write", "read"),
        "kill": ("write", "open", "read", "close", "truncate"), "trunc": ("read",),
        "intr": ("write", "open", "read", "close")}


def _applies(kind, op):
    return op in _OPS[kind]


def _oserr(kind, path):
    e = _ERR[kind]
    return OSError(e, os.strerror(e) + " (simulated)", path)


class SimRaw(io.RawIOBase):
    """An unbuffered file below the real io.Buffered*/TextIOWrapper stack."""

    def __init__(self, file, mode, rel, opener=None):
        io.RawIOBase.__init__(self)
        self._rel = rel
        self.name = file
        f = disk.step("open", rel)
        if f is not None:
            k = f["k"]
            if k == "kill":
                os._exit(77)
            if k == "intr":
                raise KeyboardInterrupt()
            raise _oserr(k, file)
        self._f = io.FileIO(file, mode, opener=opener)
        self.mode = self._f.mode
        disk.open_files[id(self)] = rel

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return self._f.seekable()

    def fileno(self):
        return self._f.fileno()

    def isatty(self):
        return False

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()

    def truncate(self, *a):
        return self._f.truncate(*a)

    def readinto(self, b):
        f = disk.step("read", self._rel, len(b))
        n = len(b)
        if f is not None:
            k = f["k"]
            if k == "kill":
                os._exit(77)
            if k == "intr":
                raise KeyboardInterrupt()
            if k == "trunc":
                return 0
            if k == "short":
                n = max(1, int(n * f.get("frac", 0.3)))
            else:
                raise _oserr(k, self.name)
        if disk.chunk is not None and n > 1:
            n = min(n, 1 + disk.chunk.randrange(1, 97))
        return self._f.readinto(memoryview(b)[:n])

    def write(self, b):
        b = bytes(b)
        f = disk.step("write", self._rel, len(b))
        if f is not None:
            k = f["k"]
            part = b[:int(len(b) * f.get("frac", 0.0))]
            if k == "kill":
                if part:
                    self._f.write(part)
                os._exit(77)
            if k == "intr":
                raise KeyboardInterrupt()
            if k == "short":
                part = part or b[:1]
                r = self._f.write(part)
                _after("write", self._rel)
                return r
            if part:
                self._f.write(part)
                if k == "enospc":
                    # a real full disk: first the short count, then the error
                    disk.plan[disk.n] = dict(f, frac=0.0)
                    _after("write", self._rel)
                    return len(part)
            raise _oserr(k, self.name)
        if disk.chunk is not None and len(b) > 1:
            b = b[:1 + disk.chunk.randrange(len(b))]
        r = self._f.write(b)
        _after("write", self._rel)
        return r

    def close(self):
        if self.closed or not hasattr(self, "_f"):
            return
        f = None
        try:
            if disk.armed:
                f = disk.step("close", self._rel)
        finally:
            disk.open_files.pop(id(self), None)
            self._f.close()
            io.RawIOBase.close(self)
        if f is not None:
            if f["k"] == "kill":
                os._exit(77)
            if f["k"] == "intr":
                raise KeyboardInterrupt()
            raise _oserr(f["k"], self.name)


def _after(op, rel):
    if disk.observer is not None:
        disk.observer("after", disk.n - 1, op, rel)


def _sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
              newline=None, closefd=True, opener=None):
    rel = None
    if disk.armed and isinstance(file, (str, bytes, os.PathLike)) and disk.root:
        rel = disk.rel(file)
    if rel is None or opener is not None:       # (tempfile makes its files with an opener)
        return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    rawmode = mode.replace("b", "").replace("t", "").replace("U", "")
    if set(mode) - set("rwxabt+U"):
        raise ValueError("invalid mode: %r" % mode)
    raw = SimRaw(file, rawmode, rel, opener)
    if buffering == 0 and binary:
        return raw
    size = buffering if buffering > 1 else (disk.wbuf or io.DEFAULT_BUFFER_SIZE)
    try:
        if "+" in rawmode:
            buf = io.BufferedRandom(raw, size)
        elif rawmode[0] in "wax":
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        t.mode = mode
        return t
    except BaseException:
        raw.close()
        raise


# ------------------------------------------------------------------ the clock

class Clock(object):
    def __init__(self):
        self.armed = False
        self.now = 1.0e9
        self.rng = None
        self.reads = 0
        self.slept = 0.0
        self.jumps = 0


clock = Clock()


def _now():
    clock.reads += 1
    if clock.rng is not None:
        r = clock.rng.random()
        if r < 0.1:
            clock.now += clock.rng.uniform(-4e7, 4e7)     # jumps, both ways
            clock.jumps += 1
        else:
            clock.now += clock.rng.random() * 3.0
    else:
        clock.now += 0.001
    return clock.now


def _wrap_clock():
    def t():
        return _now() if clock.armed else real["time"]()

    def sleep(s):
        if not clock.armed:
            return real["sleep"](s)
        clock.slept += s
        clock.now += s

    def gmtime(s=None):
        return real["gmtime"](_now() if s is None and clock.armed else s)

    def localtime(s=None):
        return real["localtime"](_now() if s is None and clock.armed else s)

    def strftime(fmt, tt=None):
        if tt is None:
            tt = localtime()
        return real["strftime"](fmt, tt)

    def ctime(s=None):
        return real["ctime"](_now() if s is None and clock.armed else s)

    def perf():
        return _now() if clock.armed else real["perf_counter"]()

    def mono():
        return _now() if clock.armed else real["monotonic"]()
    time.time, time.sleep, time.gmtime, time.localtime = t, sleep, gmtime, localtime
    time.strftime, time.ctime, time.perf_counter = strftime, ctime, perf


# ------------------------------------------------------------------ line events

class Lines(object):
    """Line events in ahkab's own files: interrupt points, budgets, schedules."""

    def __init__(self):
        self.n = 0
        self.at = None          # raise at this event
        self.budget = None
        self.hook = None
        self.fired_at = None
        self.recording = None
        self.on_site = None


lines = Lines()
_files = {}


def is_ahkab(fn):
    r = _files.get(fn)
    if r is None:
        r = _files[fn] = os.path.realpath(fn).startswith(AHKAB)
    return r


def _local(frame, event, arg):
    if event == "line":
        n = lines.n
        lines.n = n + 1
        if lines.hook is not None:
            lines.hook(frame)
        if lines.at is not None and n == lines.at:
            lines.at = None
            lines.fired_at = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name, frame.f_lineno)
            raise KeyboardInterrupt()
        if lines.budget is not None and n > lines.budget:
            raise Budget("%d executed lines" % n)
    return _local


def _global(frame, event, arg):
    if is_ahkab(frame.f_code.co_filename):
        return _local
    return None


def trace_on(at=None, hook=None, budget=None):
    lines.n = 0
    lines.at = at
    lines.hook = hook
    lines.fired_at = None
    if budget is not None:
        lines.budget = budget
    sys.settrace(_global)


def trace_off():
    sys.settrace(None)
    lines.hook = None
    lines.at = None
    return lines.n


def line_budget(n):
    lines.budget = n
    lines.n = 0
    sys.settrace(_global)


# ------------------------------------------------------------------ life cycle

_installed = [False]


def install():
    if _installed[0]:
        return
    _installed[0] = True
    np.linalg.solve = _wrap_dense("solve", real["solve"])
    np.linalg.inv = _wrap_dense("inv", real["inv"])
    scipy.linalg.solve = _wrap_dense("sp_solve", real["sp_solve"])
    scipy.sparse.linalg.splu = _splu
    scipy.sparse.linalg.spsolve = _wrap_dense("spsolve", real["spsolve"])
    builtins.open = _sim_open
    io.open = _sim_open
    _wrap_clock()


def reset(seed):
    """State of all seams at the start of a run."""
    solver.__init__()
    disk.__init__()
    disk.root = os.path.realpath(os.getcwd())
    clock.__init__()
    clock.armed = True
    lines.__init__()
    random.seed("stdlib %r" % (seed,))
    np.random.seed(int(seed) % (2 ** 32))


def disarm():
    solver.armed = disk.armed = clock.armed = False
    lines.at = lines.hook = lines.budget = None


class solver_faults(object):
    """with solver_faults({3: 'singular'}): ..."""

    def __init__(self, plan, budget=None):
        self.plan = {int(k): v for k, v in plan.items()}
        self.budget = budget

    def __enter__(self):
        solver.calls = 0
        solver.plan = dict(self.plan)
        solver.fired = []
        if self.budget:
            solver.budget = self.budget
        solver.armed = True
        return solver

    def __exit__(self, *a):
        solver.armed = False
        solver.skip = ()
        solver.plan = {}
        return False


class eig_faults(object):
    """with eig_faults({"det0": "zero"}): the n-th inversion, determinant or eigenvalue iteration fails."""
    FAM = {"inv": [(np.linalg, "inv"), (np.linalg, "solve"), (scipy.linalg, "inv"), (scipy.linalg, "solve")],
           "det": [(np.linalg, "det"), (np.linalg, "slogdet"), (scipy.linalg, "det")],
           "eig": [(np.linalg, "eigvals"), (np.linalg, "eig"), (scipy.linalg, "eigvals"), (scipy.linalg, "eig")]}

    def __init__(self, plan):
        self.plan, self.fired, self.calls = plan, [], {"inv": 0, "det": 0, "eig": 0}
        self.kept = []

    def __enter__(self):
        for fam, fs in self.FAM.items():
            for mod, name in fs:
                self.kept.append((mod, name, getattr(mod, name)))
                setattr(mod, name, self.wrap(fam, name, getattr(mod, name)))
        return self

    def wrap(self, fam, name, f):
        def g(*a, **k):
            n = self.calls[fam]
            self.calls[fam] += 1
            if n > 5000:
                raise core_budget()
            if fam + str(n) in self.plan:
                self.fired.append(fam)
                if fam != "det":
                    raise np.linalg.LinAlgError("%s (simulated)" % {"inv": "Singular matrix", "eig": "Eigenvalues did not converge"}[fam])
                return (0.0, -np.inf) if name == "slogdet" else 0.0
            return f(*a, **k)
        return g

    def __exit__(self, *a):
        for mod, name, f in self.kept:
            setattr(mod, name, f)
        return False


def core_budget():
    from . import core
    return core.Budget("more than 5000 matrix operations")


class disk_faults(object):
    def __init__(self, plan=None, chunk_seed=None, wbuf=None, observer=None):
        self.plan = {int(k): dict(v) for k, v in (plan or {}).items()}
        self.chunk = random.Random(chunk_seed) if chunk_seed is not None else None
        self.wbuf = wbuf
        self.observer = observer

    def __enter__(self):
        disk.n = 0
        disk.plan = self.plan
        disk.trace = []
        disk.fired = []
        disk.sticky = None
        disk.chunk = self.chunk
        disk.wbuf = self.wbuf
        disk.observer = self.observer
        disk.armed = True
        return disk

    def __exit__(self, *a):
        disk.armed = False
        disk.plan = {}
        disk.observer = None
        disk.chunk = None
        disk.sticky = None
        return False


# ------------------------------------------------------------------ cleanup code

_cleanup = {}


def _cleanup_lines(fn):
    """Lines Python cannot protect from a second exception: bodies of finally
    clauses, of handlers that raise again, of __exit__/__del__, headers of with."""
    r = _cleanup.get(fn)
    if r is None:
        import ast
        r = set()

        def add(nodes):
            for n in nodes:
                r.update(range(n.lineno, n.end_lineno + 1))
        with real["open"](fn, "rb") as fp:
            tree = ast.parse(fp.read())
        for n in ast.walk(tree):
            if isinstance(n, ast.Try):
                add(n.finalbody)
                for h in n.handlers:
                    if any(isinstance(x, ast.Raise) and x.exc is None for x in h.body):
                        add(h.body)
                        r.add(h.lineno)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                r.update(range(n.lineno, n.body[0].lineno))
            elif isinstance(n, ast.FunctionDef) and n.name in ("__exit__", "__del__"):
                add(n.body)
        _cleanup[fn] = r
    return r


def in_cleanup(frame):
    while frame is not None:
        fn = frame.f_code.co_filename
        if is_ahkab(fn) and frame.f_lineno in _cleanup_lines(fn):
            return True
        frame = frame.f_back
    return False


_hot = {}


def hot_lines(fn):
    """Lines of functions which assign attributes of objects made elsewhere (not constructors)."""
    r = _hot.get(fn)
    if r is None:
        import ast
        r = set()
        with real["open"](fn, "rb") as fp:
            tree = ast.parse(fp.read())
        for n in ast.walk(tree):
            if not isinstance(n, ast.FunctionDef) or n.name == "__init__":
                continue
            st = [x for x in ast.walk(n) if isinstance(x, (ast.Assign, ast.AugAssign, ast.Global))]
            for x in st:
                ts = [] if isinstance(x, ast.Global) else x.targets if isinstance(x, ast.Assign) else [x.target]
                ts = [t for y in ts for t in (y.elts if isinstance(y, (ast.Tuple, ast.List)) else [y])]
                if isinstance(x, ast.Global) or any(isinstance(t, ast.Attribute) for t in ts):
                    r.update(range(n.body[0].lineno, n.end_lineno + 1))
                    break
        _hot[fn] = r
    return r
