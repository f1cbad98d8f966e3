"""Seams: module loading, files, clock, root finder, warnings, process-wide audit."""
import builtins
import errno
import importlib.abc
import importlib.machinery
import importlib.util
import io
import os
import random
import sys
import threading
import time as _time

from . import kernel

ROOT = os.environ.get("DST_REPO", "/repo")
LIB = os.path.join(ROOT, "ries")

real_open = builtins.open
real_time = _time.time
real_perf = _time.perf_counter


# ------------------------------------------------------------------------------------------------
# module loading: always from source, code objects registered for instrumentation


class Loader(importlib.machinery.SourceFileLoader):
    arm_on_load = False  # instruction events also while modules are being executed
    live = False  # loading is itself the operation under test (load.py)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with real_open(path, "rb") as f:
            src = f.read()
        code = compile(src, path, "exec", dont_inherit=True)
        n = len(kernel.CODES)
        kernel.register_code(code)
        if Loader.arm_on_load:
            kernel.arm(kernel.CODES[n:], module_level=True)
        return code

    def exec_module(self, module):
        sim, c = kernel.client()
        # a module loaded lazily by a client: no scheduling while the import lock is held
        if c is not None and not Loader.live:
            c.block += 1
            try:
                super().exec_module(module)
            finally:
                c.block -= 1
        else:
            super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "ries" and not fullname.startswith("ries."):
            return None
        base = os.path.join(ROOT, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=Loader(fullname, init), submodule_search_locations=[base]
            )
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, base + ".py", loader=Loader(fullname, base + ".py")
            )
        return None


# ------------------------------------------------------------------------------------------------
# files


class Injected(OSError):
    pass


def injected_oserror(eno):
    e = OSError(eno, os.strerror(eno) + " (injected)")
    e.injected = True
    return e


class SimFS:
    def __init__(self):
        self.roots = [LIB + os.sep]
        self.table = {}  # id -> (path, client idx, op)
        self.seq = 0
        self.opens = 0
        self.reads = 0
        self.bytes = 0
        self.writes = []

    def covers(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not isinstance(p, str):
            return None
        q = os.path.abspath(p)
        if q.endswith((".py", ".pyc", ".so")):
            return None
        for r in self.roots:
            if q.startswith(r):
                return q
        return None

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        sim, c = kernel.client()
        path = self.covers(file) if not isinstance(file, int) else None
        if c is None or c.block or path is None or set(mode) & set("wax+"):
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.opens += 1
        sim.seam_point(c)
        self._io_fault(sim, c, "open")
        raw = SimRaw(self, path, sim, c)
        if "b" in mode and buffering == 0:
            return raw
        buf = io.BufferedReader(raw, 8192 if buffering in (-1, 0, 1) else buffering)
        if "b" in mode:
            return buf
        try:
            t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
        except BaseException:
            buf.close()
            raise
        t.mode = mode
        return t

    def _io_fault(self, sim, c, what):
        i = c.io_n
        c.io_n += 1
        f = c.iofaults.pop(i, None)
        if f is None:
            return None
        k = f["kind"]
        if k.startswith("errno:"):
            name = k.split(":")[1]
            c.fired.append(k)
            sim.count("%s %s" % (what, name))
            e = injected_oserror(getattr(errno, name))
            c.exc_fired.append(e)
            sim.note("io", c.idx, c.op, i, k)
            raise e
        if k in kernel.INTERRUPTS:
            c.fired.append(k)
            sim.count("%s in %s" % (k, what))
            e = kernel.INTERRUPTS[k]("injected")
            c.exc_fired.append(e)
            sim.note("io", c.idx, c.op, i, k)
            raise e
        return f


class SimRaw(io.RawIOBase):
    def __init__(self, fs, path, sim, c):
        super().__init__()
        self.fs = fs
        self._f = io.FileIO(path, "r")
        self.name = path
        self.mode = "rb"
        fs.seq += 1
        self.key = fs.seq
        fs.table[self.key] = (path, c.idx, c.op)
        self.sim = sim
        self.c = c
        self.rng = random.Random("%s/io/%d/%s/%d" % (sim.seed, c.idx, c.op, c.io_n))
        self.dead = False

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, pos, whence=0):
        return self._f.seek(pos, whence)

    def tell(self):
        return self._f.tell()

    def fileno(self):
        return self._f.fileno()

    def readinto(self, b):
        sim, c = kernel.client()
        if c is None:
            return self._f.readinto(b)
        fs = self.fs
        fs.reads += 1
        if not c.block:
            c.in_read = True
            sim.seam_point(c)
            c.in_read = False
        f = fs._io_fault(sim, c, "read") if not c.block else None
        chunk = sim.cfg.get("chunk", 0)
        n = len(b)
        if chunk:
            n = min(n, 1 + self.rng.randrange(2 * chunk))
            sim.count("short read")
        if f is not None and f["kind"] == "EINTR":
            sim.count("EINTR")
            raise InterruptedError(errno.EINTR, "interrupted (injected)")
        m = memoryview(b)[:n]
        r = self._f.readinto(m)
        fs.bytes += r or 0
        return r

    def close(self):
        if not self.closed:
            self.fs.table.pop(self.key, None)
            try:
                self._f.close()
            finally:
                super().close()


FS = SimFS()

_WRITE_EVENTS = {
    "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.truncate", "os.link", "os.symlink",
    "os.chmod", "os.chown", "os.utime", "shutil.rmtree", "shutil.move", "shutil.copyfile",
    "os.putenv", "os.chdir", "subprocess.Popen", "os.system", "os.fork", "os.exec", "os.kill",
}


def audit_hook(event, args):
    if event not in _WRITE_EVENTS and event != "open":
        return
    sim, c = kernel.client()
    if c is None or c.block:
        return
    if event == "open":
        path, mode, flags = args
        acc = (flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
        if not acc or isinstance(path, int):
            return
        if str(path) in ("/dev/null",):
            return
        detail = "open for writing: %s" % (path,)
    else:
        detail = "%s%r" % (event, args[:2])
    FS.writes.append((c.idx, c.op, event, detail))
    raise PermissionError(errno.EROFS, "blocked by the simulator: " + detail)


# ------------------------------------------------------------------------------------------------
# clock


class Clock:
    base = 1_700_000_000.0

    @staticmethod
    def now():
        sim, c = kernel.client()
        if c is None or c.block:
            return None
        sim.count("clock read")
        return Clock.base + sim.sim_time + sim.cfg.get("clock_off", 0.0) + (
            0.0 if sim.cfg.get("clock_frozen") else c.n * sim.time_scale
        )


def _wrap_time(name, conv):
    real = getattr(_time, name)

    def f(*a):
        t = Clock.now()
        return real(*a) if t is None else conv(t)

    f.__name__ = name
    setattr(_time, name, f)


def install_clock():
    for n in ("time", "monotonic", "perf_counter", "process_time", "thread_time"):
        _wrap_time(n, lambda t: t)
    for n in ("time_ns", "monotonic_ns", "perf_counter_ns", "process_time_ns"):
        _wrap_time(n, lambda t: int(t * 1e9))
    real_sleep = _time.sleep

    def sleep(s):
        sim, c = kernel.client()
        if c is None or c.block:
            return real_sleep(s)
        sim.sim_time += s
        sim.seam_point(c)

    _time.sleep = sleep


# ------------------------------------------------------------------------------------------------
# root finder


def install_solver():
    import numpy as np
    import warnings
    import scipy.optimize as so

    real = so.newton

    def newton(func, x0, fprime=None, args=(), tol=1.48e-8, maxiter=50, fprime2=None, x1=None, rtol=0.0,
               full_output=False, disp=True):
        sim, c = kernel.client()
        f = None
        if c is not None and not c.block:
            i = c.solver_n
            c.solver_n += 1
            f = c.solverfaults.pop(i, None)
        kw = dict(fprime=fprime, args=args, tol=tol, maxiter=maxiter, fprime2=fprime2, x1=x1, rtol=rtol,
                  full_output=full_output, disp=disp)
        if f is None:
            return real(func, x0, **kw)
        kind = f["kind"]
        size = np.size(x0)
        if kind == "partial" and (size < 2 or not full_output):
            kind = "total"
        c.fired.append("solver:" + kind)
        sim.count("solver %s failure" % kind)
        sim.note("solver", c.idx, c.op, kind)
        if kind == "total":
            if size > 1:
                raise RuntimeError("derivative was zero or failed to converge after %d iterations (injected)" % maxiter)
            if disp:
                raise RuntimeError("Failed to converge after %d iterations (injected)" % maxiter)
            kw["maxiter"] = 1
            return real(func, x0, **kw)
        r = real(func, x0, **kw)
        root = np.array(r[0], dtype=float)
        conv = np.array(r[1], dtype=bool)
        zero = np.array(r[2], dtype=bool)
        bad = random.Random("%s/solver/%d/%s" % (sim.seed, c.idx, c.op))
        idx = [k for k in range(size) if bad.random() < 0.4] or [size - 1]
        if len(idx) == size:
            idx = idx[1:]
        for k in idx:
            root[k] = root[k] * 3 + 17.0 if bad.random() < 0.7 else np.nan
            conv[k] = False
        warnings.warn("some failed to converge after %d iterations (injected)" % maxiter, RuntimeWarning)
        return type(r)(root, conv, zero)

    so.newton = newton
    import scipy.optimize._zeros_py as z

    z.newton = newton


# ------------------------------------------------------------------------------------------------


def install(lib_io=True):
    """installs all seams in this process (before the library is imported)"""
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder())
    builtins.open = FS.open
    io.open = FS.open
    install_clock()
    install_solver()
    kernel.install_locks()
