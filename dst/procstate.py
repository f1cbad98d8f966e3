"""Snapshot of the process-wide state that belongs to the caller."""
import builtins
import gc
import hashlib
import io
import locale
import logging
import os
import random
import signal
import sys
import threading
import time
import warnings

import numpy as np
import scipy.constants
import scipy.integrate
import scipy.interpolate
import scipy.optimize
import scipy.special
import scipy.stats


def _h(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).hexdigest()


_MODULES = (np, scipy.constants, scipy.integrate, scipy.interpolate, scipy.optimize, scipy.special, scipy.stats, warnings, os, io, builtins,
            time, random, threading, np.random, np.linalg)
_SKIP = {("warnings", "filters"), ("warnings", "_filters_version"), ("warnings", "_defaultaction"), ("warnings", "_onceregistry"), ("os", "environ")}


def simple(v):
    return isinstance(v, (int, float, str, bool, bytes, type(None), tuple))


def snapshot(umask=True):
    s = {}
    s["floating-point error mode"] = dict(np.geterr(), call=repr(np.geterrcall()), buf=np.getbufsize())
    s["special-function error mode"] = scipy.special.geterr()
    s["print options"] = repr(sorted(np.get_printoptions().items(), key=str))
    s["warning filters"] = repr(warnings.filters)
    s["warning default"] = (warnings.defaultaction, id(warnings.showwarning), id(warnings.formatwarning), id(warnings.warn))
    s["random generator"] = _h(random.getstate())
    st = np.random.get_state()
    s["numpy random generator"] = _h((st[0], st[1].tobytes(), st[2:]))
    s["working directory"] = os.getcwd()
    s["environment"] = dict(os.environ)
    s["module search path"] = list(sys.path)
    s["interpreter"] = (sys.getrecursionlimit(), sys.getswitchinterval(), sys.gettrace(), sys.getprofile(), id(sys.excepthook),
                        id(sys.displayhook), id(sys.stdout), id(sys.stderr), gc.isenabled(), gc.get_threshold(), id(threading.excepthook), id(sys.stdin), len(sys.meta_path), len(sys.path_hooks), sys.get_int_max_str_digits())
    s["signal handlers"] = [repr(signal.getsignal(k)) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGCHLD)] + [
        signal.getitimer(signal.ITIMER_REAL)]
    s["logging"] = (logging.root.level, [id(h) for h in logging.root.handlers], logging.root.manager.disable, id(logging.getLoggerClass()))
    s["locale"] = locale.setlocale(locale.LC_ALL)
    if umask:
        u = os.umask(0o22)
        os.umask(u)
        s["file creation mask"] = u
    s["physical constants"] = _h(sorted(scipy.constants.physical_constants.items()))
    for d in ("norm", "cauchy", "uniform"):
        o = getattr(scipy.stats, d)
        s["distribution " + d] = sorted((k, v if simple(v) else id(v)) for k, v in vars(o).items())
    s["threads"] = sorted(t.name for t in threading.enumerate() if not getattr(t, "dst", False) and t.is_alive())
    return s


def module_attrs():
    r = {}
    for m in _MODULES:
        for k, v in list(vars(m).items()):
            if (m.__name__, k) not in _SKIP and not k.startswith("__"):
                r[m.__name__, k] = v
    return r


def diff(a, b):
    out = []
    for k in a:
        if a[k] != b.get(k):
            out.append("%s: %s" % (k, _what(a[k], b.get(k))))
    return out


def _what(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return str({k: (a.get(k), b.get(k)) for k in sorted(set(a) | set(b), key=str) if a.get(k) != b.get(k)})[:200]
    return "%s became %s" % (str(a)[:100], str(b)[:100])


def attrs_diff(a, b):
    return ["attribute %s.%s replaced" % k for k in a if k not in b or a[k] is not b[k]]


def open_fds():
    r = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            r[int(f)] = os.readlink("/proc/self/fd/" + f)
        except OSError:
            pass
    return r
