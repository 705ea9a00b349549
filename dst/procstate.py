"""Snapshot of the process-wide settings a library has no business changing."""
import atexit
import builtins
import codecs
import copyreg
import decimal
import faulthandler
import gc
import hashlib
import io
import json
import locale
import logging
import math
import multiprocessing
import os
import random
import resource
import signal
import socket
import sys
import threading
import time
import tracemalloc
import types
import warnings

import numpy as np
import scipy.linalg
import scipy.optimize
import scipy.special

#: whose functions nobody but their owner replaces
MODULES = [builtins, codecs, io, json, math, os, random, signal, sys, threading, time, types,
           warnings, np, np.linalg, np.random, scipy.linalg, scipy.optimize, scipy.special]


def functions():
    """The functions and classes of the libraries in use, by identity."""
    return {f"{m.__name__}.{k}": id(v) for m in MODULES for k, v in list(vars(m).items())
            if callable(v) and not k.startswith("__")}


def noop(*_):
    """Stands for the handlers and hooks of a caller."""


#: what a caller may have set before he calls the library
CALLER = {
    "gc.off": gc.disable,
    "gc.threshold": lambda: gc.set_threshold(500, 7, 7),
    "profile": lambda: sys.setprofile(noop),
    "filters": lambda: (warnings.filterwarnings("ignore", "mine", UserWarning),
                        warnings.filterwarnings("always", "theirs", RuntimeWarning)),
    "showwarning": lambda: setattr(warnings, "showwarning", noop),
    "print": lambda: np.set_printoptions(precision=3, suppress=True, linewidth=60),
    "seterr": lambda: np.seterr(over="ignore", divide="ignore", under="warn"),
    "seterr.ignore": lambda: np.seterr(all="ignore"),
    "seterr.call": lambda: (np.seterrcall(noop), np.seterr(over="call")),
    "bufsize": lambda: np.setbufsize(16384),
    "recursion": lambda: sys.setrecursionlimit(4000),
    "decimal": lambda: setattr(decimal.getcontext(), "prec", 50),
    "logging": lambda: (logging.root.setLevel(logging.DEBUG),
                        logging.root.addHandler(logging.NullHandler())),
    "logging.off": lambda: logging.disable(logging.CRITICAL),
    "sigterm": lambda: signal.signal(signal.SIGTERM, signal.SIG_IGN),
    "sigint": lambda: signal.signal(signal.SIGINT, noop),
    "switch": lambda: sys.setswitchinterval(0.002),
    "excepthook": lambda: setattr(sys, "excepthook", noop),
    "environment": lambda: os.environ.update(OMP_NUM_THREADS="3", BFIT_MINE="1"),
    "umask": lambda: os.umask(0o077),
    "socket": lambda: socket.setdefaulttimeout(7.0),
    "stack": lambda: threading.stack_size(4 * 1024 * 1024),
    "nofile": lambda: resource.setrlimit(
        resource.RLIMIT_NOFILE, (512, resource.getrlimit(resource.RLIMIT_NOFILE)[1])),
    "displayhook": lambda: setattr(sys, "displayhook", noop),
    "faulthandler": lambda: faulthandler.disable(),
}


def snapshot():
    state = np.random.get_state(legacy=True)
    return {
        "functions": functions(),
        "profile function": id(sys.getprofile()),
        "profile function of new threads": id(threading.getprofile()),
        "switch interval": sys.getswitchinterval(),
        "hooks": tuple(id(h) for h in (
            sys.excepthook, sys.displayhook, sys.breakpointhook, sys.unraisablehook,
            threading.excepthook, warnings.showwarning, warnings.formatwarning)),
        "umask": umask(),
        "socket timeout": socket.getdefaulttimeout(),
        "limits": tuple(resource.getrlimit(k) for k in (
            resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_CPU,
            resource.RLIMIT_STACK, resource.RLIMIT_CORE, resource.RLIMIT_FSIZE)),
        "priority": os.getpriority(os.PRIO_PROCESS, 0),
        "affinity": tuple(sorted(os.sched_getaffinity(0))),
        "time zone": (time.tzname, time.timezone),
        "bytecode": sys.dont_write_bytecode,
        "digits of integers": sys.get_int_max_str_digits(),
        "faulthandler": faulthandler.is_enabled(),
        "tracemalloc": tracemalloc.is_tracing(),
        "start method": multiprocessing.get_start_method(allow_none=True),
        "pickling": len(copyreg.dispatch_table),
        "stack size": stack_size(),
        "import hooks": (len(sys.meta_path), len(sys.path_hooks)),
        "gc callbacks": (len(gc.callbacks), gc.get_debug()),
        "alarm": tuple(repr(signal.getitimer(k)) for k in (signal.ITIMER_VIRTUAL,
                                                           signal.ITIMER_PROF)),
        "signals": tuple(id(signal.getsignal(s)) for s in (
            signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGHUP, signal.SIGUSR1,
            signal.SIGUSR2, signal.SIGCHLD, signal.SIGPIPE, signal.SIGFPE)),
        "logging off": logging.root.manager.disable,
        "numpy error handling": repr(sorted(np.geterr().items())),
        "numpy error callback": repr(np.geterrcall()),
        "numpy print options": repr(sorted((k, repr(v)) for k, v in
                                           np.get_printoptions().items())),
        "numpy buffer size": np.getbufsize(),
        "numpy random state": hashlib.sha256(state[1].tobytes()
                                             + repr(state[2:]).encode()).hexdigest(),
        "random state": hashlib.sha256(repr(random.getstate()).encode()).hexdigest(),
        "warning filters": repr(warnings.filters),
        "showwarning": repr(getattr(warnings.showwarning, "__module__", None)),
        "working directory": os.getcwd(),
        "environment": repr(sorted(os.environ.items())),
        "recursion limit": sys.getrecursionlimit(),
        "sys.path": repr(sys.path),
        "excepthook": getattr(sys.excepthook, "__name__", "?"),
        "SIGINT handler": repr(getattr(signal.getsignal(signal.SIGINT), "__name__", "?")),
        "SIGTERM handler": repr(signal.getsignal(signal.SIGTERM)),
        "interval timer": repr(signal.getitimer(signal.ITIMER_REAL)),
        "gc": (gc.isenabled(), gc.get_threshold()),
        "threads": threading.active_count(),
        "decimal traps": repr(decimal.getcontext()),
        "locale": locale.setlocale(locale.LC_ALL),
        "logging": (logging.root.level, len(logging.root.handlers)),
        "decimal": repr(decimal.getcontext().prec),
        "stdout": id(sys.stdout), "stderr": id(sys.stderr),
        "exit handlers": atexit._ncallbacks(),
        "open files": len(os.listdir("/proc/self/fd")),
    }


def umask():
    now = os.umask(0)
    os.umask(now)
    return now


def stack_size():
    # reading it sets it
    now = threading.stack_size()
    threading.stack_size(now)
    return now


def changed(before, after, rng):
    out = [k for k in before if k != "functions" and before[k] != after[k]
           and (rng or k not in ("numpy random state", "random state"))]
    # a module may load more of itself when it is used: what was there stays what it was
    now = after["functions"]
    return out + [f"function {k}" for k, v in before["functions"].items() if now.get(k) != v]
