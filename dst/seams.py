"""Seams: every source of nondeterminism bfit touches is routed through here.

``install()`` must run before ``bfit`` is imported, because bfit binds some of the names at
import time (``from timeit import default_timer``, ``from scipy.optimize import minimize``).
The replacements delegate to the real thing until a simulation is active in this process
(``SIM.active``), which only ever happens in a forked child.
"""
import builtins
import io
import os
import random
import sys
import threading
import time
import timeit
import types

REPO = os.path.realpath(os.environ.get("BFIT_REPO", "/repo"))
PKG = os.path.join(REPO, "bfit")
DATA = os.path.join(PKG, "data")


Real = types.SimpleNamespace(          # the genuine functions, for the harness itself
    time=time.time, perf_counter=time.perf_counter, monotonic=time.monotonic, sleep=time.sleep,
    open=builtins.open, Lock=threading.Lock, RLock=threading.RLock, stdout=sys.stdout,
    stderr=sys.stderr, FileIO=io.FileIO, os_open=os.open, os_read=os.read, os_close=os.close,
    os_fstat=os.fstat, os_lseek=os.lseek, os_stat=os.stat, os_access=os.access,
    os_memfd_create=getattr(os, "memfd_create", None))


class SimClock:
    """Simulated time. Nothing but `advance` and scripted wall jumps moves it."""

    def __init__(self, mono=1000.0, wall=1.7e9, tick=1e-6, jumps=None):
        self.mono0 = self.mono = mono
        self.wall = wall
        self.cpu = 5.0                     # waiting for I/O or plugins uses no CPU time
        self.tick = tick
        self.reads = 0
        self.jumps = dict(jumps or {})     # advance-event number -> wall offset
        self.events = 0
        self.jumped = 0

    def advance(self, dt):
        self.events += 1
        self.mono += dt
        self.wall += dt
        if self.events in self.jumps:
            self.wall += self.jumps[self.events]
            self.jumped += 1

    def _read(self):
        self.reads += 1
        self.mono += self.tick
        self.wall += self.tick
        self.cpu += self.tick

    def read_mono(self):
        self._read()
        return self.mono

    def read_cpu(self):
        self._read()
        return self.cpu

    def read_wall(self):
        self._read()
        return self.wall


class Sim:
    """State of the simulation in this (forked) process."""

    def __init__(self):
        self.active = False
        self.clock = SimClock()
        self.sched = None            # thread scheduler, if threads are simulated
        self.fs = None               # simio.SimFS or None
        self.optimizer = None        # callable(real_minimize, *a, **k) or None
        self.rng = None              # per-thread random draws: callable(shape) or None
        self.entropy = None          # what the operating system's random source delivers
        self.counts = {}             # fault kind -> times fired
        self.probes = {}             # rare condition -> times reached
        self.asked = set()           # environment variables that the package asked for
        self.asked_files = set()     # names of files, not its own, that the package looked for
        self.present = {}            # of those, the ones that are there: name -> what is found
        self.deeds = []              # what the package tried to do to the machine
        self.lone = False            # one thread is at work at any time, all others only wait

    def fired(self, kind, n=1):
        self.counts[kind] = self.counts.get(kind, 0) + n

    def reached(self, what):
        self.probes[what] = self.probes.get(what, 0) + 1


SIM = Sim()


class SimLock:
    """A lock that the simulated scheduler understands (a real lock outside of it)."""

    def __init__(self, reentrant=False):
        self._real = Real.RLock() if reentrant else Real.Lock()
        self._reentrant = reentrant
        self._owner = None
        self._depth = 0

    def acquire(self, blocking=True, timeout=-1):
        sched = SIM.sched
        if sched is None or not sched.managed():
            if not SIM.active or not blocking or timeout >= 0:
                return self._real.acquire(blocking, timeout)
            # nobody is left who could release it: say so instead of waiting for ever
            if self._owner is None and self._real.acquire(
                    True, 0 if SIM.lone or threading.active_count() == 1 else 20):
                return True
            from .sched import Hang
            raise Hang("a lock was never released")
        me = sched.current
        while True:
            if self._owner is None:
                self._owner, self._depth = me, 1
                return True
            if self._reentrant and self._owner == me:
                self._depth += 1
                return True
            if not blocking or timeout == 0:
                return False
            sched.block(self)

    def release(self):
        sched = SIM.sched
        if sched is None or not sched.managed():
            return self._real.release()
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._depth -= 1
        if self._depth == 0:
            self._owner = None

    def locked(self):
        sched = SIM.sched
        if sched is None or not sched.managed():
            got = self._real.acquire(False)
            if got:
                self._real.release()
            return not got
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *_):
        self.release()


_HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep
_DEEDS = {"os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.truncate", "os.chmod", "os.chown",
          "os.link", "os.symlink", "os.utime", "os.kill", "os.killpg", "os.system", "os.exec",
          "os.fork", "os.forkpty", "os.posix_spawn", "os.spawn", "os.setxattr", "subprocess.Popen", "socket.connect", "socket.bind", "socket.sendto",
          "socket.getaddrinfo", "shutil.rmtree", "shutil.move", "shutil.copyfile",
          "tempfile.mkstemp", "tempfile.mkdtemp", "sqlite3.connect", "signal.pthread_kill",
          "syslog.syslog", "webbrowser.open"}
_WRITES = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


_SEAMS = {"sim_open", "os_open", "os_stat", "os_access", "elsewhere"}


def _by_package():
    """Whether the package (and not a plugin called by it) is what runs at this moment."""
    frame = sys._getframe(2)
    while frame is not None:
        name = frame.f_code.co_filename
        if name.startswith(_HERE) and frame.f_code.co_name not in _SEAMS:
            return False
        if name.startswith(PKG + os.sep):
            return True
        frame = frame.f_back
    return False


#: where files stand that nobody would call settings
_INSTALLED = tuple({os.path.realpath(p) + os.sep for p in (
    sys.prefix, sys.base_prefix, os.path.dirname(os.__file__), "/proc", "/sys", "/dev")})


def elsewhere(path):
    """The path the machine has for it; notes what the package looks for outside of itself."""
    if not SIM.active or not isinstance(path, (str, bytes, os.PathLike)):
        return path
    try:
        full = os.fsdecode(os.path.join(os.getcwd() if not os.path.isabs(path) else "/", path)
                           if not isinstance(path, bytes) else path)
    except (OSError, TypeError):
        full = os.fsdecode(path)
    if full.startswith((PKG + os.sep, REPO + os.sep, _HERE) + _INSTALLED) or not _by_package():
        return path
    name = os.path.basename(full)
    SIM.asked_files.add(name)
    if name in SIM.present:
        SIM.reached("file asked for is there")
        return SIM.present[name]
    return path


def audit(event, args):
    """The package only computes: anything it does to the machine is noted and refused."""
    if not SIM.active:
        return
    if event == "open":
        path, mode, flags = args
        if not ((isinstance(mode, str) and set(mode) & set("wax+"))
                or (isinstance(flags, int) and flags & _WRITES)):
            return
        if path == os.devnull or isinstance(path, int):
            return
    elif event not in _DEEDS:
        return
    if not _by_package():
        return
    SIM.deeds.append(f"{event} {str(args)[:120]}")
    raise PermissionError(13, "the simulated machine refuses", str(args)[:120])


def install():
    """Patch the seams and import bfit from the working tree."""
    import numpy as np
    import scipy.optimize

    def mono():
        return SIM.clock.read_mono() if SIM.active else Real.perf_counter()

    def mono2():
        return SIM.clock.read_mono() if SIM.active else Real.monotonic()

    def wall():
        return SIM.clock.read_wall() if SIM.active else Real.time()

    def sleep(dt):
        if SIM.active:
            SIM.clock.advance(max(0.0, dt))
        else:
            Real.sleep(dt)

    time.perf_counter = mono
    time.perf_counter_ns = lambda: int(mono() * 1e9)
    time.monotonic = mono2
    time.monotonic_ns = lambda: int(mono2() * 1e9)
    def cpu():
        return SIM.clock.read_cpu() if SIM.active else real_cpu()

    real_cpu = time.process_time
    time.process_time = cpu
    time.thread_time = cpu
    time.process_time_ns = lambda: int(cpu() * 1e9)
    time.thread_time_ns = lambda: int(cpu() * 1e9)
    time.time = wall
    time.time_ns = lambda: int(wall() * 1e9)
    time.sleep = sleep
    timeit.default_timer = mono

    real_minimize = scipy.optimize.minimize

    def minimize(*args, **kwargs):
        if SIM.active and SIM.optimizer is not None:
            return SIM.optimizer(real_minimize, *args, **kwargs)
        return real_minimize(*args, **kwargs)

    minimize.real = real_minimize
    scipy.optimize.minimize = minimize

    def draw(real):
        def inner(*args, **kwargs):
            if SIM.active and SIM.rng is not None:
                return SIM.rng(real, args, kwargs)
            return real(*args, **kwargs)
        return inner

    for name in ("random", "random_sample", "ranf", "sample", "rand", "uniform"):
        if hasattr(np.random, name):
            setattr(np.random, name, draw(getattr(np.random, name)))

    # the operating system's source of randomness
    import secrets

    import numpy.random.bit_generator as bit_generator
    real_bits, real_urandom = secrets.randbits, os.urandom

    def randbits(k):
        if SIM.active and SIM.entropy is not None:
            SIM.fired("entropy")
            return SIM.entropy.getrandbits(k)
        return real_bits(k)

    def urandom(n):
        if SIM.active and SIM.entropy is not None:
            SIM.fired("entropy")
            return SIM.entropy.randbytes(n)
        return real_urandom(n)

    secrets.randbits = randbits
    if hasattr(bit_generator, "randbits"):
        bit_generator.randbits = randbits
    os.urandom = urandom
    if hasattr(random, "_urandom"):
        random._urandom = urandom

    # which environment variables the package asks for
    def spy(real):
        def inner(self, key, *rest):
            frame = sys._getframe(1)
            while frame is not None and frame.f_code.co_filename.startswith("<frozen"):
                frame = frame.f_back
            for _ in range(3):           # os.getenv and the like stand in between
                if frame is None:
                    break
                name = frame.f_code.co_filename
                if name.startswith(PKG + os.sep):
                    SIM.asked.add(str(key))
                frame = frame.f_back
            return real(self, key, *rest)
        return inner

    env = type(os.environ)
    env.__getitem__ = spy(env.__getitem__)
    env.__contains__ = spy(env.__contains__)

    real_open = Real.open

    def on_disk(file):
        return SIM.active and SIM.fs is not None and (
            file in SIM.fs.fds if isinstance(file, int) else SIM.fs.owns(file))

    def sim_open(file, *args, **kwargs):
        if on_disk(file):
            return SIM.fs.open(file, *args, **kwargs)
        return real_open(elsewhere(file), *args, **kwargs)

    builtins.open = sim_open
    io.open = sim_open
    import numpy.lib._datasource as datasource
    getattr(datasource._file_openers, "_file_openers", {})[None] = sim_open

    # the same disk for code that works with system calls
    class SimFileIO(Real.FileIO):
        def __new__(cls, file, mode="r", *args, **kwargs):
            if on_disk(file):
                return SIM.fs.open(file, mode, 0)
            return Real.FileIO(file, mode, *args, **kwargs)

    io.FileIO = SimFileIO
    sys.modules["_io"].FileIO = SimFileIO
    real_code = io.open_code

    def open_code(path):
        return SIM.fs.open(path, "rb") if on_disk(path) else real_code(path)

    io.open_code = sys.modules["_io"].open_code = open_code

    def os_open(path, flags, *args, **kwargs):
        if not isinstance(path, int) and on_disk(path):
            return SIM.fs.os_open(path, flags)
        return Real.os_open(elsewhere(path), flags, *args, **kwargs)

    def os_read(fd, size):
        return SIM.fs.os_read(fd, size) if on_disk(fd) else Real.os_read(fd, size)

    def os_close(fd):
        return SIM.fs.fds[fd].close() if on_disk(fd) else Real.os_close(fd)

    def os_lseek(fd, *args):
        return SIM.fs.fds[fd].seek(*args) if on_disk(fd) else Real.os_lseek(fd, *args)

    def os_stat(path, **kwargs):
        if not isinstance(path, int) and on_disk(path):
            return SIM.fs.os_stat(path, Real.os_stat)
        return Real.os_stat(elsewhere(path), **kwargs)

    def os_access(path, *args, **kwargs):
        return Real.os_access(elsewhere(path), *args, **kwargs)

    os.access = os_access

    os.open, os.read, os.close, os.lseek, os.stat = os_open, os_read, os_close, os_lseek, os_stat

    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != REPO]
    sys.path.insert(0, REPO)
    # locks created by the package (today there are none) are simulated as well
    def factory(real, reentrant):
        def make(*args):
            name = sys._getframe(1).f_code.co_filename
            if os.path.isabs(name) and os.path.realpath(name).startswith(PKG + os.sep):
                return SimLock(reentrant)
            return real(*args)
        return make

    sys.addaudithook(audit)
    threading.Lock = factory(Real.Lock, False)
    threading.RLock = factory(Real.RLock, True)
    import bfit
    import bfit.density
    import bfit.fit
    import bfit.greedy
    import bfit.grid
    import bfit.measure
    import bfit.model
    import bfit.parse_ugbs
    where = os.path.realpath(os.path.dirname(bfit.__file__))
    if where != os.path.realpath(PKG):
        raise RuntimeError(f"bfit was imported from {where} and not from {PKG}")
    return bfit
