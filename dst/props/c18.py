"""C18: ambient settings of the process do not leak into the results."""
import contextlib
import copy
import decimal
import gc
import getpass
import logging
import os
import platform
import random
import resource
import shutil
import signal
import socket
import sys
import tempfile
import threading
import time
import types
import warnings

import numpy as np

from ..common import (alone, call_roots, drop_each, fork_run, guarded, label, needed,
                      simpler_calls, simpler_specs, use_stream)
from ..engine import child_info
from ..gen import PROPS, shared_world
from ..props.c01 import build_call
from ..sched import Budget, Hang
from ..seams import SIM, Real
from ..world import World, canon, exc_canon, same

LEVEL = "exploration"
RUNS = {"quick": 1000, "thorough": 40000}
RULE = ("One run = 1-5 public API calls on shared objects; before each call, and at a seeded "
        "integration, measure or model call in the middle of it, the ambient state of the process "
        "is changed: working directory (existing, deleted, holding decoy data files), environment, "
        "numpy print options, error state and buffer size, warning filters, decimal context, "
        "recursion depth, collector, random streams, calling thread, switch interval, what the "
        "machine says of itself (processors, process, host, user, limits, loaded modules, time "
        "zone), files the package looks for, repeated calls. Each result is compared with the same call on fresh objects in a default process. "
        "Non-trivial: at least one setting was changed. distinct_nontrivial counts distinct "
        "sequences of (settings, call kind).")
MEASURE = "sequence of (set of ambient settings, call kind)"
REAL = ["all of bfit", "numpy", "scipy.optimize", "ambient settings of a forked process"]
STUB = ["clock", "stdout", "random stream of the package's own draws (one per call)",
        "user plug-ins that change settings in the middle of a call"]
ASSUMPTIONS = ["settings that turn warnings or floating-point conditions into errors may make a "
               "call raise that error"]
MUST_FIRE = ["ambient.cwd", "ambient.errstate", "ambient.printoptions", "ambient.env",
             "ambient.warnings", "ambient.mid", "ambient.machine", "ambient.files"]
ELEMENTS = ["h", "he", "c", "ne", "p", "cl", "k", "ag", "xe"]


def setting(r, strict):
    """One random ambient setting (plain JSON)."""
    kind = r.choice(["cwd", "cwd", "env", "printoptions", "errstate", "errstate", "bufsize",
                     "warnings", "decimal", "depth", "gc", "random", "thread", "switch",
                     "repeat", "repeat", "files", "machine", "machine"])
    if kind == "files":
        return [kind, r.choice(["", "", "1\n", "{}", "[bfit]\nmask_value = 1.0\n", "0.5 2\n",
                                "dir"])]
    if kind == "machine":
        return [kind, r.choice([{"cpus": 1}, {"cpus": 64}, {"cpus": None}, {"pid": 1},
                                {"pid": 4194303}, {"host": "node-7"}, {"argv": [""]},
                                {"argv": ["prog", "--debug", "-v"]}, {"ps1": ">>> "},
                                {"modules": ["IPython", "ipykernel"]},
                                {"modules": ["pytest", "_pytest", "coverage"]},
                                {"modules": ["numba", "joblib", "tqdm"]},
                                {"modules": ["mpi4py", "matplotlib", "pdb"]},
                                {"load": 50.0}, {"profile": 1}, {"trace": 1},
                                {"nofile": 64}, {"data": 1}, {"niceness": 3}, {"user": "nobody"},
                                {"umask": 0o077}, {"sigint": 1}, {"logging": 10},
                                {"logging": 60}, {"digits": 640}, {"stack": 8}, {"tz": 1}])]
    if kind == "cwd":
        return [kind, r.choice(["root", "empty", "deleted", "decoy", "decoy"])]
    if kind == "env":
        return [kind, r.choice([{"HOME": "/nonexistent"}, {"LANG": "de_DE.UTF-8", "LC_ALL": "C"},
                                {"TMPDIR": "/nonexistent"}, {"PATH": ""},
                                {"PYTHONPATH": "/tmp", "COLUMNS": "10"}, "clear",
                                {"BFIT_DATA": "/nonexistent", "BFIT_DEBUG": "1", "DEBUG": "1",
                                 "BFIT_PATH": "/nonexistent", "BFIT_VERBOSE": "1",
                                 "BFIT_CACHE": "1", "BFIT_MASK_VALUE": "5"}] + 3 * [
                                     {"asked": r.choice(["1", "0", "", "3", "yes", "decoy",
                                                         "/nonexistent"])}])]
    if kind == "printoptions":
        return [kind, r.choice([{"precision": 1}, {"threshold": 2, "edgeitems": 1},
                                {"suppress": True, "precision": 2}, {"linewidth": 5},
                                {"formatter": "int"}, {"legacy": "1.13"}, {"sign": "+"}])]
    if kind == "errstate":
        modes = ["ignore", "warn", "print", "call", "log"]
        if strict:
            modes += ["raise", "raise"]
        return [kind, {key: r.choice(modes) for key in
                       r.sample(["divide", "over", "under", "invalid"], r.randint(1, 4))}]
    if kind == "bufsize":
        return [kind, r.choice([16, 160, 1024, 65536])]
    if kind == "warnings":
        return [kind, r.choice(["ignore", "always", "once", "module"]
                               + (["error", "error"] if strict else []))]
    if kind == "decimal":
        return [kind, r.choice([2, 5, 50])]
    if kind == "depth":
        return [kind, r.choice([100, 400, 700])]
    if kind == "gc":
        return [kind, r.choice(["disable", "frequent", "freeze"])]
    if kind == "random":
        return [kind, r.randrange(10**6)]
    if kind == "thread":
        return [kind, 1]
    if kind == "switch":
        return [kind, r.choice([1e-6, 1.0])]
    return [kind, r.choice([1, 2, 3, 8, 20])]


def generate(r, tier, i):
    focus = r.random() < 0.12            # nothing but greedy fits
    g, targets = shared_world(r, files=0.6, greedy=1.0 if focus else 0.2)
    if focus:
        targets = [t for t in targets if g.objs[t]["k"] in ("gls", "gkl")] or targets
    strict = r.random() < 0.3
    steps, pool = [], []
    hot = r.choice(targets)
    for _ in range(r.choice([1, 1, 2, 3, 4, 5]) if not focus else r.choice([1, 2])):
        roll = r.random() if not focus else 0.9
        if pool and roll < 0.2:
            call = copy.deepcopy(r.choice(pool))
        elif roll < 0.35:
            call = g.loader()
        elif roll < 0.4:
            call = g.helper()
        elif roll < 0.5:
            call = build_call(g, r, targets)
        elif roll < 0.53:
            call = g.bad_call(r.choice(targets)) or g.loader()
        else:
            call = g.call(hot if r.random() < 0.5 else r.choice(targets)) or g.loader()
        pool.append(call)
        step = {"call": call, "env": [setting(r, strict) for _ in range(r.choice([1, 1, 2, 3]))],
                "mid": None}
        if focus:
            step["env"] += [s for s in (setting(r, strict) for _ in range(12))
                            if s[0] not in ("repeat", "depth")]
        if r.random() < 0.3:
            step["mid"] = {"plug": r.choice(["integrate", "measure", "model"]),
                           "n": r.randint(1, 6), "set": [
                               s for s in (setting(r, strict) for _ in range(2))
                               if s[0] not in ("repeat", "thread", "depth")]}
        steps.append(step)
    late = None
    if r.random() < 0.4:
        late = [s for s in (setting(r, False) for _ in range(r.choice([1, 2, 3])))
                if s[0] not in ("repeat", "thread", "depth")]
        if r.random() < 0.3:
            late.append(["files", r.choice(["", "1\n", "{}"])])
        # what the objects took from the settings when they were built
        steps += [{"call": {"f": "prop", "o": k, "names": PROPS[o["k"]]}, "env": [], "mid": None}
                  for k, o in enumerate(g.objs) if o["k"] in PROPS][:8]
    return {"objs": g.objs, "steps": steps, "salt": r.randrange(10**6),
            "wrap": any(s["mid"] for s in steps),
            # the objects are built under the settings of the first call, or before
            "late": late}


class Scratch:
    """A scratch directory of this run; decoys stand where a relative path would look."""

    def __init__(self):
        self.root = tempfile.mkdtemp(prefix="dst-c18-")
        self.n = 0

    def fresh(self, what):
        self.n += 1
        path = os.path.join(self.root, f"{what}{self.n}")
        os.mkdir(path)
        if what == "decoy":
            for sub in ("", "data", "bfit/data", "neutral", "data/neutral", "bfit/data/neutral",
                        "data/anion", "anion", "data/cation", "bfit/data/anion"):
                os.makedirs(os.path.join(path, sub), exist_ok=True)
                for el in ELEMENTS:
                    with Real.open(os.path.join(path, sub, el + ".slater"), "w", encoding="ascii") as handle:
                        handle.write("decoy\n")
                with Real.open(os.path.join(path, sub, "ygbs"), "w", encoding="ascii") as handle:
                    handle.write("H 2 2 1\n1.0\n")
        return path


def apply(item, scratch):
    """Make one ambient change in this process."""
    kind, value = item
    SIM.fired("ambient." + kind)
    if kind == "cwd":
        if value == "root":
            os.chdir("/")
        else:
            path = scratch.fresh(value)
            os.chdir(path)
            if value == "deleted":
                os.rmdir(path)
    elif kind == "env":
        if value == "clear":
            os.environ.clear()
        elif "asked" in value:
            # whatever the package itself asked for
            for name in sorted(SIM.asked):
                os.environ[name] = scratch.fresh("decoy") if value["asked"] == "decoy" else \
                    value["asked"]
                SIM.reached("environment variable asked for")
        else:
            os.environ.update(value)
    elif kind == "printoptions":
        value = dict(value)
        if value.get("formatter"):
            value["formatter"] = {"all": lambda x: "?"}
        np.set_printoptions(**value)
    elif kind == "errstate":
        np.seterrcall(Quiet())
        np.seterr(**value)
    elif kind == "bufsize":
        np.setbufsize(value)
    elif kind == "warnings":
        warnings.resetwarnings()
        warnings.simplefilter(value)
    elif kind == "decimal":
        decimal.getcontext().prec = value
        decimal.getcontext().rounding = decimal.ROUND_UP
    elif kind == "gc":
        if value == "disable":
            gc.disable()
        elif value == "frequent":
            gc.enable()
            gc.set_threshold(20, 2, 2)
        else:
            gc.freeze()
    elif kind == "random":
        np.random.seed(value)
        random.seed(value)
    elif kind == "files":
        # whatever files, not its own, the package itself looked for
        for n, name in enumerate(sorted(SIM.asked_files)):
            path = os.path.join(scratch.fresh("asked"), f"f{n}")
            if value == "dir":
                os.mkdir(path)
            else:
                with Real.open(path, "w", encoding="ascii") as handle:
                    handle.write(value)
            SIM.present[name] = path
    elif kind == "machine":
        machine(value)
    elif kind == "switch":
        sys.setswitchinterval(value)


def machine(value):
    """What the program finds out about the machine, its process and its user."""
    (what, value), = value.items()
    if what == "cpus":
        os.cpu_count = lambda: value
        os.sched_getaffinity = lambda pid: set(range(value or 1))
    elif what == "pid":
        os.getpid = lambda: value
    elif what == "host":
        platform.node = socket.gethostname = lambda: value
        platform.machine = lambda: "vax"
        platform.system = lambda: "Windows"
    elif what == "argv":
        sys.argv = list(value)
    elif what == "ps1":
        sys.ps1 = value
    elif what == "modules":
        for name in value:
            sys.modules.setdefault(name, types.ModuleType(name))
    elif what == "load":
        os.getloadavg = lambda: (value, value, value)
    elif what == "profile":
        sys.setprofile(nothing)
    elif what == "trace":
        sys.gettrace = lambda: nothing
    elif what == "nofile":
        resource.setrlimit(resource.RLIMIT_NOFILE,
                           (value, resource.getrlimit(resource.RLIMIT_NOFILE)[1]))
    elif what == "data":
        resource.setrlimit(resource.RLIMIT_STACK,
                           (1 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    elif what == "niceness":
        os.nice(value)
    elif what == "user":
        getpass.getuser = os.getlogin = lambda: value
        os.getuid = os.geteuid = lambda: 65534
    elif what == "umask":
        os.umask(value)
    elif what == "sigint":
        with contextlib.suppress(ValueError):     # only the main thread may
            signal.signal(signal.SIGINT, signal.SIG_IGN)
    elif what == "logging":
        logging.root.setLevel(value)
        logging.root.addHandler(logging.NullHandler())
    elif what == "digits":
        sys.set_int_max_str_digits(value)
    elif what == "stack":
        threading.stack_size(value << 20)
    elif what == "tz":
        os.environ["TZ"] = "Pacific/Chatham"
        time.tzset()


def nothing(*_):
    """A profiler that does nothing."""


class Quiet:
    """Receives numpy's floating-point conditions in the modes "call" and "log"."""

    def __call__(self, *_):
        pass

    def write(self, *_):
        pass


def deeper(n, func):
    """Run `func` n Python frames further down."""
    if n <= 0:
        return func()
    return deeper(n - 1, func)


def in_thread(func):
    box = []
    def body():
        box.append(func())
    thread = threading.Thread(target=body)
    thread.start()
    thread.join()
    return box[0]


class Mid:
    """A user's plug-in that changes ambient settings in the middle of a call."""

    def __init__(self, script, mid, scratch):
        self.script, self.mid, self.scratch, self.n = script, mid, scratch, 0
        self.fired = False

    def before(self):
        self.n += 1
        if self.n == self.mid["n"]:
            self.fired = True
            SIM.fired("ambient.mid")
            for item in self.mid["set"]:
                apply(item, self.scratch)


def _install(script, mid):
    """Replace a script's `before` by one that also changes the ambient settings."""
    def before(real=type(script).before):
        if mid[0] is not None:
            mid[0].before()
        return real(script)
    script.before = before


def _run(scn):
    scratch = Scratch()
    home = os.getcwd()
    results, errors = [], []
    try:
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)                 # numpy's error mode "print" writes there
        os.dup2(null, 2)
        warnings.showwarning = lambda *a, **k: None
        if scn["late"]:
            with contextlib.suppress(Exception), Budget(12_000_000):
                World(scn["objs"], wrap=scn["wrap"])
            for item in scn["late"]:
                apply(item, scratch)
        world = World(scn["objs"], wrap=scn["wrap"])
        boxes = {}
        if scn["wrap"]:
            for kind, script in world.wrap.items():
                boxes[kind] = [None]
                _install(script, boxes[kind])
        for j, step in enumerate(scn["steps"]):
            depth = thread = 0
            repeat = 1
            if any(item[0] == "files" or item[0] == "env" and "asked" in item[1]
                   for item in step["env"]):
                use_stream(scn["salt"] + j)
                with contextlib.suppress(Exception), Budget(12_000_000):
                    world.call(step["call"])      # shows what the package asks for
            for item in step["env"]:
                apply(item, scratch)
                if item[0] == "depth":
                    depth = item[1]
                elif item[0] == "thread":
                    thread = 1
                elif item[0] == "repeat" and cheap(step["call"]):
                    repeat = 1 + item[1]
            if step["mid"]:
                boxes[step["mid"]["plug"]][0] = Mid(None, step["mid"], scratch)

            call = step["call"]
            greedy = "o" in call and call["f"] == "run" and \
                scn["objs"][call["o"]]["k"] in ("gls", "gkl")

            def one(step=step, j=j, greedy=greedy):
                # only greedy fits may depend on the state of the random generator
                use_stream(scn["salt"] + j + (0 if greedy else 10**6 + len(results)))
                try:
                    with Budget(12_000_000):
                        return canon(world.call(step["call"]))
                except Hang as exc:
                    return ("exc", "Hang", str(exc))
                except Warning as exc:
                    return ("exc", "ambient", type(exc).__name__)
                except (FloatingPointError, RecursionError) as exc:
                    return ("exc", "ambient", type(exc).__name__)
                except Exception as exc:     # pylint: disable=broad-except
                    return exc_canon(exc)

            for _ in range(repeat):
                run = one
                if thread:
                    run = lambda one=one: in_thread(one)
                res = deeper(depth, run)
                results.append((j, res))
            for box in boxes.values():
                box[0] = None
    finally:
        os.chdir(home if os.path.isdir(home) else "/")
        shutil.rmtree(scratch.root, ignore_errors=True)
    return {"results": results, "errors": errors, "info": child_info()}


def cheap(call):
    return call["f"] in ("evaluate", "integrate", "load_slater", "ugbs", "build", "helper", "func",
                         "atomic_density", "phi_matrix", "derivative_density", "goodness_of_fit",
                         "positive_definite_kinetic_energy", "const_norm", "evaluate_model")


def _alone_wrapped(scn, call, salt):
    def body():
        with Budget(12_000_000):
            world = World(scn["objs"], only=[], wrap=True)
            return guarded(world, call, salt)
    return fork_run(body)


def strict(scn):
    """Whether some setting turns conditions into errors."""
    for step in scn["steps"]:
        for item in step["env"] + (step["mid"]["set"] if step["mid"] else []):
            if item[0] == "warnings" and item[1] == "error":
                return True
            if item[0] == "errstate" and "raise" in item[1].values():
                return True
    return False


def execute(scn, out):
    done = fork_run(_run, scn)
    out.merge_child(done["info"])
    out.note(done["results"])
    names = [label(s["call"], scn["objs"]) for s in scn["steps"]]
    out.nontrivial = True
    out.keys.add(tuple((tuple(sorted({str(x) for x in s["env"]})), n)
                       for s, n in zip(scn["steps"], names)))
    may_raise = strict(scn)
    refs = {}
    for j, res in done["results"]:
        if isinstance(res, tuple) and res[0] == "exc" and res[1] == "ambient":
            if may_raise:
                out.probes["raised " + res[2]] += 1
                continue
        if j not in refs:
            call = scn["steps"][j]["call"]
            refs[j] = _alone_wrapped(scn, call, scn["salt"] + j) if scn["wrap"] else alone(
                scn["objs"], call, scn["salt"] + j)[0]
            out.runs += 1
        diff = same(refs[j], res)
        if diff:
            out.violate("ambient", f"call {j} {names[j]} under {scn['steps'][j]['env']} "
                        f"(mid {scn['steps'][j]['mid']}, objects built under {scn['late']}) differs from a default process: {diff}")
            return


def shrink(scn):
    if scn["late"]:
        yield dict(copy.deepcopy(scn), late=None)
        if len(scn["late"]) > 1:
            yield from drop_each(scn, "late")
    if len(scn["steps"]) > 1:
        yield from drop_each(scn, "steps")
    for j, step in enumerate(scn["steps"]):
        if step["mid"]:
            new = copy.deepcopy(scn)
            new["steps"][j]["mid"] = None
            yield new
        for k in range(len(step["env"])):
            new = copy.deepcopy(scn)
            del new["steps"][j]["env"][k]
            yield new
        for simple in simpler_calls(step["call"]):
            new = copy.deepcopy(scn)
            new["steps"][j]["call"] = simple
            yield new
    if scn["wrap"] and not any(s["mid"] for s in scn["steps"]):
        yield dict(copy.deepcopy(scn), wrap=False)
    roots = [i for s in scn["steps"] for i in call_roots(s["call"])]
    keep = needed(scn["objs"], roots)
    if any(s["k"] != "unused" for i, s in enumerate(scn["objs"]) if i not in keep):
        new = copy.deepcopy(scn)
        new["objs"] = [s if i in keep else {"k": "unused"} for i, s in enumerate(scn["objs"])]
        yield new
    for specs in simpler_specs(scn["objs"]):
        yield dict(copy.deepcopy(scn), objs=specs)
