"""C14: how and when the disk delivers the data files does not matter; its errors reach the caller."""
import copy

from .. import slaterfiles as sf
from ..engine import child_info, fork_run, rng_for
from ..sched import Budget, Deadlock, Hang, Scheduler
from ..seams import SIM, SimClock
from ..simio import ReadBudget, SimFS

LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 60000}
RULE = ("One run = 1-6 loads of data files (Slater files of all elements and charges, UGBS "
        "exponents), in one thread or interleaved between 2-3 threads at every read and source "
        "line, from a disk with seeded behaviour: short reads down to one byte, interrupted "
        "system calls, small buffers, latency, errors at the n-th read (EIO, ESTALE, ENOMEM) or "
        "at open (EMFILE, EACCES, EIO, ENOENT). Each load must give exactly the data of a fresh "
        "process with a perfect disk, or raise if the disk failed during it; files are closed "
        "when it returns or raises, nothing is written. Non-trivial: a fault or a preemption "
        "happened. distinct_nontrivial counts distinct (files, faults, interleaving).")
MEASURE = "(files in order, disk behaviour, hash of the switches)"
REAL = ["bfit._slater, bfit.density, bfit.parse_ugbs", "io.BufferedReader and io.TextIOWrapper",
        "threading", "numpy"]
STUB = ["the disk below open(2)/read(2)", "thread scheduling", "clock", "stdout"]
ASSUMPTIONS = ["the data files are read through Python's io layer"]
MUST_FIRE = ["io.short_read", "io.eintr", "io.eio", "io.estale", "io.open_emfile", "preempt"]
prepare = sf.prepare


def _script(r, hard):
    out = {}
    if r.random() < 0.6:
        out["chunk"] = [r.choice([1, 2, 7, 64, 512]) for _ in range(r.randint(1, 4))]
    if r.random() < 0.6:
        out["buffer"] = r.choice([16, 64, 256])
    if r.random() < 0.5:
        for _ in range(r.randint(1, 4)):
            out[str(r.choice([1, 2, 3, 5, r.randint(1, 60)]))] = "eintr"
    if hard:
        if r.random() < 0.3:
            out["open"] = r.choice(["EMFILE", "EACCES", "EIO", "ENOENT", "ENFILE"])
        else:
            out.setdefault("chunk", [r.choice([16, 64, 256])])
            out["buffer"] = r.choice([16, 64, 256])
            out[str(r.choice([1, 2, 3, 6, r.randint(1, 40)]))] = r.choice(["eio", "estale",
                                                                          "enomem"])
    return out


def generate(r, tier, i):
    threads = []
    n = r.choice([1, 1, 2, 3])
    same_file = sf.pick(r) if r.random() < 0.5 else None
    for _ in range(n):
        calls = []
        for _ in range(r.randint(1, 3) if n > 1 else r.randint(1, 5)):
            calls.append(dict(same_file) if same_file and r.random() < 0.7 else sf.pick(r))
        threads.append(calls)
    hard = r.random() < 0.5
    total = sum(len(c) for c in threads)
    faults = {}
    for k in range(1, total + 1):
        if r.random() < 0.7:
            faults[str(k)] = _script(r, hard and r.random() < 0.6)
    plan = {"k": "random", "p": r.choice([0.5, 0.1, 0.02])} if n > 1 else None
    return {"threads": threads, "faults": faults, "plan": plan, "seed": r.randrange(10 ** 9),
            "first": r.randrange(n), "latency": r.choice([0.0, 0.001, 3.0])}


def _one(fs, what, gauge):
    hard = fs.hard
    caught = None
    try:
        res = ("ok", sf.load(what))
    except (Hang, Deadlock):
        raise
    except ReadBudget as exc:
        res = ("hang", str(exc))
    except Exception as exc:             # pylint: disable=broad-except
        res = ("exc", type(exc).__name__, str(exc)[:200])
        caught = exc
    still = fs.opened - fs.closed if gauge else 0
    del caught
    return res, fs.hard - hard, still


def _run(scn):
    fs = SIM.fs = SimFS(scn["faults"], latency=scn["latency"], tar=sf.tar())
    SIM.clock = SimClock()
    results = [[] for _ in scn["threads"]]
    alone = len(scn["threads"]) == 1
    info = {"sw": [], "hash": 0, "err": None}

    def body(t):
        def run():
            for what in scn["threads"][t]:
                results[t].append(_one(fs, what, alone))
        return run

    if alone:
        try:
            with Budget(12_000_000):
                body(0)()
        except Hang as exc:
            info["err"] = ("Hang", str(exc))
    else:
        plan = scn["plan"]
        sched = Scheduler(plan, None if plan["k"] == "replay" else rng_for(scn["seed"], "sched"),
                          False)
        try:
            sched.run([body(t) for t in range(len(scn["threads"]))], scn["first"])
        except (Hang, Deadlock) as exc:
            info["err"] = (type(exc).__name__, str(exc))
        info["sw"], info["hash"] = sched.switches, sched.trace_hash
    info["results"] = results
    info["hard"] = fs.hard
    info["open"] = fs.opened - fs.closed
    info["writes"] = fs.writes
    info["deeds"] = list(SIM.deeds)
    # and afterwards, with a perfect disk
    fs.faults, fs.latency = {}, 0.0
    last = scn["threads"][0][-1]
    with Budget(12_000_000):
        info["after"] = _one(fs, last, True)[0]
    info["child"] = child_info()
    return info


def _full(what):
    SIM.fs = SimFS({}, tar=sf.tar())
    return _one(SIM.fs, what, False)[0]


def execute(scn, out):
    info = fork_run(_run, scn)
    out.merge_child(info["child"])
    out.note([[r[0][0] for r in t] for t in info["results"]], info["sw"])
    if scn["plan"]:
        out.concrete = dict(scn, plan={"k": "replay", "sw": info["sw"]})
    preempts = [s for s in info["sw"] if s[0] >= 0]
    out.counts["preempt"] += len(preempts)
    out.nontrivial = bool(preempts) or any(k.startswith("io.") for k in out.counts)
    if out.nontrivial:
        out.keys.add((str([[(w["kind"], w["el"]) for w in t] for t in scn["threads"]]),
                      str(sorted(scn["faults"].items())), info["hash"]))
    if info["err"]:
        out.violate("stuck", f"the loads do not end: {info['err']}")
        return
    if info["writes"]:
        out.violate("written", "a data file was opened for writing")
        return
    if info["deeds"]:
        out.violate("written", f"loading did more than reading: {info['deeds'][:3]}")
        return
    refs = {}

    def ref(what):
        key = str(sorted(what.items()))
        if key not in refs:
            refs[key] = fork_run(_full, what)
            out.runs += 1
        return refs[key]

    for t, calls in enumerate(scn["threads"]):
        for j, what in enumerate(calls):
            res, hard, still = info["results"][t][j]
            want = ref(what)
            name = f"thread {t} load {j} ({what['kind']} {what['el']})"
            if res[0] == "hang":
                out.violate("stuck", f"{name}: {res[1]}")
                return
            if still:
                out.violate("open", f"{name} left {still} files open")
                return
            if res[0] == "exc" and want[0] == "ok":
                # in one thread the error belongs to the call; between threads to any of them
                if not (hard if len(scn["threads"]) == 1 else info["hard"]):
                    out.violate("error", f"{name} raised {res[1:]} although the disk delivered "
                                "everything")
                    return
                out.probes["load refused after disk error"] += 1
                continue
            if res[0] == "exc":
                continue
            if want[0] != "ok":
                out.violate("data", f"{name} gave data, but {want[1:]} with a perfect disk")
                return
            diff = sf.differs(want[1], res[1])
            if diff:
                out.violate("data", f"{name} differs from the same load with a perfect disk: "
                            f"{diff}")
                return
    want = ref(scn["threads"][0][-1])
    if info["after"][0] != want[0] or (want[0] == "ok"
                                       and sf.differs(want[1], info["after"][1])):
        out.violate("after", f"a load after the faults gave {str(info['after'])[:200]}")


def shrink(scn):
    if len(scn["threads"]) > 1:
        for t in range(len(scn["threads"])):
            new = copy.deepcopy(scn)
            del new["threads"][t]
            new["plan"] = None if len(new["threads"]) == 1 else {"k": "random", "p": 0.1}
            new["first"] = 0
            yield new
    for t, calls in enumerate(scn["threads"]):
        if len(calls) > 1:
            for j in range(len(calls)):
                new = copy.deepcopy(scn)
                del new["threads"][t][j]
                yield new
    for key in list(scn["faults"]):
        new = copy.deepcopy(scn)
        del new["faults"][key]
        yield new
        for part in list(scn["faults"][key]):
            new = copy.deepcopy(scn)
            del new["faults"][key][part]
            yield new
    if scn["latency"]:
        yield dict(copy.deepcopy(scn), latency=0.0)
    sw = (scn["plan"] or {}).get("sw")
    if sw:
        size = max(1, len(sw) // 2)
        while size >= 1:
            for k in range(0, len(sw), size):
                new = copy.deepcopy(scn)
                new["plan"]["sw"] = sw[:k] + sw[k + size:]
                yield new
            if size == 1:
                break
            size //= 2
