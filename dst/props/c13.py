"""C13: a damaged data file never hangs a load nor silently gives an atom that misses electrons."""
import copy

from .. import slaterfiles as sf
from ..engine import child_info, fork_run
from ..sched import Budget, Hang
from ..seams import SIM
from ..simio import ReadBudget, SimFS, damage

LEVEL = "exploration"
RUNS = {"quick": 3000, "thorough": 100000}
RULE = ("One run = one load of a Slater file (every shipped element and every element of data.tar, "
        "neutral, anion and cation; as dictionary or as SlaterAtoms) or of the UGBS file from a "
        "disk on which the file is damaged: cut at a byte (half of them at line ends), bytes "
        "flipped, a hole of zeros, a torn tail, nothing left; with loads of the intact file before "
        "and after. The damaged load must end, and must raise or return data that the readable "
        "part of the file supports; the loads before and after must be exact. Non-trivial: the "
        "damage changed the content. distinct_nontrivial counts distinct (file, damage).")
MEASURE = "(file, element, damage with its position)"
REAL = ["bfit._slater, bfit.density, bfit.parse_ugbs", "io.BufferedReader and io.TextIOWrapper",
        "numpy"]
STUB = ["the disk below read(2)", "clock", "stdout"]
ASSUMPTIONS = ["the format has no checksum: rows missing at the very end of the last subshell and "
               "flipped digits can not be noticed by any reader"]
MUST_FIRE = ["io.truncated", "io.flipped_byte", "io.hole", "io.torn_tail"]
prepare = sf.prepare


def generate(r, tier, i):
    what = sf.pick(r, ugbs=0.12)
    data = sf.content(what["kind"], what["el"].lower())
    size = len(data)
    kind = r.choice(["cut"] * 5 + ["flip"] * 4 + ["hole", "tail"])
    script = {}
    block = None
    if what["kind"] == "ugbs" and r.random() < 0.75:
        block = sf.ugbs_block(data, what["el"])
    if block and kind != "tail":
        # in the part of the table that is asked for, where the lines end
        lo, hi = block
        ends = [k for k in range(lo, hi) if data[k] == 10] or [lo]
        pos = r.choice(ends) if r.random() < 0.7 else r.randrange(lo, hi)
        pos = max(0, pos + r.choice([0, 0, 1, 1, 2, 5, -1]))
        if kind == "cut":
            script["cut"] = pos
        elif kind == "flip":
            script["flip"] = [[pos % size, r.choice([10, 13, 32, 48, 57, 65, 83, 80, 0, 255, 46,
                                                     45])]]
        else:
            script["hole"] = [pos % size, min(size - 1, pos + r.choice([1, 8, 30, 64]))]
    elif kind == "cut":
        roll = r.random()
        ends = [k for k, b in enumerate(data) if b == 10]
        if roll < 0.4 and ends:
            script["cut"] = max(0, r.choice(ends) + r.choice([0, 1, 1, 2]))
        elif roll < 0.55:
            # inside the last rows
            body = len(data.rstrip())
            script["cut"] = max(0, body - int(r.random() ** 2 * 300))
        elif roll < 0.6:
            script["cut"] = r.choice([0, 1, 512, 1024])
        else:
            script["cut"] = r.randrange(size + 1)
    elif kind == "flip":
        script["flip"] = []
        starts = [k for k, b in enumerate(data) if b == 10] or [0]
        for _ in range(r.choice([1, 1, 2, 5])):
            roll = r.random()
            if roll < 0.5:
                pos = r.randrange(max(1, size))
            elif roll < 0.7:             # the line breaks decide what belongs together
                pos = r.choice(starts)
            else:                        # and so do the labels of the lines
                pos = r.choice(starts) + r.randint(1, 5)
            script["flip"].append([pos % max(1, size), r.choice(
                [10, 13, 32, 48, 57, 65, 83, 80, 40, 41, 0, 255, 46, 45, r.randrange(256)])])
        if r.random() < 0.4:             # the head of the file decides how the rest is read
            script["flip"] = [[p % 400, v] for p, v in script["flip"]]
    elif kind == "hole":
        lo = r.randrange(max(1, size))
        script["hole"] = [lo, lo + r.choice([1, 16, 64, 66, 68, 512])]
    else:
        script["tail"] = [r.randrange(1, max(2, size)), r.choice([0, 32, 10, 255])]
    if r.random() < 0.3:
        script["chunk"] = [r.choice([1, 7, 64, 512]) for _ in range(r.randint(1, 3))]
        script["buffer"] = r.choice([16, 64, 8192])
    return {"what": what, "script": script, "before": r.random() < 0.3}


def _load(what, limit=2_000_000):
    """One load: ("ok", data) or ("exc", type, text) or ("hang", text)."""
    try:
        with Budget(limit):
            return ("ok", sf.load(what))
    except (Hang, ReadBudget) as exc:
        return ("hang", str(exc))
    except Exception as exc:             # pylint: disable=broad-except
        return ("exc", type(exc).__name__, str(exc)[:200])


def _run(scn):
    fs = SIM.fs = SimFS({}, tar=sf.tar())
    what = scn["what"]
    info = {}
    info["before"] = _load(what) if scn["before"] else None
    fs.faults = {"*": scn["script"]}
    n = fs.nopen
    info["damaged"] = _load(what)
    info["opened"] = fs.nopen > n
    fs.faults = {}
    info["after"] = _load(what)
    info["child"] = child_info()
    return info


def _full(scn):
    SIM.fs = SimFS({}, tar=sf.tar())
    return _load(scn["what"])


def execute(scn, out):
    what = scn["what"]
    full = fork_run(_full, scn)
    info = fork_run(_run, scn)
    out.runs += 1
    out.merge_child(info["child"])
    out.note(str(info["damaged"][:1]), str(full[:1]))
    got = info["damaged"]
    name = f"{what['kind']} {what['el']}"
    out.nontrivial = info["opened"]
    if info["opened"]:
        key = dict(scn["script"])
        out.keys.add((what["kind"], what["el"].lower(), str(sorted(key.items(), key=str))))
    out.probes["damaged load: " + got[0]] += 1
    if got[0] == "hang":
        out.violate("hang", f"{name} with {scn['script']}: {got[1]}")
        return
    if full[0] != "ok":
        return                           # not an element bfit reads
    for when in ("before", "after"):
        res = info[when]
        if res is None:
            continue
        if res[0] != "ok":
            out.violate("intact", f"{name}, intact, {when} the damage ({scn['script']}): {res[1:]}")
            return
        diff = sf.differs(full[1], res[1])
        if diff:
            out.violate("intact", f"{name}, intact, {when} the damage: {diff}")
            return
    if got[0] != "ok":
        return
    script = scn["script"]
    data = sf.content(what["kind"], what["el"].lower())
    blank = script.get("tail", [0, 1])[1] in (10, 32)
    if "cut" in script or blank or not info["opened"]:
        kept = data
        if info["opened"]:
            kept = data[:script["cut"]] if "cut" in script else \
                data[:max(0, len(data) - script["tail"][0])]
        hit = sf.judge_cut(what, full[1], got[1], kept)
        if hit is None and kept.strip() == data.strip():
            hit = sf.differs(full[1], got[1])
    elif what["kind"] == "ugbs":
        hit = None
    else:
        hit = sf.judge_corrupt(full[1], got[1], data, damage(data, script))
    if hit:
        out.violate("silent", f"{name} with {scn['script']} was accepted: {hit}")


def shrink(scn):
    for key in ("chunk", "buffer"):
        if key in scn["script"]:
            new = copy.deepcopy(scn)
            del new["script"][key]
            yield new
    if scn["before"]:
        yield dict(copy.deepcopy(scn), before=False)
    flips = scn["script"].get("flip", [])
    if len(flips) > 1:
        for j in range(len(flips)):
            new = copy.deepcopy(scn)
            del new["script"]["flip"][j]
            yield new
    if scn["what"].get("via") == "atom":
        new = copy.deepcopy(scn)
        new["what"]["via"] = "load"
        yield new
