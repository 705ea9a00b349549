"""Command line: run a check, replay a file, prove determinism."""
import argparse
import collections
import json
import os
import re
import subprocess
import sys
import traceback

from . import engine
from .engine import VERIF, HarnessError
from .seams import Real

REPLAYS = os.path.join(VERIF, "evidence", "replays")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


def known_findings(pid):
    """[(pattern, text)] of the recorded, unrepaired findings of a property."""
    out = []
    if os.path.exists(KNOWN):
        with Real.open(KNOWN, encoding="utf8") as handle:
            for line in handle:
                hit = re.match(r"known: property=(\w+) match=/(.*)/ (.*)", line.strip())
                if hit and hit.group(1) == pid:
                    out.append((re.compile(hit.group(2)), hit.group(3)))
    return out


def run_check(args):
    pid = args.property
    prop = engine.load_prop(pid)
    tier = args.tier
    seed = args.seed
    total = args.runs or prop.RUNS[tier]
    wall = args.wall or (600.0 if tier == "quick" else 3600.0 * 6)
    start = Real.monotonic()
    counts, probes = collections.Counter(), collections.Counter()
    keys = set()
    state = {"runs": 0, "nontrivial": 0, "simtime": 0.0, "steps": 0, "subruns": 0}
    bad, harness, samples, unconfirmed, digests = [], [], [], [], {}
    known = known_findings(pid)
    known_hit = {}

    def on_result(answer):
        if answer[0] == "harness":
            harness.append(answer[1:])
            return
        packed = answer[1]
        state["runs"] += 1
        state["subruns"] += packed["runs"]
        state["nontrivial"] += bool(packed["nontrivial"])
        state["simtime"] += packed["simtime"]
        state["steps"] += packed["steps"]
        counts.update(packed["counts"])
        probes.update(packed["probes"])
        keys.update(packed["keys"])
        digests[packed["i"]] = packed["digest"]
        if len(samples) < 3 and packed["nontrivial"] and not packed["violations"]:
            samples.append(packed["concrete"] or packed["scn"])
        if packed["violations"]:
            kind = packed.get("kind", packed["violations"][0][0])
            detail = packed.get("min_detail", packed["violations"][0][1])
            for pattern, text in known:
                if pattern.search(f"{kind}: {detail}"):
                    known_hit[text] = known_hit.get(text, 0) + 1
                    return
            if packed.get("confirmed"):
                bad.append(packed)
            else:
                unconfirmed.append(packed)

    nproc = args.jobs or min(8, os.cpu_count() or 1)
    _, truncated = engine.run_many(pid, seed, tier, range(total), nproc, on_result, wall=wall,
                                   stop=lambda: len(bad) >= 1 or len(harness) > 20)
    elapsed = Real.monotonic() - start
    replay = None
    confirmed_fresh = None
    if bad:
        packed = bad[0]
        os.makedirs(REPLAYS, exist_ok=True)
        replay = os.path.join(REPLAYS, f"{pid}-{tier}-{seed}-{packed['i']}.json")
        with Real.open(replay, "w", encoding="utf8") as handle:
            json.dump({"property": pid, "seed": seed, "run": packed["i"], "kind": packed["kind"],
                       "detail": packed["min_detail"], "scenario": packed["minimised"],
                       "original_scenario": packed["scn"],
                       "minimiser_runs": packed["min_runs"]}, handle, indent=1)
            handle.write("\n")
        res = subprocess.run([sys.executable, "-m", "dst.main", "--replay", replay, "--quiet"],
                             cwd=VERIF, capture_output=True, text=True, timeout=300, check=False)
        confirmed_fresh = res.returncode == 1
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": prop.LEVEL,
        "wall_s": round(elapsed, 2),
        "violations": len(bad),
        "assumptions": list(getattr(prop, "ASSUMPTIONS", [])),
        "coverage": {
            "evaluations": state["runs"],
            "distinct_nontrivial": len(keys),
            "rule": prop.RULE,
            "samples": samples,
            "simulated_runs": state["runs"],
            "nontrivial_runs": state["nontrivial"],
            "seeds_per_hour": round(state["runs"] / max(elapsed, 1e-9) * 3600),
            "process_executions": state["subruns"],
            "simulated_seconds": round(state["simtime"], 3),
            "scheduling_or_fault_points_passed": state["steps"],
            "faults_fired": dict(sorted(counts.items())),
            "probes_hit": dict(sorted(probes.items())),
            "never_fired": [name for name in getattr(prop, "MUST_FIRE", ()) if not any(
                re.match(name, key) for key in list(counts) + list(probes))],
            "distinct_measure": prop.MEASURE,
            "real_components": prop.REAL,
            "stubbed_components": prop.STUB,
            "stopped_early": bool(truncated),
            "known_findings_hit": known_hit,
            "unreproduced_alarms": len(unconfirmed),
            "log_digest": digest_all(digests),
        },
    }
    if bad:
        evidence["coverage"]["violation"] = {
            "kind": bad[0]["kind"], "detail": bad[0]["min_detail"], "replay": replay,
            "replayed_in_fresh_process": confirmed_fresh}
    if not samples:
        evidence["coverage"]["samples"] = [bad[0]["minimised"]] if bad else []
    if harness:
        evidence["coverage"]["harness_errors"] = [str(h)[:2000] for h in harness[:5]]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{pid}.json")
    with Real.open(path + ".tmp", "w", encoding="utf8") as handle:
        json.dump(evidence, handle, indent=1, default=str)
        handle.write("\n")
    os.replace(path + ".tmp", path)
    print(f"{pid} {tier}: {state['runs']} runs ({state['nontrivial']} non-trivial, {len(keys)} "
          f"distinct), {elapsed:.1f} s, faults {dict(sorted(counts.items()))}")
    for text, n in known_hit.items():
        print(f"KNOWN-FINDING: property={pid} {text} ({n} runs)")
    if bad:
        print(f"{bad[0]['kind']}: {bad[0]['min_detail']}")
        if not confirmed_fresh:
            print("note: the replay in a fresh process did not show the same violation")
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    if harness:
        print(f"HARNESS ERROR in {len(harness)} runs:\n{harness[0][1]}", file=sys.stderr)
        return 2
    if unconfirmed:
        print(f"UNREPRODUCED alarm: {unconfirmed[0]['violations'][:2]} run {unconfirmed[0]['i']}",
              file=sys.stderr)
        return 2
    if state["runs"] < min(total, prop.MIN_RUNS if hasattr(prop, "MIN_RUNS") else total // 10):
        print("too few runs within the time limit", file=sys.stderr)
        return 2
    return 0


def digest_all(digests):
    import hashlib
    out = hashlib.sha256()
    for i in sorted(digests):
        out.update(f"{i}:{digests[i]}\n".encode())
    return out.hexdigest()[:32]


def run_replay(args):
    with Real.open(args.replay, encoding="utf8") as handle:
        data = json.load(handle)
    from . import seams
    prop = engine.load_prop(data["property"])
    seams.install()
    if hasattr(prop, "prepare"):
        prop.prepare()
    packed = engine.execute(prop, data["scenario"])
    same = [d for k, d in packed["violations"] if k == data["kind"]]
    if same:
        if not args.quiet:
            print(f"{data['kind']}: {same[0]}")
            print("identical to the recorded detail" if same[0] == data["detail"] else
                  f"recorded detail was: {data['detail']}")
        print(f"VIOLATION property={data['property']} replay={args.replay}")
        return 1
    print(f"no violation of kind {data['kind']}; found {packed['violations']}")
    return 0


def run_determinism(args):
    """Same seeds, different worker counts and hash seeds: the event logs must be identical."""
    pids = args.property.split(",") if args.property else sorted(
        name[:-3].upper() for name in os.listdir(os.path.join(VERIF, "dst", "props"))
        if re.match(r"c\d+\.py$", name))
    bad = 0
    for pid in pids:
        logs = []
        for jobs, hashseed in ((8, "0"), (3, "1"), (5, "random")):
            os.environ["PYTHONHASHSEED"] = hashseed
            seen = {}

            def on_result(answer, seen=seen):
                if answer[0] == "ok":
                    seen[answer[1]["i"]] = (answer[1]["digest"], answer[1]["steps"],
                                            answer[1]["violations"])
                else:
                    seen[answer[1]] = ("harness", answer[2][-300:])

            engine.run_many(pid, args.seed, "quick", range(args.runs or 60), jobs, on_result)
            logs.append(seen)
        diff = [i for i in logs[0] if any(logs[0][i] != log.get(i) for log in logs[1:])]
        print(f"{pid}: {len(logs[0])} seeds x {len(logs)} interpreters, {len(diff)} differ"
              + (f": {diff[:10]} {[log.get(diff[0]) for log in logs]}" if diff else ""))
        bad += bool(diff)
    return 1 if bad else 0


def selftest():
    """Import everything, and run a few seeds of every property without judging them."""
    from . import seams
    seams.install()
    pids = sorted(name[:-3].upper() for name in os.listdir(os.path.join(VERIF, "dst", "props"))
                  if re.match(r"c\d+\.py$", name))
    for pid in pids:
        prop = engine.load_prop(pid)
        for i in range(3):
            json.dumps(prop.generate(engine.rng_for(pid, "selftest", i), "quick", i))
    print(f"{len(pids)} properties loaded; package at {seams.PKG}")
    return 0


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--worker":
        results = os.fdopen(os.dup(1), "wb")
        os.dup2(2, 1)
        engine.worker(sys.argv[2], int(sys.argv[3]), sys.argv[4], sys.stdin, results)
        return 0
    parser = argparse.ArgumentParser()
    parser.add_argument("--property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    parser.add_argument("--runs", type=int)
    parser.add_argument("--jobs", type=int)
    parser.add_argument("--wall", type=float)
    parser.add_argument("--replay")
    parser.add_argument("--quiet", action="store_true")
    parser.add_argument("--determinism", action="store_true")
    parser.add_argument("--selftest", action="store_true")
    args = parser.parse_args()
    try:
        if args.selftest:
            return selftest()
        if args.replay:
            return run_replay(args)
        if args.determinism:
            return run_determinism(args)
        return run_check(args)
    except HarnessError as exc:
        print(f"HARNESS ERROR: {exc}", file=sys.stderr)
        return 2
    except Exception:                   # pylint: disable=broad-except
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
