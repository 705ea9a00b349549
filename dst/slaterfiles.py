"""Loads of bfit's data files: what exists, what a load gave, and judging damaged files."""
import os
import re

import numpy as np

from .gen import ANION, CATION, NEUTRAL
from .seams import DATA
from .simio import load_tar

EXT = {"neutral": "slater", "anion": "an", "cation": "cat"}
_TAR = {}
_NAMES = {}
_SIZES = {}


def prepare():
    """Which files there are, on the disk and in data.tar (served by the simulated disk)."""
    if _NAMES:
        return
    _TAR.update(load_tar())
    for kind, ext in EXT.items():
        names = set()
        folder = os.path.join(DATA, kind)
        if os.path.isdir(folder):
            names |= {n for n in os.listdir(folder) if n.endswith("." + ext)}
        names |= {k.split("/")[1] for k in _TAR if k.startswith(kind + "/")
                  and k.endswith("." + ext)}
        _NAMES[kind] = sorted(n[:-len(ext) - 1] for n in names if "/" not in n)
    # an archived anion of silver has no configuration; caesium's cation is known to be refused
    _NAMES["anion"] = [n for n in _NAMES["anion"] if n != "ag"]
    _NAMES["cation"] = [n for n in _NAMES["cation"] if n != "cs"]


def tar():
    prepare()
    return _TAR


def elements(kind):
    prepare()
    return _NAMES[kind]


def content(kind, el):
    """Genuine bytes of a data file."""
    if kind == "ugbs":
        path = os.path.join(DATA, "ygbs")
    else:
        path = os.path.join(DATA, kind, f"{el}.{EXT[kind]}")
    try:
        with open(path, "rb") as handle:
            return handle.read()
    except FileNotFoundError:
        return tar().get(f"{kind}/{el}.{EXT[kind]}", b"")


def pick(r, ugbs=0.1):
    """A random file: kind, element, and how it is asked for."""
    roll = r.random()
    if roll < ugbs:
        return {"kind": "ugbs", "el": r.choice(["h", "he", "li", "c", "o", "fe", "xe", "lr", "u"])}
    kind = r.choice(["neutral", "neutral", "anion", "cation"])
    shipped = {"neutral": NEUTRAL, "anion": ANION, "cation": CATION}[kind]
    el = r.choice(shipped) if r.random() < 0.5 else r.choice(elements(kind))
    el = r.choice([el, el.upper(), el.capitalize(), el])
    return {"kind": kind, "el": el, "via": r.choice(["load", "load", "atom"])}


ATTRS = ["configuration", "energy", "kinetic_energy", "potential_energy", "orbitals",
         "orbitals_energy", "orbitals_cusp", "orbitals_basis", "orbitals_exp", "orbitals_coeff",
         "orbitals_occupation", "basis_numbers"]


def load(what):
    """Ask bfit for it; a plain dictionary, with copies of everything."""
    from bfit import density
    from bfit._slater import load_slater_wfn
    from bfit.parse_ugbs import get_ugbs_exponents
    if what["kind"] == "ugbs":
        data = get_ugbs_exponents(what["el"])
        return {"ugbs": {k: [float(x) for x in v] for k, v in data.items()}}
    anion, cation = what["kind"] == "anion", what["kind"] == "cation"
    if what.get("via") == "atom":
        atom = density.SlaterAtoms(what["el"], anion=anion, cation=cation)
        data = {name: getattr(atom, name) for name in ATTRS if hasattr(atom, name)}
    else:
        data = load_slater_wfn(what["el"], anion=anion, cation=cation)
    return _plain(data)


def _plain(value):
    if isinstance(value, dict):
        return {str(k): _plain(v) for k, v in value.items()}
    if isinstance(value, np.ndarray):
        return np.array(value)
    if isinstance(value, (list, tuple)):
        return [_plain(v) for v in value]
    return value


def differs(a, b):
    """None, or where two loads differ (exactly)."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f"keys {sorted(a)} != {sorted(b)}"
        for key in a:
            diff = differs(a[key], b[key])
            if diff:
                return f"[{key}] {diff}"
        return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if np.shape(a) != np.shape(b) or not np.array_equal(a, b):
            return f"{np.ravel(a)} != {np.ravel(b)}"
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{len(a)} entries != {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            diff = differs(x, y)
            if diff:
                return f"[{i}] {diff}"
        return None
    return None if a == b else f"{a!r} != {b!r}"


def inconsistent(data):
    """None, or why the data of an atom do not belong together."""
    orbs = list(data["orbitals"])
    if len(np.ravel(data["orbitals_energy"])) != len(orbs):
        return f"{len(np.ravel(data['orbitals_energy']))} energies of {len(orbs)} orbitals"
    if len(np.ravel(data["orbitals_occupation"])) != len(orbs):
        return "occupations do not match the orbitals"
    for orb in orbs:
        shell = orb[-1]
        exps = data["orbitals_exp"].get(shell)
        coef = data["orbitals_coeff"].get(orb)
        if exps is None or coef is None:
            return f"orbital {orb} has no exponents or coefficients"
        if np.shape(exps) != np.shape(coef) or len(exps) == 0:
            return f"orbital {orb}: {len(coef)} coefficients and {len(exps)} exponents"
        if len(data["basis_numbers"].get(shell, ())) != len(exps):
            return f"shell {shell}: basis numbers do not match the exponents"
    return None


def _rows(data):
    """{(subshell, k): number of the line with its k-th basis function} of an intact file."""
    out, shell = {}, None
    counts = {}
    started = False
    for number, line in enumerate(data.decode("utf8").split("\n")):
        words = line.split()
        if "ORBITAL ENERGIES" in line:
            started = True
        elif started and words and words[0] in ("S", "P", "D", "F"):
            shell = words[0]
        elif started and words and shell and re.fullmatch(r"\d" + shell, words[0]):
            out[shell, counts.get(shell, 0)] = number
            counts[shell] = counts.get(shell, 0) + 1
    return out


def judge_corrupt(full, got, data, damaged):
    """Data returned for a file of which some bytes were replaced. None or complaint.

    Nothing may be missing, and what stands on an intact line is as it was.
    """
    hit = inconsistent(got)
    if hit:
        return hit
    if full["orbitals"] != got["orbitals"]:
        return f"orbitals {got['orbitals']} instead of {full['orbitals']}"
    for shell, exps in full["orbitals_exp"].items():
        mine = got["orbitals_exp"].get(shell, ())
        if len(mine) != len(exps):
            return f"shell {shell} has {len(mine)} basis functions instead of {len(exps)}"
    number, touched = 0, set()
    for old, new in zip(data, damaged):
        if old != new:
            touched.add(number)
        number += old == 10
    hit = _invented(got, damaged) or _heads(full, got, data, touched)
    if hit:
        return hit
    rows = _rows(data)
    if any((shell, len(exps) - 1) not in rows or (shell, len(exps)) in rows
           for shell, exps in full["orbitals_exp"].items()):
        return None                      # another format
    for (shell, k), line in rows.items():
        if line in touched:
            continue
        names = [o for o in full["orbitals"] if o[-1] == shell]
        pairs = [(full["orbitals_exp"][shell], got["orbitals_exp"][shell], "exponent")]
        pairs += [(full["orbitals_coeff"][o], got["orbitals_coeff"][o], o) for o in names]
        for whole, mine, name in pairs:
            if whole[k] != mine[k]:
                return f"{name} {k} of shell {shell} is {mine[k]} instead of {whole[k]}"
    if not touched - set(rows.values()):
        for key in ("configuration", "orbitals_energy", "orbitals_occupation",
                    "orbitals_cusp", "energy", "kinetic_energy", "potential_energy"):
            diff = differs(full[key], got[key]) if key in full else None
            if diff:
                return f"{key}: {diff}"
    return None


def _invented(got, damaged):
    """None, or a number of the orbitals that no word of the file stands for."""
    words = set()
    for word in damaged.decode("utf8", "replace").replace("=", " ").split():
        try:
            words.add(float(word))
        except ValueError:
            pass
    lists = [("energy", [got["energy"]]), ("orbital energies", got["orbitals_energy"]),
             ("cusps", got["orbitals_cusp"])]
    lists += [(f"exponents of {k}", v) for k, v in got["orbitals_exp"].items()]
    lists += [(f"coefficients of {k}", v) for k, v in got["orbitals_coeff"].items()]
    for name, values in lists:
        for value in np.ravel(values):
            if float(value) not in words and not np.isnan(value):
                return f"{name}: {value} does not stand in the file"
    return None


def _heads(full, got, data, touched):
    """None, or energies and cusps that differ although their line is intact."""
    where = {"orbitals_energy": [], "orbitals_cusp": []}
    for number, line in enumerate(data.split(b"\n")):
        words = line.split()
        key = {b"BASIS/ORB.ENERGY": "orbitals_energy",
               b"CUSP": "orbitals_cusp"}.get(words[0] if words else b"")
        if key:
            where[key] += [number] * (len(words) - 1)
    for key, lines in where.items():
        whole, mine = np.ravel(full[key]), np.ravel(got[key])
        if len(lines) != len(whole) or len(mine) != len(whole):
            continue
        for number, a, b in zip(lines, whole, mine):
            if number not in touched and a != b:
                return f"{key}: {b} instead of {a} on an intact line"
    return None


def judge_cut(what, full, got, kept):
    """Data returned for a file of which only the bytes `kept` were there. None or complaint."""
    if what["kind"] == "ugbs":
        for shell, values in full["ugbs"].items():
            mine = got["ugbs"].get(shell)
            if mine is None or len(mine) > len(values) or any(
                    a != b for a, b in list(zip(mine, values))[:max(0, len(mine) - 1)]):
                return f"UGBS {shell}: {mine} is no beginning of the whole list"
            if mine and mine[-1] not in (values[len(mine) - 1], _last_number(kept)):
                return f"UGBS {shell}: {mine[-1]} is not in the file"
        return None
    hit = inconsistent(got)
    if hit:
        return hit
    for key in ("configuration", "orbitals", "orbitals_energy", "orbitals_occupation",
                "orbitals_cusp", "energy", "kinetic_energy", "potential_energy"):
        diff = differs(full[key], got[key]) if key in full else None
        if diff:
            return f"{key}: {diff}"
    text = kept.decode("utf8", "replace")
    heads = re.findall(r"^\s+([SPDF])\s+\d[SPDF]", text, re.M)
    last = heads[-1] if heads else None
    for shell, exps in full["orbitals_exp"].items():
        mine = got["orbitals_exp"][shell]
        orbs = [o for o in full["orbitals"] if o[-1] == shell]
        pairs = [(exps, mine, "exponents")]
        torn = _last_number(kept)        # the last number may have lost some of its digits
        pairs += [(full["orbitals_coeff"][o], got["orbitals_coeff"][o], o) for o in orbs]
        for whole, part, name in pairs:
            if shell != last:
                if not np.array_equal(whole, part):
                    return f"{name} of shell {shell} differ although they were readable"
                continue
            k = len(part) - 1
            if len(part) > len(whole) or not np.array_equal(whole[:k], part[:k]):
                return f"{name} of shell {shell}: {np.ravel(part)} is no beginning of the whole"
            if k >= 0 and not np.array_equal(whole[k], part[k]) and \
                    not (name == orbs[-1] and np.all(part[k] == torn)):
                return f"{name} of shell {shell}: the last value {part[k]} is not in the file"
    return None


def _last_number(kept):
    """The last word of the readable part of a file as a number, or None."""
    words = kept.decode("utf8", "replace").split()
    try:
        return float(words[-1])
    except (IndexError, ValueError):
        return None


def ugbs_block(data, el):
    """Where an element stands in the UGBS file: (first byte, byte after the last one)."""
    hits = list(re.finditer(rb"^%s[ \t][^\n]*\n[^\n]*\n?" % re.escape(el.encode()), data,
                            re.M | re.I))
    return (hits[0].start(), hits[-1].end()) if hits else None
