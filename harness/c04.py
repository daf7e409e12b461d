"""C04: redundancy finding and filtering are sound and complete."""
import copy
import itertools
import numpy as np
from vlib import main, run_isolated
from hera_cal import redcal

CFG = """INIT Init
NEXT Next
INVARIANTS Complete Sound
PROPERTY Shrinks
CONSTANTS
 Ants = {%s}
 GX = %d
 GY = %d
 GZ = %d
 Depth = %d
 Sim = TRUE
"""
CONJ = {"nn": "nn", "ee": "ee", "ne": "en", "en": "ne"}
rev = lambda k: (k[1], k[0], CONJ[k[2]])
SP = 14.6


def modrev(g):
    f = frozenset(map(tuple, g))
    if all(k[0] == k[1] for k in f):        # autocorrelations: the same pairs again for the exchanged polarization
        return frozenset([f])
    return frozenset([f, frozenset(rev(k) for k in f)])


def kwargs(c):
    kw = {}
    ant = lambda s: s[0] if s[1] == "" else (s[0], s[1])
    bl = lambda s: (s[0], s[1]) if s[2] == "" else tuple(s)
    for nm, key, f in (("pols", "pols", str), ("expols", "ex_pols", str), ("ubls", "ubls", bl), ("exubls", "ex_ubls", bl),
                       ("bls", "bls", bl), ("exbls", "ex_bls", bl), ("ants", "ants", ant), ("exants", "ex_ants", ant)):
        if c[nm]:
            kw[key] = [f(x) for x in c[nm]]
    if c["nobls"] and not c["bls"]:
        kw["bls"] = []
    if c["minl2"]:
        kw["min_bl_cut"] = SP * np.sqrt(c["minl2"] / 4)
    if c["maxl2"]:
        kw["max_bl_cut"] = SP * np.sqrt(c["maxl2"] / 4)
    return kw


def groups_match(got, exp, minv, exact=False):
    if any(len(set(map(tuple, g))) != len(g) or len(g) == 0 for g in got):
        return f"empty group or repeated baseline in {got}"
    if minv:
        a = sorted(sorted(modrevset(g)) for g in got)
        b = sorted(set(map(tuple, [sorted(modrevset(g)) for g in exp])))
        return None if [tuple(x) for x in a] == list(b) else f"groups {got} expected {exp}"
    if exact:
        a, b = sorted(sorted(map(tuple, g)) for g in got), sorted(sorted(map(tuple, g)) for g in exp)
        return None if a == b else f"{len(a)} groups, expected {len(b)}; missing {[g for g in b if g not in a][:3]}, extra {[g for g in a if g not in b][:3]}"
    g1 = sorted(map(lambda g: sorted(map(sorted, modrev(g))), got))
    g2 = sorted(map(lambda g: sorted(map(sorted, g)), {modrev(g) for g in exp}))
    if g1 != g2:
        miss = {modrev(g) for g in exp} - {modrev(g) for g in got}
        extra = {modrev(g) for g in got} - {modrev(g) for g in exp}
        return f"{len(got)} groups, expected {len(g2)}; missing {[sorted(min(m, key=sorted)) for m in miss][:3]}, extra {[sorted(min(m, key=sorted)) for m in extra][:3]}"
    return None


def modrevset(g):
    return {min(tuple(k), rev(k)) for k in g}


def replay(t, rng):
    e0 = t[0]["e"]
    jit = rng.choice([0.0, 0.1])
    antpos = {a: SP * np.array(p, dtype=float) + np.array([rng.uniform(-jit, jit) for _ in range(3)]) for a, p in e0["pos"]}
    if rng.random() < .3 and all(p[2] == 0 for _, p in e0["pos"]):
        antpos = {a: p[:2] for a, p in antpos.items()}       # 2D positions are accepted too
    items = list(antpos.items())
    rng.shuffle(items)
    antpos = dict(items)
    keep = copy.deepcopy(antpos)
    pols = sorted(e0["pols"], key=lambda p: rng.random())
    minv = e0["mode"] == "4pol_minV"
    if minv:
        pols = ["nn", "ne", "en", "ee"]
    given = [p.upper() for p in pols] if rng.random() < .2 else pols
    r = run_isolated(redcal.get_reds, antpos, pols=list(given), pol_mode=e0["mode"], include_autos=bool(e0["autos"]))
    if r[0] != "ok":
        return 0, "find", f"get_reds raised {r[1:]}"
    reds = r[1]
    if set(antpos) != set(keep) or any(not np.array_equal(antpos[a], keep[a]) for a in keep):
        return 0, "find", "antenna positions modified"
    m = groups_match(reds, t[0]["groups"], minv)
    if m:
        return 0, "find", f"get_reds: {m}; positions {e0['pos']}"
    npol = len(reds) // max(1, len(pols)) if not minv else 0
    for g in reds:
        if not minv:
            vs = np.array([antpos[j] - antpos[i] for i, j, p in g])
            if np.max(np.abs(vs - vs[0])) > 1.0:
                return 0, "find", f"orientation differs within group {g}"
            if g != sorted(g) or g[0][0] != min(a for k in g for a in k[:2]):
                return 0, "find", f"group {g} is not sorted with its lowest antenna first"
    if not minv:
        for p in pols:
            ls = [np.mean([np.linalg.norm(antpos[k[1]] - antpos[k[0]]) for k in g]) for g in reds if g[0][2] == p]
            if any(b < a - 1.0 for a, b in zip(ls, ls[1:])):
                return 0, "find", "groups are not ordered by baseline length"
    if not minv:      # work on in the orientations of the specification
        exp = [sorted(map(tuple, g)) for g in t[0]["groups"]]
        reds = [g if g in exp else sorted(rev(k) for k in g) for g in reds] if rng.random() < .5 else \
            sorted(exp, key=lambda g: rng.random())
    for n, s in enumerate(t[1:], 1):
        e = s["e"]
        if e["op"] == "filter":
            kw = kwargs(e["c"])
            frozen, kwf = copy.deepcopy(reds), copy.deepcopy(kw)
            r = run_isolated(redcal.filter_reds, reds, antpos=antpos, **kw)
            if r[0] != "ok":
                return n, "filter", f"filter_reds({kw}) raised {r[1:]}"
            if reds != frozen or kw != kwf:
                return n, "filter", f"filter_reds({kw}) modified its arguments"
            m = groups_match(r[1], s["groups"], False, True)
            if m:
                return n, "filter", f"filter_reds({kw}): {m}"
            order = [k for g in frozen for k in g]
            if [k for g in r[1] for k in g] != [k for k in order if k in {k for g in r[1] for k in g}]:
                return n, "filter", f"filter_reds({kw}) reordered or re-oriented baselines"
            reds = r[1]
        else:
            k1, k2 = kwargs(e["c1"]), kwargs(e["c2"])
            a = redcal.filter_reds(reds, antpos=antpos, **k1)
            b = redcal.filter_reds(reds, antpos=antpos, **k2)
            fa, fb, fr = copy.deepcopy(a), copy.deepcopy(b), copy.deepcopy(reds)
            r = run_isolated(redcal.combine_reds, a, b, unfiltered_reds=reds if e["un"] else None)
            if r[0] != "ok":
                return n, "combine", f"combine_reds raised {r[1:]}"
            if (a, b, reds) != (fa, fb, fr):
                return n, "combine", "combine_reds modified its arguments"
            m = groups_match(r[1], s["groups"], False, True)
            if m:
                return n, "combine", f"combine_reds: {m}"
            reds = r[1]
    return None


def check(chk):
    A = lambda n: ",".join(map(str, n))
    runs = [(A(range(6)), 3, 3, 1, 4, chk.n(250, 4000)), (A([3, 1, 10, 7, 20, 5, 8]), 4, 2, 1, 3, chk.n(150, 3000)),
            (A(range(5)), 2, 2, 2, 3, chk.n(100, 2000)), (A(range(9)), 4, 3, 1, 2, chk.n(60, 1000))]
    last = None
    for ants, gx, gy, gz, depth, num in runs:
        traces, _ = chk.tlc("Redundancy", CFG % (ants, gx, gy, gz, depth), mode="sim", num=num, depth=depth + 4 + len(ants.split(',')))
        for t in traces:
            r = replay(t, chk.rng)
            chk.traces += 1
            chk.ran(len(t))
            if r:
                chk.fail(r[1], f"step {r[0]}: {r[2]}", t[:r[0] + 1])
        chk.sample(traces[0][0])
        last = traces[-1]
    if not chk.viol:
        bad = copy.deepcopy(last[:1])
        bad[0]["groups"][0] = bad[0]["groups"][0][:-1] or [[0, 0, "nn"]]
        assert replay(bad, chk.rng) is not None or len(bad[0]["groups"]) == 1
        chk.binding.append("expectation with a baseline removed rejected")


if __name__ == "__main__":
    main("C04", check, assumptions=["lattice layouts of 2-9 antennas, spacing >> tolerance, jitter < tolerance/4"])
