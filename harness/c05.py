"""C05: applying / un-applying calibration solutions in memory."""
import copy
import warnings
import numpy as np
from vlib import main
from hera_cal import apply_cal
from hera_cal.datacontainer import DataContainer

warnings.simplefilter("ignore")
CFG = """INIT Init
NEXT Next
INVARIANT TypeOK
PROPERTIES NoUnflag Undoes
CONSTANTS
 Ants = {%s}
 NSol = %d
 NF = 2
 Nts = {%s}
 Ngs = {%s}
 Depth = %d
"""
NF = 2
CONJ = {"nn": "nn", "ee": "ee", "ne": "en", "en": "ne"}
FEED = {"n": "Jnn", "e": "Jee"}
rev = lambda k: (k[1], k[0], CONJ[k[2]])
ants_of = lambda k: ((k[0], FEED[k[2][0]]), (k[1], FEED[k[2][1]]))


def mask(pairs, n):
    m = np.zeros((n, NF), bool)
    for t, f in pairs:
        m[t, f] = True
    return m


def resample(g, n):
    m = g.shape[0]
    if m == 1:
        return np.repeat(g, n, axis=0)
    if m <= n:
        return np.repeat(g, n // m, axis=0)
    return g.reshape(n, m // n, NF).mean(axis=1)


def replay(t, rng):
    nr = np.random.default_rng(rng.getrandbits(32))
    e0 = t[0]["e"]
    keys = {tuple(x["k"]): x["nt"] for x in e0["keys"]}
    gains, cflags = {}, {}
    for s, sd in enumerate(e0["sol"], 1):
        gains[s] = {tuple(a): (nr.uniform(.6, 1.6, (sd["ng"], NF)) * np.exp(2j * np.pi * nr.uniform(0, 1, (sd["ng"], NF)))) for a in sd["gk"]}
        cflags[s] = {tuple(a): np.zeros((sd["ng"], NF), bool) for a in sd["fk"]}
        for x in sd["fl"]:
            if tuple(x["a"]) in cflags[s]:
                cflags[s][tuple(x["a"])][x["t"], x["f"]] = True
    auto = lambda k: k[0] == k[1] and k[2] in ("nn", "ee")
    orig = {k: (nr.normal(0, 1, (n, NF)) + (0 if auto(k) else 1j) * nr.normal(0, 1, (n, NF))).astype(complex) for k, n in keys.items()}
    data = DataContainer({k: v.copy() for k, v in orig.items()})
    fl0 = {tuple(x["k"]): mask(x["fl"], x["nt"]) for x in e0["keys"]}
    # the flag container may name baselines in the other orientation
    flags = DataContainer({(k if rng.random() < .7 else rev(k)): f.copy() for k, f in fl0.items()})
    bystander = nr.normal(0, 1, (max(keys.values()), NF)) + 0j
    extra = None
    for i, st in enumerate(t[1:], 1):
        e = st["e"]
        g_keep, f_keep = copy.deepcopy(gains), copy.deepcopy(cflags)
        if e["op"] == "cal":
            kw = dict(gain_convention=e["conv"])
            if e["cf"]:
                kw["cal_flags"] = cflags[e["new"]]
            if e["old"]:
                kw["old_gains"] = gains[e["old"]]
            w = None
            if e["wf"]:
                if e["wgts"]:
                    base = {k: nr.uniform(1, 2, f.shape) for k, f in flags.items()}
                    w = DataContainer({k: np.where(flags[k], 0.0, base[k]) for k in flags.keys()})
                    kw.update(data_flags=w, flags_are_wgts=True)
                else:
                    kw["data_flags"] = flags
            try:
                apply_cal.calibrate_in_place(data, gains[e["new"]], **kw)
            except Exception as ex:
                return i, "cal", f"calibrate_in_place({e}) raised {type(ex).__name__}: {ex}"
            if w is not None:
                for k in list(flags.keys()):
                    bad = (w[k] != 0) & (w[k] != base[k])
                    if bad.any():
                        return i, "weights", f"nonzero weight of {k} changed"
                    flags[k] = (w[k] == 0)
        else:
            group = [tuple(k) for k in e["g"] + e["extra"]]
            rng.shuffle(group)
            ng, nf = copy.deepcopy(gains[e["new"]]), copy.deepcopy(cflags[e["new"]])
            og = copy.deepcopy(gains[e["old"]]) if e["old"] else None
            of = copy.deepcopy(cflags[e["old"]]) if e["old"] else None
            try:
                apply_cal.calibrate_redundant_solution(data, flags, ng, nf, [group, [(98, 99, "nn")]], old_gains=og, old_flags=of, gain_convention=e["conv"])
            except Exception as ex:
                return i, "red", f"calibrate_redundant_solution({e}) raised {type(ex).__name__}: {ex}"
            n = keys[tuple(e["g"][0])]
            extra = ({tuple(k) for k in e["g"]}, np.ones((n, NF), complex))
            sgn = 1 if e["conv"] == "divide" else -1
            for c in e["contrib"]:
                ti, fi = c["x"]
                rs = []
                for k in map(tuple, c["ks"]):
                    a, b = ants_of(k)
                    ratio = 1 / (gains[e["new"]][a][ti, fi] * np.conj(gains[e["new"]][b][ti, fi]))
                    if e["old"]:
                        ratio *= gains[e["old"]][a][ti, fi] * np.conj(gains[e["old"]][b][ti, fi])
                    rs.append(ratio)
                if rs:
                    extra[1][ti, fi] = np.mean(rs) ** sgn
        for s in gains:
            if any(not np.array_equal(gains[s][a], g_keep[s][a]) for a in g_keep[s]) or any(not np.array_equal(cflags[s][a], f_keep[s][a]) for a in f_keep[s]) \
                    or set(gains[s]) != set(g_keep[s]) or set(cflags[s]) != set(f_keep[s]):
                return i, "args", "the calibration solution passed in was modified"
        if set(data.keys()) != set(keys):
            return i, "keys", f"baselines changed: {sorted(data.keys())}"
        for x in st["st"]:
            k = tuple(x["k"])
            n = keys[k]
            want_f, junk = mask(x["fl"], n), mask(x["junk"], n)
            if not np.array_equal(np.asarray(flags[k]), want_f):
                return i, "flags", f"{e}: flags of {k} are {np.asarray(flags[k]).astype(int).tolist()}, specification says {want_f.astype(int).tolist()}"
            want = orig[k].copy()
            a, b = ants_of(k)
            for s, p in enumerate(x["expo"], 1):
                if p and a in gains[s] and b in gains[s]:
                    ga, gb = resample(gains[s][a], n), resample(gains[s][b], n)
                    want *= (ga * np.conj(gb)) ** p
            if extra is not None and k in extra[0]:
                want *= extra[1]
            got = data[k]
            ok = np.isclose(got, want, rtol=1e-8, atol=1e-12) | junk
            if got.shape != want.shape or not ok.all():
                return i, "data", f"{e}: data of {k} are {got.tolist()}, specification says {want.tolist()}"
            if auto(k) and np.abs(got.imag[~junk]).max(initial=0) > 1e-12:
                return i, "data", f"{e}: autocorrelation {k} became complex"
    return None


def check(chk):
    runs = [("0,1,2", 2, "4", "4", 3, chk.n(400, 6000)), ("0,1,2", 3, "1,2,4", "1,2,4,8", 4, chk.n(400, 6000)), ("0,1,2,10", 2, "2,4", "1,2,4", 6, chk.n(150, 3000)), ("0,1,2", 2, "4,8", "2,4", 3, chk.n(150, 3000))]
    for ants, ns, nts, ngs, depth, num in runs:
        traces, _ = chk.tlc("ApplyCal", CFG % (ants, ns, nts, ngs, depth), mode="sim", num=num, depth=depth + 3)
        for t in traces:
            r = replay(t, chk.rng)
            chk.traces += 1
            chk.ran(len(t) - 1)
            if r:
                chk.fail(r[1], f"step {r[0]}: {r[2]}", t[:r[0] + 1])
        chk.sample(traces[0][:2])
        last = traces[-1]
    if not chk.viol:
        bad = copy.deepcopy(last)
        x = bad[-1]["st"][0]
        x["fl"] = x["fl"][1:] if x["fl"] else [[0, 0]]
        assert replay(bad, chk.rng) is not None
        chk.binding.append("a behaviour with one flag altered is rejected")


if __name__ == "__main__":
    main("C05", check, assumptions=["3-4 antennas, 4 polarizations, 2 channels, up to 8 integrations, histories up to 6 calls"])
