"""C12: flag summaries (per-antenna synthesis, factorization, threshold/broadcast, minimal boxes, distances, Sun)."""
import copy
import warnings
import numpy as np
warnings.simplefilter("ignore")
from vlib import main, run_isolated
import synth
from hera_cal import flag_utils, smooth_cal, utils
from hera_cal.datacontainer import DataContainer

CONST = "CONSTANTS\n Kinds = {%s}\n MaxT = %d\n MaxF = %d\n Ants = {%s}\n Exh = %s\n"
INV = "INIT Init\nNEXT Next\nINVARIANT NeverUnflags\nINVARIANT Stable\nINVARIANT Separable\nINVARIANT BoxCovers\nINVARIANT DeadStaysOut\n"


def wf(pix, i):
    a = np.zeros((i["nt"], i["nf"]), bool)
    for t, f in pix:
        a[t - 1, f - 1] = True
    return a


fr = lambda th: th[0] / th[1]


def do(rec, rng):
    i, o = rec["in"], rec["out"]
    k = i["kind"]
    if k == "synth":
        fl = {(b["k"][0], b["k"][1], b["k"][2] + b["k"][3]): wf(b["f"], i) for b in i["bls"]}
        keys = list(fl)
        rng.shuffle(keys)
        dc = DataContainer({x: fl[x].copy() for x in keys})
        r = run_isolated(flag_utils.synthesize_ant_flags, dc, threshold=fr(i["thr"]))
        if r[0] == "err":
            return "synth-raised", f"synthesize_ant_flags raised {r[1:]}"
        want = {(x["a"][0], "J" + x["a"][1] * 2): (wf(x["f1"], i), wf(x["f2"], i)) for x in o}
        if set(r[1]) != set(want):
            return "synth-ants", f"antennas {sorted(r[1])}, expected {sorted(want)}"
        for a in want:
            if not any(np.array_equal(r[1][a], w) for w in want[a]):
                return "synth", f"threshold {i['thr']}: flags of {a} are {r[1][a].astype(int).tolist()}, specification says {want[a][0].astype(int).tolist()}"
        for x in keys:
            if not np.array_equal(dc[x], fl[x]):
                return "synth-mutates", "synthesize_ant_flags changed its input"
    elif k == "fact":
        f0, w = wf(i["f"], i), wf(o, i)
        sp = [(a - 1, b) for a, b in i["spws"]]
        if len(sp) == 1 and sp[0] == (0, i["nf"]) and rng.random() < .5:
            sp = None
        mode = rng.choice(["arr", "arr-in", "dc", "dc-in"])
        arg = f0.copy() if mode[:3] == "arr" else DataContainer({(0, 1, "nn"): f0.copy(), (0, 2, "nn"): f0.copy()})
        r = run_isolated(flag_utils.factorize_flags, arg, spw_ranges=sp, time_thresh=fr(i["thr"]), inplace=mode.endswith("in"))
        if r[0] == "err":
            return "fact-raised", f"factorize_flags raised {r[1:]}"
        got = arg if mode.endswith("in") else r[1]
        if mode[:2] == "dc":
            if not np.array_equal(got[(0, 1, "nn")], got[(0, 2, "nn")]):
                return "fact", "factorize_flags treats equal baselines differently"
            got, arg = got[(0, 1, "nn")], arg[(0, 1, "nn")]
        if not np.array_equal(got, w):
            return "fact", f"{mode}: flags {f0.astype(int).tolist()} spws {sp} thresh {i['thr']} give {got.astype(int).tolist()}, specification says {w.astype(int).tolist()}"
        if not mode.endswith("in") and not np.array_equal(arg, f0):
            return "fact-mutates", "factorize_flags(inplace=False) changed its input"
    elif k == "thr":
        fl = {(a, "Jee"): wf(f, i) for a, f in enumerate(i["fl"])}
        arg = copy.deepcopy(fl)
        r = run_isolated(smooth_cal.flag_threshold_and_broadcast, arg, freq_threshold=fr(i["tf"]), time_threshold=fr(i["tt"]), ant_threshold=fr(i["ta"]))
        if r[0] == "err":
            return "thr-raised", f"flag_threshold_and_broadcast raised {r[1:]}"
        for a, f in enumerate(o):
            if not np.array_equal(arg[(a, "Jee")], wf(f, i)):
                return "thr", (f"freq_threshold {i['tf']} time_threshold {i['tt']} ant_threshold {i['ta']} on {[x.astype(int).tolist() for x in fl.values()]}: antenna {a} "
                               f"{arg[(a, 'Jee')].astype(int).tolist()}, specification says {wf(f, i).astype(int).tolist()}")
        again = copy.deepcopy(arg)
        smooth_cal.flag_threshold_and_broadcast(again, freq_threshold=fr(i["tf"]), time_threshold=fr(i["tt"]), ant_threshold=fr(i["ta"]))
        if any(not np.array_equal(again[a], arg[a]) for a in arg):
            return "thr-unstable", "thresholding twice flags more than once"
    elif k == "box":
        f0 = wf(i["f"], i)
        freqs = 1e8 + 1e5 * np.arange(i["nf"])
        cuts = [1e8 + 1e5 * (c - .5) for c in i["cuts"]]
        rng.shuffle(cuts)
        a = f0.copy()
        r = run_isolated(flag_utils.get_minimal_slices, a, **(dict(freqs=freqs, freq_cuts=cuts) if cuts else {}))
        if r[0] == "err":
            return "box-raised", f"get_minimal_slices raised {r[1:]}"
        ts, bs = r[1]
        if len(ts) != len(o) or len(bs) != len(o):
            return "box", f"{len(ts)} bands, expected {len(o)}"
        for t, b, w in zip(ts, bs, o):
            got = [0, 0, 0, 0] if t is None and b is None else [t.start + 1, t.stop, b.start + 1, b.stop]
            if got != w:
                return "box", f"flags {f0.astype(int).tolist()} cuts {i['cuts']}: box (1-based) {got}, specification says {w}"
        if not np.array_equal(a, f0):
            return "box-mutates", "get_minimal_slices changed its input"
    else:
        f0 = wf(i["f"], i)
        w = np.where(np.array(o) == 999, np.inf, np.array(o, float))
        for arg, ww in ((f0.astype(rng.choice([bool, int, float])), w), (f0[0], w[0])):
            r = run_isolated(flag_utils.distance_to_nearest_nonzero, arg)
            if r[0] == "err" or not np.array_equal(r[1], ww):
                return "dist", f"distance_to_nearest_nonzero({arg.tolist()}) = {r[1:]}, specification says {ww.tolist()}"
    return None


def solar(chk):
    """flags gain exactly the rows with the Sun above the limit"""
    rng = np.random.default_rng(chk.seed)
    for j in range(chk.n(12, 150)):
        nt, nf = int(rng.integers(1, 9)), int(rng.integers(1, 4))
        times = 2458000 + rng.uniform(0, 300) + np.sort(rng.uniform(0, 1, nt))
        alts = np.atleast_1d(utils.get_sun_alt(times))
        lim = float(rng.choice([0., -12., 10.]))
        up = alts > lim
        if np.any(np.abs(alts - lim) < 1e-3):
            continue
        f0 = rng.random((nt, nf)) < .4
        want = f0 | up[:, None]
        # other places see the Sun elsewhere
        if rng.random() < .4:
            lo, la = float(rng.uniform(-180, 180)), float(rng.uniform(-60, 60))
            al2 = np.atleast_1d(utils.get_sun_alt(times, longitude=lo, latitude=la))
            chk.ran()
            if not np.any(np.abs(al2 - lim) < 1e-3):
                r = run_isolated(flag_utils.solar_flag, f0.copy(), times=times, flag_alt=lim, longitude=lo, latitude=la, verbose=False)
                if r[0] == "err" or not np.array_equal(r[1], f0 | (al2 > lim)[:, None]):
                    chk.fail("sun-place", f"solar_flag at longitude {lo}, latitude {la}, alt>{lim} with Sun at {al2.tolist()}: {r[1:]}")
        if rng.random() < .4 and nt > 1:
            # on a coarse grid of times it agrees away from the limit
            tt = times[0] + np.linspace(0, .9, 40)
            al2 = utils.get_sun_alt(tt)
            r = run_isolated(flag_utils.solar_flag, np.zeros((40, 1), bool), times=tt, flag_alt=lim, interp=True, interp_Nsteps=21, verbose=False)
            far = np.abs(al2 - lim) > 4
            if r[0] == "err" or not np.array_equal(r[1][far, 0], (al2 > lim)[far]):
                chk.fail("sun-interp", f"solar_flag(interp=True) with Sun at {al2.tolist()}: {r[1:]}")
        # whole data sets carry their own place and times, here with different integrations per baseline order
        fl = {(0, 1, "nn"): f0, (1, 2, "nn"): rng.random((nt, nf)) < .4}
        fast = bool(rng.random() < .5)
        uvd = synth.make_uvd([(0, 1), (1, 2)], ["nn"], times, 1e8 + 1e6 * np.arange(nf), lambda kind, k: fl[k] if kind == "flags" else np.ones((nt, nf)), {a: np.array([14. * a, 0, 0]) for a in range(3)}, time_fast=fast)
        lat, lon, _ = uvd.telescope.location_lat_lon_alt_degrees
        ua = np.atleast_1d(utils.get_sun_alt(np.unique(uvd.time_array), longitude=lon, latitude=lat))
        if not np.any(np.abs(ua - lim) < 1e-3) and np.all(np.diff(times) > 1e-3):
            inp = bool(rng.random() < .5)
            r = run_isolated(flag_utils.solar_flag, uvd, flag_alt=lim, inplace=inp, verbose=False)
            chk.ran()
            got = uvd if inp else r[1]
            for k in fl:
                if r[0] == "err" or not np.array_equal(got.get_flags(k), fl[k] | (ua > lim)[:, None]):
                    chk.fail("sun-uvd", f"solar_flag(UVData, alt>{lim}, inplace={inp}) with Sun at {ua.tolist()} gives {r[1:] if r[0] == 'err' else got.get_flags(k).astype(int).tolist()} from {fl[k].astype(int).tolist()}")
                if not inp and not np.array_equal(uvd.get_flags(k), fl[k]):
                    chk.fail("sun-mutates", "solar_flag(inplace=False) changed its input")
        for mode in ("arr", "arr-in", "dc", "dc-in"):
            arg = f0.copy() if mode[0] == "a" else DataContainer({(0, 1, "nn"): f0.copy(), (1, 2, "ee"): f0.copy()})
            r = run_isolated(flag_utils.solar_flag, arg, times=times, flag_alt=lim, inplace=mode.endswith("in"), verbose=False)
            chk.ran()
            if r[0] == "err":
                chk.fail("sun-raised", f"solar_flag raised {r[1:]}")
                continue
            got = arg if mode.endswith("in") else r[1]
            for g in ([got] if mode[0] == "a" else [got[k] for k in got]):
                if not np.array_equal(g, want):
                    chk.fail("sun", f"solar_flag({mode}, alt>{lim}) with Sun at {alts.tolist()}: {g.astype(int).tolist()} from {f0.astype(int).tolist()}")
            if not mode.endswith("in") and not np.array_equal(arg if mode[0] == "a" else arg[(0, 1, "nn")], f0):
                chk.fail("sun-mutates", "solar_flag(inplace=False) changed its input")


def check(chk):
    recs, _ = chk.tlc("FlagAlgebra", INV + CONST % ('"fact"', 3, 3, "0", "TRUE"), mode="bfs", workers=1)
    n_exh = len(recs)
    assert n_exh >= 512 * (4 * 3 + 4 * 3 + 4), n_exh
    for k, num, mt, mf in (("synth", chk.n(900, 12000), 3, 3), ("fact", chk.n(600, 8000), 5, 6), ("thr", chk.n(900, 12000), 6, 6), ("box", chk.n(400, 4000), 5, 7), ("dist", chk.n(200, 2000), 3, 9)):
        recs += chk.tlc("FlagAlgebra", INV + CONST % (f'"{k}"', mt, mf, "0,1,2,3", "FALSE"), mode="sim", num=num, depth=4)[0]
    cnt = {}
    for r in recs:
        res = do(r, chk.rng)
        chk.ran()
        chk.traces += 1
        cnt[r["in"]["kind"]] = cnt.get(r["in"]["kind"], 0) + 1
        if res:
            chk.fail(res[0], res[1], r)
    chk.extra["by_kind"] = cnt
    solar(chk)
    chk.sample(recs[0])
    chk.sample(recs[-1000])
    # the comparison can fail: one flag of the specified result removed
    if not chk.viol:
        hit = 0
        for r in recs:
            if r["in"]["kind"] == "fact" and r["out"]:
                c = copy.deepcopy(r)
                c["out"] = c["out"][1:]
                hit += do(c, chk.rng) is not None
                if hit == 5:
                    break
        assert hit == 5
        chk.binding.append("removing one flag from a specified factorization makes the replay fail (5 of 5)")


if __name__ == "__main__":
    main("C12", check, assumptions=["all 3x3 flag patterns for factorization, thresholding and boxes; random patterns to 6x6, 14 baselines; thresholds that tie are dyadic"])
