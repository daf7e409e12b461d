"""C21: averaging in time and interleaving conserve data."""
import copy
import os
import warnings
import numpy as np
import h5py
warnings.simplefilter("ignore")
from vlib import main, run_isolated
import synth
from synth import FREQ, DT
from pyuvdata import UVFlag
from pyuvdata import utils as uvutils
from hera_cal import frf, io, utils
from hera_cal.datacontainer import DataContainer

CFG = "INIT Init\nNEXT Next\nINVARIANT Restores\nINVARIANT Conserves\nINVARIANT WithinBounds\nCONSTANTS\n MaxT = %d\n MaxF = %d\n"
POS = {a: np.array([14.6 * a, 3. * a * a, 0.]) for a in range(3)}
PRS = [(0, 1), (1, 2), (1, 1)]


def lst(jd):
    return uvutils.get_lst_for_time(np.atleast_1d(jd), telescope_loc=synth.HERA)


def start(wrap, rng):
    jd = 2458100.3 + rng.uniform(0, 300)
    for _ in range(4):
        jd -= ((lst(jd)[0] + np.pi) % (2 * np.pi) - np.pi) / (2 * np.pi) * 0.99726956633
    return jd - wrap * DT


circ = lambda a, b: np.abs((np.asarray(a) - np.asarray(b) + np.pi) % (2 * np.pi) - np.pi)


def arrays(i):
    return np.array(i["re"]) + 1j * np.array(i["im"]), np.array(i["fl"], bool), np.array(i["ns"], float)


def compare(o, got, tag):
    """o: specified windows; got = data, flags, nsamples"""
    d, f, n = got
    if len(d) != len(o) or len(f) != len(o) or len(n) != len(o):
        return tag + "-windows", f"{len(d)} windows, specification says {len(o)}"
    for w, x in enumerate(o):
        for c, v in enumerate(x["c"]):
            if bool(f[w, c]) != v["fl"]:
                return tag + "-flags", f"window {w + 1}, channel {c + 1}: flag {f[w, c]}, specification says {v['fl']}"
            if abs(n[w, c] - v["n"]) > 1e-4:
                return tag + "-nsamples", f"window {w + 1}, channel {c + 1}: {n[w, c]} samples, specification says {v['n']}"
            if not v["fl"] and abs(d[w, c] - (v["re"] + 1j * v["im"]) / v["w"]) > 1e-4:
                return tag + "-data", f"window {w + 1}, channel {c + 1}: {d[w, c]}, specification says ({v['re']}+{v['im']}j)/{v['w']}"


def kwof(i):
    return dict(wgt_by_nsample=i["wgt"] == "n", wgt_by_favg_nsample=i["wgt"] == "favg")


def do(rec, rng, idx, d):
    i, o, sets = rec["in"], rec["out"], rec["sets"]
    D, F, N = arrays(i)
    nt, n = i["nt"], i["n"]
    T0 = start(rng.choice([rng.uniform(-3, nt + 3), 5000]), rng)
    times = T0 + np.arange(nt) * DT
    lsts = lst(times)
    # dealing and weaving
    r = run_isolated(frf.deinterleave_data_in_time, times, D, ninterleave=n)
    if r[0] == "err":
        return "deal-raised", f"deinterleave_data_in_time raised {r[1:]}"
    ts, ds = r[1]
    for k, s in enumerate(sets):
        ix = np.array(s) - 1
        if not (np.array_equal(ts[k], times[ix]) and np.array_equal(ds[k], D[ix])):
            return "deal", f"set {k + 1} of {n}: integrations {[int(np.argmin(np.abs(times - t))) + 1 for t in ts[k]]}, specification says {s}"
    for a in (D, F, N, times):
        r = run_isolated(frf.interleave_data_in_time, [a[np.array(s) - 1] for s in sets])
        if r[0] == "err" or not np.array_equal(r[1], a):
            return "weave", f"interleaving {n} sets of {nt} integrations does not restore them: {r[1:]}"
    # averaging each set
    for k, s in enumerate(sets):
        ix = np.array(s) - 1
        na = min(len(ix), int(np.floor(i["q"] / 4 / n + .5)))
        keep = [D[ix].copy(), F[ix].copy(), N[ix].copy()]
        a = [x.copy() for x in keep]
        r = run_isolated(frf.timeavg_waterfall, a[0], na, flags=a[1], nsamples=a[2], lsts=lsts[ix], extra_arrays={"times": times[ix], "z": ix + 1.}, verbose=False, **kwof(i))
        if r[0] == "err":
            return "avg-raised", f"timeavg_waterfall raised {r[1:]}"
        ad, af, an, al, ea = r[1]
        res = compare(o[k], (ad, af, an), "avg")
        if res:
            return res
        mid = np.array([x["t"][0] / x["t"][1] for x in o[k]])
        if not np.allclose(ea["avg_z"], mid) or not np.allclose(ea["avg_times"], T0 + (mid - 1) * DT, atol=1e-8, rtol=0):
            return "avg-times", f"window times {ea['avg_z']}, specification says {mid}"
        if np.any(circ(al, lst(T0 + (mid - 1) * DT)) > 1e-7) or np.any((al < 0) | (al >= 2 * np.pi)):
            return "avg-lsts", f"window sidereal times {al}, specification says {lst(T0 + (mid - 1) * DT)}"
        if any(not np.array_equal(x, y) for x, y in zip(a, keep)):
            return "avg-mutates", "timeavg_waterfall changed its input"
        # unevenly spaced integrations: the window stands at the mean of its sidereal times
        u = np.sort(np.array([rng.uniform(0, .3) for _ in ix]))
        r = run_isolated(frf.timeavg_waterfall, a[0], na, flags=a[1], nsamples=a[2], lsts=u, extra_arrays={"z": ix + 1.}, verbose=False, **kwof(i))
        if r[0] == "err" or not np.allclose(r[1][3], [u[w:w + na].mean() for w in range(0, len(u), na)]):
            return "avg-uneven", f"windows of {na} over {u.tolist()} stand at {r[1:] if r[0] == 'err' else r[1][3].tolist()}"
        # what is not given: no flags, one sample each, no sidereal times
        clean, ones = np.zeros_like(F[ix]), np.ones_like(N[ix], dtype=float)
        r1 = run_isolated(frf.timeavg_waterfall, a[0], na, flags=clean, nsamples=ones, lsts=lsts[ix], verbose=False, **kwof(i))
        r2 = run_isolated(frf.timeavg_waterfall, a[0], na, verbose=False, **kwof(i))
        if "err" in (r1[0], r2[0]) or any(not np.allclose(x, y) for x, y in zip(r1[1][:3], r2[1][:3])) or len(r2[1][3]):
            return "avg-default", f"without flags and samples: {r2[1:] if r2[0] == 'err' else [x.tolist() for x in r2[1][:3]]}, as if {r1[1:] if r1[0] == 'err' else [x.tolist() for x in r1[1][:3]]} were not said"
        # with rephasing: a signal that only drifts comes out at the centre's phase
        if rng.random() < .2:
            bl, fr = np.array([14.6, -7., 0.]), FREQ(np.arange(i["nf"]))
            l0 = lsts[ix][0]
            one = np.ones((1, 1, i["nf"]), complex)
            sig = np.array([utils.lst_rephase(one.copy(), bl, fr, np.array([(x - l0 + np.pi) % (2 * np.pi) - np.pi]), inplace=False)[0, 0] for x in lsts[ix]])
            rp = frf.timeavg_waterfall(sig, na, flags=F[ix], nsamples=N[ix], lsts=lsts[ix], rephase=True, freqs=fr, bl_vec=bl, verbose=False, **kwof(i))
            want = np.array([utils.lst_rephase(one.copy(), bl, fr, np.array([(x - l0 + np.pi) % (2 * np.pi) - np.pi]), inplace=False)[0, 0] for x in rp[3]])
            if not np.allclose(rp[0][~rp[1]], want[~rp[1]], atol=2e-4):
                return "avg-rephase", f"a drifting signal is not averaged at the window's centre: off by {np.abs(rp[0] - want)[~rp[1]].max()}"
    return None


def do_file(rec, rng, idx, d):
    i, o, sets = rec["in"], rec["out"], rec["sets"]
    D, F, N = arrays(i)
    nt, nf, n = i["nt"], i["nf"], i["n"]
    if min(len(s) for s in sets) < 2:
        return None                                             # the spacing of a set is measured from it
    T0 = start(rng.choice([rng.uniform(0, nt), 5000]), rng)
    times = T0 + np.arange(nt) * DT
    nsplit = rng.randint(1, 3) if nt >= 3 else 1
    cuts = [0] + sorted(rng.sample(range(1, nt), nsplit - 1)) + [nt]
    pols = rng.choice([["ee"], ["ee", "nn"]])
    # every baseline has the waterfall with its own factor and its own roll of the flags
    keys = [p + (q,) for p in PRS for q in pols]
    fac = {k: 1. + j for j, k in enumerate(keys)}
    names = []
    for f in range(nsplit):
        sl = slice(cuts[f], cuts[f + 1])
        wf = lambda kind, k: {"data": fac[k] * (D[sl].real + 0j if k[0] == k[1] else D[sl]), "flags": F[sl], "nsamples": N[sl]}[kind]
        uvd = synth.make_uvd(PRS, pols, times[sl], FREQ(np.arange(nf)), wf, POS, time_fast=rng.random() < .5)
        fn = os.path.join(d, f"in.{f}.uvh5")
        uvd.write_uvh5(fn, clobber=True, run_check=False)
        names.append(fn)
    out, fout = os.path.join(d, "avg.uvh5"), os.path.join(d, "avg.flags.h5")
    bls = rng.choice([None, None, [(0, 1), (1, 1)], [(0, 1, pols[-1])]])
    useq = [k for k in keys if bls is None or k in bls or k[:2] in bls]
    r = run_isolated(frf.time_avg_data_and_write, names, out, i["q"] / 4 * DT * 86400, baseline_list=bls, rephase=False, ninterleave=n,
                     equalize_interleave_times=i["eqt"], equalize_interleave_ntimes=i["eqn"], flag_output=fout, clobber=rng.random() < .5, **kwof(i))
    if r[0] == "err":
        return "file-raised", f"time_avg_data_and_write raised {r[1:]}"
    least = min(len(x) for x in o)
    for k in range(n):
        on = out if n == 1 else out.replace(".uvh5", f".interleave_{k}.uvh5")
        if not os.path.exists(on):
            return "file-missing", f"{os.path.basename(on)} was not written"
        want = o[k] if n == 1 or not (i["eqt"] or i["eqn"]) else o[k][:least]
        hd = io.HERAData(on)
        dd, ff, nn = hd.read()
        if set(dd.keys()) != set(useq):
            return "file-keys", f"baselines {sorted(dd.keys())} written, expected {sorted(useq)}"
        for key in useq:
            w = copy.deepcopy(want)
            for x in w:
                for v in x["c"]:
                    v["re"], v["im"] = fac[key] * v["re"], (0 if key[0] == key[1] else fac[key] * v["im"])
            res = compare(w, (dd[key], ff[key], nn[key]), "file")
            if res:
                return res[0], f"{key} of file {k + 1} of {n}: {res[1]}"
        mid = np.array([x["t"][0] / x["t"][1] for x in want])
        if n > 1 and i["eqt"]:
            mid = np.mean([[x["t"][0] / x["t"][1] for x in o[j][:least]] for j in range(n)], axis=0)
        wt = T0 + (mid - 1) * DT
        with h5py.File(on) as h:
            ta, la, a1 = h["Header/time_array"][()], h["Header/lst_array"][()], h["Header/ant_1_array"][()]
            p = h["Header/ant_2_array"][()] * 100 + a1
        for q in np.unique(p):
            if not np.allclose(ta[p == q], wt, rtol=0, atol=1e-8):
                return "file-times", f"times {(ta[p == q] - T0) / DT + 1} written to file {k + 1} of {n}, specification says {mid}"
            if np.any(circ(la[p == q], lst(wt)) > 1e-5):
                return "file-lsts", f"sidereal times {la[p == q]} written to file {k + 1} of {n}, times say {lst(wt)}"
        uvf = UVFlag(fout if n == 1 else fout.replace(".h5", f".interleave_{k}.h5"))
        wfl = np.array([[v["fl"] for v in x["c"]] for x in want])
        if not np.array_equal(np.squeeze(uvf.flag_array, -1) if uvf.flag_array.ndim == 3 else uvf.flag_array, wfl):
            return "file-flagfile", f"the flag file of set {k + 1} does not hold the averages' flags"
    return None


def chunks(chk):
    """averaging key by key, in any order of calls, gives the same containers"""
    import random
    rng = random.Random(chk.seed)
    for j in range(chk.n(6, 60)):
        d = os.path.join(chk.scratch, f"k{j}")
        os.makedirs(d)
        rg = np.random.default_rng([chk.seed, j])
        nt, nf = int(rg.integers(4, 12)), 3
        vals = {}

        def wf(kind, k):
            if k not in vals:
                vals[k] = dict(data=rg.normal(size=(nt, nf)) + 1j * rg.normal(size=(nt, nf)) * (k[0] != k[1]), flags=rg.random((nt, nf)) < .3, nsamples=rg.integers(1, 4, (nt, nf)).astype(float))
            return vals[k][kind]
        times = 2458100.3 + np.arange(nt) * DT
        fn = os.path.join(d, "x.uvh5")
        synth.make_uvd(PRS, ["ee", "nn"], times, FREQ(np.arange(nf)), wf, POS).write_uvh5(fn, clobber=True, run_check=False)
        F1, F2 = frf.FRFilter(fn), frf.FRFilter(fn)
        F1.read()
        F2.read()
        tav = int(rg.integers(1, nt)) * DT * 86400
        a = lambda F: (F.data, F.times, F.lsts, tav)
        b = lambda F: dict(flags=F.flags, nsamples=F.nsamples, verbose=False)
        r = run_isolated(F1.timeavg_data, *a(F1), **b(F1))
        ks = list(F2.data.keys())
        rng.shuffle(ks)
        for k in ks:
            F2.timeavg_data(*a(F2), keys=[k], **b(F2))
        if rng.random() < .7:
            F2.timeavg_data(*a(F2), **b(F2))                    # everything is there already: nothing may change
        # without flags and samples; done again over other data, results stay unless told to be overwritten
        F3 = frf.FRFilter(fn)
        F3.read()
        F3.timeavg_data(F3.data, F3.times, F3.lsts, tav, verbose=False)
        first = {k: [F3.avg_data[k].copy(), F3.avg_flags[k].copy(), F3.avg_nsamples[k].copy()] for k in F3.data.keys()}
        for k in F3.data.keys():
            na = min(nt, int(np.round(tav / (DT * 86400))))
            if not np.allclose(first[k][0], [F3.data[k][w:w + na].mean(0) for w in range(0, nt, na)], atol=1e-5) or first[k][1].any():
                chk.fail("default", f"timeavg_data without flags and samples is not the plain mean for {k}")
        twice = DataContainer({k: 2 * F3.data[k] for k in F3.data.keys()})
        ow = bool(rng.random() < .5)
        F3.timeavg_data(twice, F3.times, F3.lsts, tav, verbose=False, overwrite=ow)
        if any(not np.allclose(F3.avg_data[k], first[k][0] * (2 if ow else 1), atol=1e-5) for k in first):
            chk.fail("overwrite", f"averaging again with overwrite={ow} {'kept' if ow else 'replaced'} the earlier averages")
        # taken apart and put together, every container is what it was
        nw = rng.randint(1, 3)
        for nm in ("data", "flags", "nsamples"):
            F3._deinterleave_data_in_time(nm, ninterleave=nw, set_time_sets=nm == "data")
            names = [f"{nm}_interleave_{q}" for q in range(nw)]
            old = {k: getattr(F3, nm)[k].copy() for k in getattr(F3, nm).keys()}
            one = rng.random() < .5
            dst = f"back_{nm}"
            if one:
                k1 = list(old)[0]
                F3._interleave_data_in_time(names, dst, keys=[k1])
            F3._interleave_data_in_time(names, dst)
            if any(not np.array_equal(getattr(F3, dst)[k], old[k]) for k in old):
                chk.fail("weave-container", f"{nm} dealt in {nw} and interleaved again differs")
        chk.ran()
        if r[0] == "err":
            chk.fail("keys-raised", f"timeavg_data raised {r[1:]}")
            continue
        same = all(np.array_equal(getattr(F1, x)[k], getattr(F2, x)[k]) for x in ("avg_data", "avg_flags", "avg_nsamples") for k in F1.data.keys())
        if not same or not np.array_equal(F1.avg_times, F2.avg_times) or not np.array_equal(F1.avg_lsts, F2.avg_lsts):
            chk.fail("keys", f"averaging key by key differs from averaging at once: times {F2.avg_times} against {F1.avg_times}")


def check(chk):
    recs, _ = chk.tlc("TimeAvg", CFG % (12, 3), mode="sim", num=chk.n(900, 12000), depth=6)
    n = len(recs)
    assert n > chk.n(500, 7000), n
    nf = chk.n(110, 1500)
    jobs = [(do, recs, ""), (do_file, recs[:nf], "f")]
    for fn, rs, tag in jobs:
        for r, res in zip(rs, chk.pmap(fn, rs, tag=tag)):
            chk.ran()
            chk.traces += 1
            if res:
                chk.fail(res[0], res[1], r)
    chunks(chk)
    chk.extra["interleaved"] = sum(r["in"]["n"] > 1 for r in recs)
    chk.extra["files"] = nf
    chk.sample(recs[0])
    chk.sample(recs[-1])
    bad = copy.deepcopy([r for r in recs if any(not c["fl"] for c in r["out"][0][-1]["c"])][:30])
    for r in bad:
        next(c for c in r["out"][0][-1]["c"] if not c["fl"])["re"] += 1
    k = sum(x is not None for x in chk.pmap(do, bad, tag="b"))
    assert k == len(bad) or chk.viol, (k, len(bad))
    chk.binding.append(f"changing one specified average makes {k} of {len(bad)} replays fail")


if __name__ == "__main__":
    main("C21", check, assumptions=["finite data, positive sample counts, averaging times not exactly between two window sizes"])
