"""C18: averages over nights in one sidereal-time bin."""
import types
import warnings
import numpy as np
warnings.simplefilter("ignore")
import logging
logging.disable(logging.CRITICAL)
from vlib import main, run_isolated
from hera_cal.lst_stack import averaging, flagging
from hera_cal.lst_stack.binning import SingleBaselineStacker

NB, NC, NP = 2, 3, 2
CFG = f"INIT Init\nNEXT Next\nINVARIANT CountsOnlyGood\nINVARIANT FlagIffNothing\nCONSTANTS\n NB = {NB}\n NC = {NC}\n NP = {NP}\n MaxNights = 4\n"
L = 6


def arrays(i):
    v = i["val"]
    shp = (i["nn"], NB, NC, NP)
    g = lambda fn, dt: np.array([[[[fn(c) for c in ch] for ch in b] for b in n] for n in v], dt).reshape(shp)
    d = g(lambda c: complex(*c["d"]) if c["k"] != "nan" else complex(np.nan, 0), complex)
    f = g(lambda c: c["k"] == "flag", bool)
    n = g(lambda c: -c["n"] - 0.0 if c["k"] == "inp" else c["n"], float)
    return d, f, n


def grid(o, fn, dt):
    return np.array([[[fn(c) for c in ch] for ch in b] for b in o], dt)


def do(rec, rng, idx, d):
    i, o = rec["in"], rec["out"]
    D, F, Ns = arrays(i)
    kind = np.array([[[[c["k"] for c in ch] for ch in b] for b in n] for n in i["val"]]).reshape(D.shape) if i["nn"] else np.empty(D.shape, dtype=object)
    if np.any((kind == "inp") & (Ns == 0)):
        # in-painted data are marked by a negative count: give them one
        Ns = np.where((kind == "inp") & (Ns == 0), -1., Ns)
    perm = list(range(i["nn"]))
    rng.shuffle(perm)
    D, F, Ns = D[perm], F[perm], Ns[perm]
    d0, f0, n0 = D.copy(), F.copy(), Ns.copy()
    mad = rng.random() < .5
    kw = dict(inpainted_mode=i["mode"], get_std=i["std"], get_mad=mad, mean_fill_value=rng.choice([np.nan, 0, np.inf]))
    if rng.random() < .5:
        r = run_isolated(averaging.reduce_lst_bins, data=D, flags=F, nsamples=Ns, **kw)
    else:
        r = run_isolated(averaging.reduce_lst_bins, types.SimpleNamespace(data=D, flags=F, nsamples=Ns), **kw)
    what = f"reduce_lst_bins({i['nn']} nights, {kw})"
    if r[0] == "err":
        return ("raised", f"{what} raised {r[1:]}")
    if not (np.array_equal(D, d0, equal_nan=True) and np.array_equal(F, f0) and np.array_equal(Ns, n0)):
        return ("mutates", f"{what} changed its inputs")
    r = r[1]
    wf, ww = grid(o, lambda c: c["f"], bool), grid(o, lambda c: c["w"], float)
    mean = grid(o, lambda c: complex(c["re"], c["im"]) / c["w"] if c["w"] else 0, complex)
    wn, wd = grid(o, lambda c: c["nL"] / L, float), grid(o, lambda c: c["days"], int)
    for nm, g, w in (("flags", r["flags"], wf), ("nsamples", r["nsamples"], wn), ("days_binned", r["days_binned"], wd)):
        if np.asarray(g).shape != w.shape or not np.allclose(np.asarray(g).astype(float), w.astype(float)):
            return (nm, f"{what}: {nm} are {np.asarray(g).tolist()}, specification says {w.tolist()}; nights {i['val']}")
    ok = ww > 0
    if not np.allclose(np.asarray(r["data"])[ok], mean[ok]):
        return ("mean", f"{what}: mean {np.asarray(r['data']).tolist()}, specification says {mean.tolist()} where weight {ww.tolist()}")
    if i["nn"] and not i["std"] and r["std"] is not None:
        return ("std", f"{what}: std returned although not requested")
    if i["nn"] and i["std"]:
        def std(c):
            if c["nL"] == 0 or c["w"] == 0:
                return 0
            m = complex(c["re"], c["im"]) / c["w"]
            v = [(c["s2" + x] - 2 * mm * c["s1" + x] + mm * mm * c["nL"]) / c["nL"] for x, mm in (("re", m.real), ("im", m.imag))]
            return complex(*np.sqrt(np.maximum(v, 0)))
        ws = grid(o, std, complex)
        k = ok & (wn > 0)
        if not np.allclose(np.asarray(r["std"])[k], ws[k], atol=1e-6):
            return ("std", f"{what}: std {np.asarray(r['std'])[k].tolist()}, specification says {ws[k].tolist()}")
    for nm in ("median", "mad"):
        if mad != (r[nm] is not None) or mad and np.shape(r[nm]) != wf.shape or mad and not i["nn"] and np.any(np.isfinite(r[nm])):
            return (nm, f"{what}: {nm} is {r[nm]}")
    if mad and i["nn"]:
        use = np.array([[[[c["k"] == "ok" or (i["mode"] and c["k"] == "inp") for c in ch] for ch in b] for b in n] for n in i["val"]])[perm]
        for c in np.ndindex(*wf.shape):
            if wf[c]:
                continue
            v = D[(use[(slice(None),) + c],) + c]
            m = complex(np.median(v.real), np.median(v.imag))
            a = complex(np.median(abs(v.real - m.real)), np.median(abs(v.imag - m.imag))) * 1.482579
            if len(v) % 2 and not np.isclose(np.ma.getdata(r["mad"])[c], complex(np.median(abs(v.real - np.ma.getdata(r["median"])[c].real)), np.median(abs(v.imag - np.ma.getdata(r["median"])[c].imag))) * 1.482579):
                return ("mad", f"{what}: MAD of {v} is {np.ma.getdata(r['mad'])[c]}, expected {a}")
            if len(v) == 1 and not np.isclose(np.ma.getdata(r["median"])[c], v[0]):
                return ("median", f"{what}: median of {v} is {np.ma.getdata(r['median'])[c]}")
    # thresholding of flags over nights
    if i["nn"]:
        Fl = np.array([[[[c["k"] in ("flag", "nan") for c in ch] for ch in b] for b in n] for n in i["val"]])[perm]
        thr = i["thr"] / 4
        want = Fl | (grid(o, lambda c: c["nflag"] > thr * i["nn"], bool))
        inpl = rng.random() < .5
        arg = Fl.copy()
        t = run_isolated(flagging.threshold_flags, arg, inplace=inpl, flag_thresh=thr)
        if t[0] == "err" or not np.array_equal(t[1], want) or not np.array_equal(arg, want if inpl else Fl):
            return ("threshold", f"threshold_flags({Fl.astype(int).tolist()}, flag_thresh={thr}, inplace={inpl}) gave {t[1:] if t[0] == 'err' else t[1].astype(int).tolist()} (argument now {arg.astype(int).tolist()}), specification says {want.astype(int).tolist()}")


def do_single(recs, rng, idx, d):
    """several bins of one baseline: data = baseline 1 of each record, 4 nights at most"""
    bins = dict(data=[], flags=[], nsamples=[], where_inpainted=[])
    exp = []
    for rec in recs:
        i, o = rec["in"], rec["out"]
        D, F, _ = arrays(i)
        kind = np.array([[[[c["k"] for c in ch] for ch in b] for b in n] for n in i["val"]]).reshape(D.shape) if i["nn"] else np.empty(D.shape, dtype=object)
        Ns = np.array([[[[c["n"] + 1. for c in ch] for ch in b] for b in n] for n in i["val"]]).reshape(D.shape)
        F = F | (kind == "nan")
        bins["data"].append(D[:, 0]), bins["flags"].append(F[:, 0]), bins["nsamples"].append(Ns[:, 0])
        bins["where_inpainted"].append((kind == "inp")[:, 0])
        exp.append(o[0])
    if rng.random() < .3:
        bins["where_inpainted"] = [None] * len(recs)
    noinp = bins["where_inpainted"][0] is None
    s = SingleBaselineStacker(bin_lst=np.arange(len(recs)) * .1, times_in_bins=[None] * len(recs), lsts_in_bins=[None] * len(recs),
                              hd=types.SimpleNamespace(freqs=np.arange(NC), pols=["ee", "nn"]), **bins)
    keep = [[None if a is None else a.copy() for a in bins[k]] for k in bins]
    cnt = rng.random() < .5
    r = run_isolated(s.average_over_nights, inpainted_data_are_samples=cnt)
    what = f"average_over_nights(inpainted_data_are_samples={cnt}, in-painting known: {not noinp})"
    if r[0] == "err":
        return ("single-raised", f"{what} raised {r[1:]}")
    for a, b in zip([bins[k] for k in bins], keep):
        for x, y in zip(a, b):
            if x is not None and not np.array_equal(x, y, equal_nan=x.dtype != bool):
                return ("single-mutates", f"{what} changed the stack")
    for b, o in enumerate(exp):
        g = lambda fn, dt: np.array([[fn(c) for c in ch] for ch in o], dt)
        wf = g(lambda c: c["bw"] == 0, bool)
        wd = g(lambda c: complex(c["bre"], c["bim"]) / c["bw"] if c["bw"] else 0, complex)
        wn = g(lambda c: c["bw"] if (cnt or noinp) else c["bn"], float)
        if not np.array_equal(r[1][1][b], wf) or not np.allclose(r[1][2][b], wn) or not np.allclose(r[1][0][b], wd):
            return ("single", f"{what}: bin {b}: {[x[b].tolist() for x in r[1]]}, specification says {wd.tolist()}, {wf.tolist()}, {wn.tolist()}")


def do_clip(item, rng, idx, d):
    """sigma clipping about the median with a given scale (integers)"""
    rg = np.random.default_rng(rng.randint(0, 10**9))
    nn, nc = rng.randint(1, 6), 4
    a = rg.integers(-6, 7, (nn, nc)).astype(float)
    bad = rg.random((nn, nc)) < .2
    x = np.ma.masked_array(a, mask=bad) if rng.random() < .5 else np.where(bad, np.nan, a)
    thr, minn = rng.choice([1., 2., 3.]), rng.choice([1, 3, 5])
    scale = rg.integers(1, 4, (nn, nc) if rng.random() < .5 else (nc,)).astype(float)
    typ = rng.choice(["direct", "mean"])
    bands = rng.choice([None, [(0, 2), (2, 4)], [(1, 3)]]) if typ == "mean" else rng.choice([None, [(1, 4)]])
    r = run_isolated(flagging.sigma_clip, x, threshold=thr, min_N=minn, clip_type=typ, scale=scale, threshold_axis=1, flag_bands=bands)
    what = f"sigma_clip({a.tolist()}, masked {bad.astype(int).tolist()}, scale {scale.tolist()}, threshold {thr}, min_N {minn}, {typ}, bands {bands})"
    if r[0] == "err":
        return ("clip-raised", f"{what} raised {r[1:]}")
    med = [np.median(a[~bad[:, c], c]) if (~bad[:, c]).any() else 0 for c in range(nc)]
    z = np.abs(a - med) / scale
    want = np.zeros((nn, nc), bool)
    if nn >= minn:
        for lo, hi in bands or [(0, nc)]:
            for n in range(nn):
                for c in range(lo, hi):
                    if typ == "direct":
                        want[n, c] = z[n, c] > thr
                    else:
                        g = [z[n, e] for e in range(lo, hi) if not bad[n, e]]
                        want[n, c] = bool(g) and np.mean(g) > thr
    got = np.asarray(r[1])
    if not np.array_equal(got & ~bad if typ == "direct" else got & (~bad).any(axis=1)[:, None], want & ~bad if typ == "direct" else want & (~bad).any(axis=1)[:, None]):
        return ("clip", f"{what} flags {got.astype(int).tolist()}, expected {want.astype(int).tolist()}")


def check(chk):
    recs = chk.tlc("LstAverage", CFG, mode="sim", num=chk.n(1000, 15000), depth=4)[0]
    for r, x in zip(recs, chk.pmap(do, recs, tag="red")):
        chk.ran()
        chk.traces += 1
        if x:
            chk.fail(x[0], x[1], r)
    grp = [recs[k:k + 4] for k in range(0, len(recs), 4)]
    for r, x in zip(grp, chk.pmap(do_single, grp, tag="single")):
        chk.ran()
        chk.traces += len(r)
        if x:
            chk.fail(x[0], x[1], r)
    for x in chk.pmap(do_clip, range(chk.n(300, 3000)), tag="clip"):
        chk.ran()
        if x:
            chk.fail(x[0], x[1])
    chk.extra["without_std_in_inpainted_mode"] = sum(r["in"]["mode"] and not r["in"]["std"] for r in recs)
    chk.extra["fully_inpainted_nights"] = sum(any(all(c["k"] == "inp" for b in n for ch in b for c in ch) for n in r["in"]["val"]) for r in recs)
    chk.sample(recs[0])
    if not chk.viol:
        import copy, random
        bad = 0
        c0 = [r for r in recs if r["in"]["nn"] > 1][:60]
        for r in c0:
            c = copy.deepcopy(r)
            for b in c["out"]:
                for ch in b:
                    for p in ch:
                        p["nL"] += L
            bad += do(c, random.Random(1), 0, None) is not None
        assert bad == len(c0), bad
        chk.binding.append(f"one sample more in the specification makes {bad} of {len(c0)} replays fail")


if __name__ == "__main__":
    main("C18", check, assumptions=["up to 4 nights, 2 baselines, 3 channels, 2 polarizations, small integer values; cells whose usable inputs have zero total weight are not compared; in-painted inputs have a negative sample count"])
