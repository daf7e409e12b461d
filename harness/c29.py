"""C29: flags, squared Z-scores and selections of LST stacks."""
import copy
import warnings
import numpy as np
warnings.simplefilter("ignore")
from pyuvdata import UVFlag
from vlib import main, run_isolated
from synth import make_uvd
from hera_cal.datacontainer import DataContainer
from hera_cal.lst_stack import LSTStack, flagging, metrics as mt

CFG = "INIT Init\nNEXT Next\nINVARIANT Cancels\nCONSTANTS NN = %d\n NB = %d\n NF = %d\n Mode = \"%s\"\n"
A = np.array
LAB = [0, 1, 2, 3, 5, 7, 11, 12, 40, 104]


def stack(pairs, pols, nn, nf):
    pos = {a: A([10. * i, 0, 0]) for i, a in enumerate(sorted({a for p in pairs for a in p}))}
    uvd = make_uvd(pairs, pols, 2459844.3 + np.arange(nn), 1e8 + 1e5 * np.arange(nf), lambda kind, k: np.zeros((nn, nf)), pos, time_fast=False)
    uvd.blts_are_rectangular, uvd.time_axis_faster_than_bls = True, False
    return LSTStack(uvd)


def ratio(x):
    x = A(x, float)
    with np.errstate(all="ignore"):
        return x[..., 0] / x[..., 1]


def same(got, want, what, tol=1e-5):
    got = A(got)
    if got.shape != want.shape:
        return f"{what} has shape {got.shape}, not {want.shape}"
    with np.errstate(all="ignore"):
        ok = (np.isnan(want) & np.isnan(got)) | (got == want) | (np.abs(got - want) <= tol * np.abs(want))
    if not np.all(ok):
        c = tuple(int(x[0]) for x in np.nonzero(~ok))
        return f"{what} of night {c[0]}, baseline {c[1:]}: {got[c]}, not {want[c]}"
    return None


def score(r, rng0, idx, d):
    rng = np.random.default_rng(rng0.getrandbits(32))
    lab = list(map(int, rng.choice(LAB, 4, replace=False)))
    bls = [(lab[i - 1], lab[j - 1]) for i, j in r["bls"]]
    pols = r["pols"]
    re, im, n, kind = A(r["re"]), A(r["im"]), A(r["n"]), A(r["kind"])
    nn, nb, nf, npol = re.shape
    st = stack(bls, pols, nn, nf)
    T = (st.dt * st.df).to_value("")
    st.data[:] = re + 1j * im
    st.nsamples[:] = n
    st.flags[:] = kind == "flag"
    st.nsamples[kind == "inpaint"] *= -1
    st.nsamples[kind == "zero"] = 0
    if rng.random() < .5:
        st.data[kind == "flag"] = rng.choice([np.nan, 1e3, 0])
    st.data[kind == "nan"] = np.nan
    auto = {(lab[a], lab[a], 2 * q): np.repeat(A(r["auto"][a][k], float)[None], 1, 0)[0] for a in range(4) for k, q in enumerate("en")}
    for a in range(4):
        auto[lab[a], lab[a], "en"] = auto[lab[a], lab[a], "ne"] = 77. * np.ones(nf)
    z = DataContainer(auto)
    astats = mt.LSTBinStats(mean=z, std=z, nsamples=z, flags=z, days_binned=z)
    keep = (st.data.copy(), st.flags.copy(), st.nsamples.copy())
    # against the mean of the other nights
    for kw, want, lab2 in ((dict(auto_stats=astats), ratio(r["zauto"]) * T, "autos"), (dict(variance=A(r["var"], float)), ratio(r["zvar"]), "variance")):
        got = run_isolated(mt.get_squared_zscores_flagged, st, **kw)
        if got[0] == "err":
            return "flagged-error", f"get_squared_zscores_flagged raises {got[1]}: {got[2]}"
        e = same(got[1].metrics, want, f"squared score ({lab2})")
        if e:
            return "zscore-" + lab2, e
        if list(got[1].antpairs) != bls:
            return "zscore-bls", f"baselines {got[1].antpairs}"
    # predicted variances
    noise = lambda x: np.where(A(x)[..., 1] == 0, np.inf, ratio(x)) / T
    for strict, key in ((True, "preds"), (False, "pred")):
        got = run_isolated(mt.get_nightly_predicted_variance_stack, st, astats, flag_if_inpainted=strict)
        e = f"raises {got[1:]}" if got[0] == "err" else same(got[1], noise(r[key]), "predicted variance")
        if e:
            return "variance-stack", e
    want = noise(r["pred"])
    for b, bl in enumerate(bls):
        for p, pol in enumerate(pols):
            got = run_isolated(mt.get_nightly_predicted_variance, (*bl, pol), st, astats)
            e = f"raises {got[1:]}" if got[0] == "err" else same(got[1], want[:, b, :, p], f"predicted variance of {pol}")
            if e:
                return "variance", e
    # against given statistics
    cell = lambda key, ty=float: {(*bl, pol): A(r[key])[0, b, :, p].astype(ty) for b, bl in enumerate(bls) for p, pol in enumerate(pols)}
    c = DataContainer(cell("cre", complex))
    o = DataContainer({k: v + 50 for k, v in c.items()})
    s = DataContainer(cell("sd"))
    s9 = DataContainer({k: 9 * v for k, v in s.items()})
    fl, tot = DataContainer(cell("cf", bool)), DataContainer(cell("total"))
    for central in ("mean", "median"):
        for std in ("autos", "std", "mad"):
            cs = mt.LSTBinStats(mean=c if central == "mean" else o, median=c if central == "median" else o, std=s if std == "std" else s9, mad=s if std == "mad" else s9, nsamples=tot, flags=fl, days_binned=tot)
            got = run_isolated(mt.get_squared_zscores, astats, cs, st, central=central, std=std)
            if got[0] == "err":
                return "general-error", f"get_squared_zscores raises {got[1]}: {got[2]}"
            want = ratio(r["gauto"]) * T if std == "autos" else ratio(r["gstd"])
            sel = np.isfinite(want) & np.isfinite(st.data)
            e = same(np.where(sel, got[1].metrics, 0), np.where(sel, want, 0), f"squared score ({central}, {std})")
            if e:
                return "general-" + ("autos" if std == "autos" else "std"), e
    if not all(np.array_equal(x, y, equal_nan=True) for x, y in zip(keep, (st.data, st.flags, st.nsamples))):
        return "inputs", "the stack was changed"
    return None


def pick(r, rng0, idx, d):
    rng = np.random.default_rng(rng0.getrandbits(32))
    lab = list(map(int, rng.choice(LAB, 4, replace=False)))
    bls = [(lab[i - 1], lab[j - 1]) for i, j in r["bls"]]
    pols = r["pols"]
    nn, nb, nf = r["dims"]
    st = stack(bls, pols, nn, nf)
    val = rng.permutation(st.data.size).reshape(st.data.shape).astype(float)
    for c in r["bad"]:
        val[tuple(x - 1 for x in c)] = rng.choice([np.nan, np.inf])
    uvf = UVFlag(st._uvd, mode="metric")
    uvf.metric_array = val.reshape(st.data_array.shape).copy()
    zs = LSTStack(uvf)
    fl = np.zeros(val.shape, bool)
    for c in r["fl"]:
        fl[tuple(x - 1 for x in c)] = True
    kw = dict(flags=fl.copy())
    if not r["fl"] and rng.random() < .5:
        kw = {}
    nights = st.nights
    if r["nform"] == "all":
        kw["nights"] = "all"
    elif r["nform"] == "one":
        kw["nights"] = nights[r["ns"][0] - 1]
    elif r["nform"] == "list":
        kw["nights"] = [nights[k - 1] for k in r["ns"]]
    if r["bform"] == "tuple":
        kw["antpairs"] = bls[r["bsel"][0] - 1]
    elif r["bform"] == "list":
        kw["antpairs"] = [bls[k - 1] for k in r["bsel"]]
    keep = {(*bls[b - 1], pols[p - 1]) for b, p in r["keep"]}
    if r["bform"] == "sel":
        kw["bl_selectors"] = lambda bl: tuple(bl) in keep
        if rng.random() < .5:
            kw["bl_selectors"] = [kw["bl_selectors"], lambda bl: True]
    if r["fform"] == "tuple":
        kw["band"] = (r["lo"], r["hi"])
    elif r["fform"] == "slice":
        kw["band"] = slice(r["lo"], r["hi"])
    if r["bform"] != "sel":
        if r["pform"] == "str":
            kw["pols"] = pols[r["psel"][0] - 1]
        elif r["pform"] == "list":
            kw["pols"] = [pols[k - 1] for k in r["psel"]]
    want = val[np.ix_(*[A(x) - 1 for x in r["out"]])]
    mask = A(r["mask"], bool)
    show = {k: v for k, v in kw.items() if k not in ("flags", "bl_selectors")}
    got = run_isolated(mt.downselect_zscores, zs, **kw)
    if got[0] == "err":
        return "select-error", f"downselect_zscores {show} raises {got[1]}: {got[2]}"
    ma = got[1]
    if ma.shape != want.shape:
        return "select-shape", f"downselect_zscores {show} selector {r['bform']} gives shape {ma.shape}, not {want.shape}"
    if not np.array_equal(np.ma.getmaskarray(ma), mask) or not np.array_equal(A(ma.data)[~mask], want[~mask]):
        return "select", f"downselect_zscores {show} selector {r['bform']} of {list(keep)} does not give the scores asked for"
    kw2 = dict(kw)
    f2 = kw2.pop("flags", None)
    got = run_isolated(mt.get_compressed_zscores, [zs, zs], flags=None if f2 is None else [f2, f2], **kw2)
    if got[0] == "err" or not np.array_equal(got[1], np.tile(want[~mask], 2)):
        return "compressed", f"get_compressed_zscores {show}: {got}"
    # baselines
    allb = [(*b, p) for b in bls for p in pols]
    days = DataContainer({(*bls[b - 1], pols[p - 1]): A(x, float) for b, p, x in r["days"]}) if r["days"] else {}
    name = lambda S: {(*bls[b - 1], pols[p - 1]) for b, p in S}
    sels = [lambda bl: tuple(bl) in keep]
    for s, exp in ((sels, name(r["chosen"])), (sels[0], name(r["chosen"])), (sels, name(r["chosen"])), (None, name(r["anydays"]))):
        got = run_isolated(mt.get_selected_bls, allb, days_binned=days, selectors=s, min_days=r["mind"])
        if got[0] == "err" or got[1] != [b for b in allb if b in exp]:
            return "selected-bls", f"get_selected_bls: {got}, not {exp}"
    if len(sels) != 1:
        return "selectors", "get_selected_bls changed the list of selectors"
    for func in (np.sum, np.max):
        ax = r["axes"] if len(r["axes"]) > 1 or rng.random() < .5 else r["axes"][0]
        x = rng.normal(size=st.data.shape)
        got = run_isolated(mt.reduce_stack_over_axis, func, x, ax)
        if got[0] == "err" or not np.allclose(got[1], func(x, axis=tuple(r["axno"]))):
            return "reduce", f"reduce_stack_over_axis over {ax}"
    # tables of statistics keep baselines and polarizations apart
    x = rng.normal(size=(nb, nf, len(pols)))
    got = run_isolated(mt.LSTBinStats.from_reduced_data, bls, pols, dict(data=x, std=x + 1, nsamples=x + 2, flags=x > 0, days_binned=x + 3, median=None, mad=None))
    if got[0] == "err":
        return "stats-error", f"from_reduced_data raises {got[1:]}"
    for b, bl in enumerate(bls):
        for p, pol in enumerate(pols):
            k = (*bl, pol)
            if not (np.array_equal(got[1].mean[k], x[b, :, p]) and np.array_equal(got[1].std[k], x[b, :, p] + 1) and np.array_equal(got[1].nsamples[k], x[b, :, p] + 2)
                    and np.array_equal(got[1].flags[k], x[b, :, p] > 0) and np.array_equal(got[1].days_binned[k], x[b, :, p] + 3)):
                return "stats", f"statistics of {k}"
    return None


def clip(r, rng0, idx, d):
    rng = np.random.default_rng(rng0.getrandbits(32))
    val, masked, want = A(r["val"], float), A(r["masked"], bool), A(r["want"])
    if r["form"] == "mask":
        x = val.copy()
        x[masked] = rng.choice([1e5, 0, -77])
        arr = np.ma.MaskedArray(x, mask=masked)
    else:
        arr = np.where(masked, np.nan, val)
    keep = arr.copy()
    kw = dict(threshold=r["th"] / 10, min_N=r["minN"], median_axis=r["ax"] - 1, threshold_axis=r["tx"] - 1, clip_type=r["how"])
    if r["bands"] != "none":
        kw["flag_bands"] = [tuple(b) for b in r["blist"]]
        if any(b[0] >= b[1] for b in r["blist"]) and r["how"] != "direct":
            kw["flag_bands"] = [tuple(b) for b in r["blist"] if b[0] < b[1]]
    if r["sform"] != "none":
        kw["scale"] = A(r["scale"], float)
        if r["sform"] == "reduced":
            kw["scale"] = np.take(kw["scale"], 0, axis=r["ax"] - 1)
    if r["minN"] == 4 and rng.random() < .5:
        kw.pop("min_N")
    got = run_isolated(flagging.sigma_clip, arr, **kw)
    if got[0] == "err":
        return "clip-error", f"sigma_clip {kw} raises {got[1]}: {got[2]}"
    f = A(got[1])
    if f.shape != val.shape or f.dtype != bool:
        return "clip-shape", f"shape {f.shape}, type {f.dtype}"
    bad = (f & (want == "no")) | (~f & (want == "yes"))
    if bad.any():
        c = tuple(int(x[0]) for x in np.nonzero(bad))
        kw.pop("scale", None)
        return "clip-" + r["how"], f"sigma_clip {kw}, scale {r['sform']}: sample {c} is {'' if f[c] else 'not '}clipped"
    if not np.array_equal(A(arr), A(keep), equal_nan=True):
        return "clip-input", "the data were changed"
    fl, ffl = A(r["fl"], bool), A(r["ffl"], bool)
    for inplace in (False, True):
        x = fl.copy()
        got = run_isolated(flagging.threshold_flags, x, inplace=inplace, flag_thresh=r["fth"] / 10)
        if got[0] == "err" or not np.array_equal(got[1], ffl):
            return "threshold", f"threshold_flags at {r['fth'] / 10}: {got[0]} {np.sum(got[1]) if got[0] == 'ok' else got[1:]} flags, not {ffl.sum()}"
        if not np.array_equal(x, ffl if inplace else fl):
            return "threshold-inplace", f"inplace={inplace} is not heeded"
    return None


def check(chk):
    for mode, sizes, fn in (("z", ((4, 3, 2, chk.n(70, 2000)), (2, 2, 2, chk.n(50, 1000)), (1, 2, 2, chk.n(10, 50))), score), ("pick", ((4, 3, 4, chk.n(250, 5000)), (2, 5, 3, chk.n(100, 2000))), pick),
                            ("clip", ((5, 2, 3, chk.n(250, 5000)), (4, 4, 4, chk.n(100, 2000))), clip)):
        recs = []
        for nn, nb, nf, num in sizes:
            rr = chk.tlc("StackMetrics", CFG % (nn, nb, nf, mode), mode="sim", num=num, depth=5)[0]
            for r in rr:
                r["dims"] = [nn, nb, nf]
            recs += rr
        for r, e in zip(recs, chk.pmap(fn, recs, tag=mode)):
            chk.ran(1)
            chk.traces += 1
            if e:
                chk.fail(f"{mode}-{e[0]}", e[1], r)
        chk.sample(recs[0])
        bad = []
        for r in copy.deepcopy(recs):
            if mode == "z":
                hit = np.argwhere(A(r["zvar"])[..., 1] > 0)
                if len(hit):
                    a, b, c, d = hit[0]
                    r["zvar"][a][b][c][d][0] += 1
                    bad.append(r)
            elif mode == "pick":
                r["mask"][0][0][0][0] = not r["mask"][0][0][0][0]
                bad.append(r)
            else:
                r["ffl"][0][0][0] = not r["ffl"][0][0][0]
                bad.append(r)
        bad = bad[:6]
        n = sum(isinstance(x, (list, tuple)) for x in chk.pmap(fn, bad, tag="b" + mode))
        assert n == len(bad) and bad or chk.viol, (mode, n, len(bad))
        chk.binding.append(f"{mode}: a perturbed expectation makes {n} of {len(bad)} replays fail")
        if mode == "clip":
            chk.extra["verdicts"] = {v: int(sum(np.sum(A(r["want"]) == v) for r in recs)) for v in ("yes", "no", "any")}


if __name__ == "__main__":
    main("C29", check, assumptions=["scores of inpainted samples against given statistics are not compared"])
