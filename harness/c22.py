"""C22: edge trimming, padding and row flagging before filters, and what the filter flags."""
import copy
import warnings
import numpy as np
warnings.simplefilter("ignore")
from vlib import main, run_isolated
import synth
from synth import FREQ, DT
from hera_cal import vis_clean, io
from hera_cal.datacontainer import DataContainer

CFG = ("INIT Init\nNEXT Next\nINVARIANT TrimKeepsWeight\nINVARIANT TrimIsExact\nINVARIANT BandsPartition\nINVARIANT DropsWhole\nINVARIANT UsedNotSkipped\n"
       "CONSTANTS\n MaxT = %d\n MaxF = %d\n")
KEY = (0, 1, "ee")


def mask(pix, i):
    m = np.zeros((i["nt"], i["nf"]), bool)
    for t, f in pix:
        m[t - 1, f - 1] = True
    return m


def inputs(rec, rng):
    i = rec["in"]
    live = mask(i["w"], i)
    r = np.random.default_rng(rng.getrandbits(32))
    w = live * (r.choice([1.], live.shape) if rng.random() < .5 else r.integers(1, 9, live.shape) / 8.)
    d = r.normal(size=live.shape) + 1j * r.normal(size=live.shape) + 3
    xt = np.array(i["xt"]) * 10.7
    xf = 1e8 + np.array(i["xf"]) * 122070.3125
    return live, w, d, xt, xf, r


def first(a, b):
    k = np.argwhere(a != b)[0] + 1
    return f"integration {k[0]}, channel {k[1]}"


def do(rec, rng, idx, dd):
    i, o = rec["in"], rec["out"]
    live, w, d, xt, xf, r = inputs(rec, rng)
    ax = i["ax"]
    x = {"freq": xf, "time": xt, "both": rng.choice([list, tuple])([xt, xf])}[ax]
    keep = [a.copy() for a in (w, d, xt, xf)]
    kt, kf = np.array(o["keepT"], int) - 1, np.array(o["keepF"], int) - 1
    # bands
    for nm, xx in (("T", xt), ("F", xf)):
        if len(xx) < 2:
            continue
        want = [(a - 1, b) for a, b in o["bands" + nm]]
        for sgn in (1, -1):
            res = run_isolated(vis_clean.find_discontinuity_edges, sgn * xx)
            if res[0] == "err" or [tuple(int(v) for v in e) for e in res[1]] != want:
                return "bands", f"find_discontinuity_edges({(sgn * xx).tolist()}) gives {res[1:]}, specification says {want}"
    # trimming
    res = run_isolated(vis_clean.truncate_flagged_edges, d, w, x, ax=ax)
    if res[0] == "err":
        return "trim-raised", f"truncate_flagged_edges raised {res[1:]}"
    xo, do_, wo, edges, chunks = res[1]
    sub = np.ix_(kt, kf)
    if do_.shape != d[sub].shape or not np.array_equal(do_, d[sub]) or not np.array_equal(wo, w[sub]):
        return "trim-kept", f"trimming {ax} keeps {do_.shape}, specification says integrations {o['keepT']} and channels {o['keepF']}"
    for got, want in {"freq": [(xo, xf[kf])], "time": [(xo, xt[kt])], "both": list(zip(xo, (xt[kt], xf[kf]))) if ax == "both" else []}[ax]:
        if not np.array_equal(got, want):
            return "trim-axis", f"the trimmed axis is {got}, specification says {want}"
    tup = lambda e: [tuple(int(v) for v in p) for p in e]
    want = {"freq": tup(o["edgesF"]), "time": tup(o["edgesT"]), "both": [tup(o["edgesT"]), tup(o["edgesF"])]}[ax]
    got = [tup(e) for e in edges] if ax == "both" else tup(edges)
    if got != want:
        return "trim-edges", f"edge widths {got}, specification says {want}"
    res = run_isolated(vis_clean.restore_flagged_edges, do_, chunks, edges, ax=ax)
    if res[0] == "err":
        return "restore-raised", f"restore_flagged_edges raised {res[1:]}"
    back = np.zeros_like(d)
    back[sub] = d[sub]
    if res[1].shape != back.shape or not np.array_equal(res[1], back):
        return "restore", f"restoring trimmed {ax} edges does not put samples back where they were with zeros elsewhere"
    # row flags
    mc = {"freq": i["mf"], "time": i["mt"], "both": (i["mt"], i["mf"])}[ax]
    res = run_isolated(vis_clean.flag_rows_with_contiguous_flags, w, mc, ax=ax)
    if res[0] == "err":
        return "contig-raised", f"flag_rows_with_contiguous_flags raised {res[1:]}"
    if not np.array_equal(res[1], w * mask(o["contig"], i)):
        return "contig", f"zero runs of {mc} ({ax}): wrong weight at {first(res[1], w * mask(o['contig'], i))}"
    if not ((ax != "time" and o["shortF"]) or (ax != "freq" and o["shortT"])):
        dm = {"freq": i["df"], "time": i["dt"], "both": (i["dt"], i["df"])}[ax]
        res = run_isolated(vis_clean.flag_rows_with_flags_within_edge_distance, x, w, dm, ax=ax)
        if res[0] == "err":
            return "edge-raised", f"flag_rows_with_flags_within_edge_distance raised {res[1:]}"
        if not np.array_equal(res[1], w * mask(o["edge"], i)):
            return "edge", f"zeros within {dm} of an edge ({ax}): wrong weight at {first(res[1], w * mask(o['edge'], i))}"
    # padding
    for dat in (d, live):
        for axis, zp, bv in ((1, i["zf"] + 1, xf), (0, i["zt"], xt), (-1, i["zf"], xf), (-2, i["zt"] + 2, xt), ((0, 1), (i["zt"], i["zf"] + 1), [xt, xf]), ((1, 0), [i["zf"] + 2, i["zt"] + 1], [xf, xt])):
            bv = rng.choice([bv, bv, None])
            res = run_isolated(vis_clean.zeropad_array, dat, binvals=bv, zeropad=zp, axis=axis)
            if res[0] == "err":
                return "pad-raised", f"zeropad_array(axis={axis}, zeropad={zp}, binvals {'given' if bv is not None else 'None'}) raised {res[1:]}"
            pd, pb = res[1]
            z = [0, 0]
            for a, n in zip(np.atleast_1d(axis), np.atleast_1d(zp)):
                z[a] = n
            want = np.pad(dat, [(n, n) for n in z], constant_values=dat.dtype == bool)
            if pd.shape != want.shape or not np.array_equal(pd, want):
                return "pad", f"zeropad_array(axis={axis}, zeropad={zp}) gives shape {pd.shape}, not the data with {z} added on both sides"
            if bv is not None:
                for b, ob, n in ([(pb, bv, zp)] if np.ndim(zp) == 0 else zip(pb, bv, zp)):
                    if len(b) != len(ob) + 2 * n or not np.array_equal(b[n:n + len(ob)], ob) or np.any(np.diff(b) <= 0):
                        return "pad-axis", f"zeropad_array(axis={axis}, zeropad={zp}) gives axis {b} for {ob}"
            res = run_isolated(vis_clean.zeropad_array, pd, binvals=pb, zeropad=zp, axis=axis, undo=True)
            if res[0] == "err":
                return "unpad-raised", f"zeropad_array(axis={axis}, zeropad={zp}, undo=True) raised {res[1:]}"
            if not np.array_equal(res[1][0], dat):
                return "unpad", f"unpadding axis {axis} by {zp} does not give the data back"
            if bv is not None:
                for b, ob in ([(res[1][1], bv)] if np.ndim(zp) == 0 else zip(res[1][1], bv)):
                    if not np.array_equal(b, ob):
                        return "unpad-axis", f"unpadding axis {axis} by {zp} gives axis values {b}, originally {ob}"
    if any(not np.array_equal(a, b) for a, b in zip((w, d, xt, xf), keep)):
        return "mutates", "an input array was changed"
    return None


OTHER, AUTO = (0, 2, "ee"), (0, 0, "ee")


def filt(rec, i, live, w, d, xt, xf, rng):
    nt, nf, ax = i["nt"], i["nf"], i["ax"]
    fl = ~live
    real = np.abs(d).astype(complex)
    cube = {KEY: (d, fl), OTHER: (d[::-1, ::-1] * 1j, fl), AUTO: (real, fl)}
    uvd = synth.make_uvd([(0, 0), (0, 1), (0, 2)], ["ee"], 2458100.3 + np.arange(nt) * DT, FREQ(np.arange(nf)),
                         lambda kind, k: {"data": cube[tuple(k[:2]) + ("ee",)][0], "flags": fl, "nsamples": np.ones(d.shape)}[kind],
                         {0: np.zeros(3), 1: np.array([14.6, 0, 0]), 2: np.array([29.2, 0, 0])})
    vc = vis_clean.VisClean(io.to_HERAData(uvd))
    spw = None if i["cut"] == 0 else [(0, i["cut"]), (i["cut"], nf)]
    pick = lambda t, f: {"freq": f, "time": t, "both": (t, f)}[ax]
    half, centre, longest = [1e-3, 2e-7], [0., 0.], pick(i["mt"], i["mf"])
    if i["contig"] and rng.random() < .4:
        # the longest run follows from the width of the filter: the period of its fastest mode
        for n, (x, m) in enumerate(((xt, i["mt"]), (xf, i["mf"]))):
            half[n] = 1 / ((m + .5) * np.median(np.diff(x))) * rng.choice([1, .75])
            centre[n] = rng.choice([-1, 1]) * (1 / ((m + .5) * np.median(np.diff(x))) - half[n])
        longest = None
    kw = dict(x=pick(xt, xf), ax=ax, zeropad=[i["zt"], i["zf"]] if ax == "both" else pick(i["zt"], i["zf"]), skip_wgt=i["skip"] / 37., skip_flagged_edges=i["trim"],
              skip_contiguous_flags=i["contig"], max_contiguous_flag=longest, filter_spw_ranges=spw, keep_flags=i["keepfl"],
              clean_flags_in_resid_flags=i["resfl"], mode="dpss_leastsq", eigenval_cutoff=[1e-6] if ax != "both" else [[1e-6], [1e-6]], max_contiguous_edge_flags=1000, verbose=False)
    fc, fw = pick([centre[0]], [centre[1]]), pick([half[0]], [half[1]])
    if ax == "both":
        kw["x"] = list(kw["x"])
        fc, fw = [[c] for c in centre], [[h] for h in half]
    if i["edge"]:
        kw["skip_if_flag_within_edge_distance"] = pick(i["dt"], i["df"])
    keys = [KEY, AUTO]
    if rng.random() < .3:
        keys = [KEY, AUTO, OTHER]
    if len(keys) == 2 or rng.random() < .5:
        kw["keys"] = list(keys)
    if rng.random() < .5:
        kw["wgts"] = DataContainer({k: np.where(live, w, .7) for k in keys})
    vc.fourier_filter(fc, fw, **kw)
    return vc, keys, cube


def unfit(rec):
    return rec["out"]["fshort"] or rec["out"]["few"]           # the filter itself needs a few samples


def do_filter(rec, rng, idx, dd):
    i, o = rec["in"], rec["out"]
    live, w, d, xt, xf, r = inputs(rec, rng)
    if unfit(rec):
        return None
    res = run_isolated(filt, rec, i, live, w, d, xt, xf, rng)
    if res[0] == "err":
        return "filter-raised", f"fourier_filter raised {res[1:]}"
    vc, keys, cube = res[1]
    for c in (vc.clean_data, vc.clean_model, vc.clean_resid, vc.clean_flags, vc.clean_resid_flags):
        if set(c.keys()) != set(keys):
            return "filter-keys", f"filtering {keys} gives results for {sorted(c.keys())}"
    skip, use = mask(o["skip"], i), mask(o["use"], i)
    fl = ~live
    for k in keys:
        d = cube[k][0]
        want = skip | fl if i["keepfl"] else skip
        if not np.array_equal(vc.clean_flags[k], want):
            return "filter-flags", f"filtering {i['ax']}: {first(vc.clean_flags[k], want)} has flag {vc.clean_flags[k][vc.clean_flags[k] != want][0]}, specification says otherwise"
        want = skip | fl if i["resfl"] else fl
        if not np.array_equal(vc.clean_resid_flags[k], want):
            return "filter-resid-flags", f"filtering {i['ax']}: wrong residual flag at {first(vc.clean_resid_flags[k], want)}"
        if np.any(vc.clean_model[k][skip] != 0) or np.any(vc.clean_resid[k][skip | fl] != 0):
            return "filter-zeros", "model or residual is not zero where the filter was skipped"
        if not np.allclose(vc.clean_data[k], vc.clean_model[k] + vc.clean_resid[k]):
            return "filter-sum", "filtered data are not model plus residual"
        if not np.allclose(vc.clean_data[k][use], d[use], atol=1e-6):
            return "filter-data", f"filtered data differ from the data by {np.abs(vc.clean_data[k] - d)[use].max()} where they took part"
        if not np.array_equal(vc.data[k], d) or not np.array_equal(vc.flags[k], fl):
            return "filter-mutates", "data or flags were changed by filtering"
        if k == AUTO and any(np.any(c[k].imag != 0) for c in (vc.clean_data, vc.clean_model, vc.clean_resid)):
            return "filter-auto", "a filtered autocorrelation is not real"
        f0, g0 = vc.get_filled_data()
        if not np.array_equal(f0[k][live], d[live]) or not np.array_equal(f0[k][fl], vc.clean_model[k][fl]) or not np.array_equal(g0[k], vc.clean_flags[k]):
            return "filled", "filled data are not the data where unflagged and the model elsewhere"
    return None


def check(chk):
    recs, _ = chk.tlc("EdgeTrim", CFG % (8, 12), mode="sim", num=chk.n(1600, 20000), depth=5)
    assert len(recs) > chk.n(1200, 15000), len(recs)
    for fn, tag in ((do, ""), (do_filter, "f")):
        for r, res in zip(recs, chk.pmap(fn, recs, tag=tag)):
            chk.ran()
            chk.traces += 1
            if res:
                chk.fail(res[0], res[1], r)
    chk.extra["filtered"] = sum(not unfit(r) for r in recs)
    chk.extra["trimmed to nothing"] = sum(not r["in"]["w"] for r in recs)
    chk.sample(recs[0])
    chk.sample(recs[-1])
    bad = copy.deepcopy([r for r in recs if r["in"]["w"] and r["in"]["ax"] != "time"][:30])
    for r in bad:
        r["out"]["keepF"] = r["out"]["keepF"][1:]
    k = sum(x is not None for x in chk.pmap(do, bad, tag="b"))
    assert k == len(bad) or chk.viol, (k, len(bad))
    chk.binding.append(f"dropping one specified channel makes {k} of {len(bad)} replays fail")


if __name__ == "__main__":
    main("C22", check, assumptions=["bands longer than the edge distance", "the filter is driven in dpss_leastsq mode; zero padding is not combined with row flagging"])
