"""C17: stacking integrations of many nights on a sidereal-time grid."""
import os
import types
import warnings
import numpy as np
warnings.simplefilter("ignore")
import logging
logging.disable(logging.CRITICAL)
from vlib import main, run_isolated
import synth
from synth import TIME, FREQ
from pyuvdata import UVFlag
from hera_cal.lst_stack import binning
from hera_cal.red_groups import RedundantGroups

N = 8
U = 2 * np.pi / N
NF = 3
CFG = f"INIT Init\nNEXT Next\nINVARIANT AtMostTwoOnEdges\nINVARIANT FullDayLosesNothing\nINVARIANT InsideIsKept\nCONSTANTS\n N = {N}\n Ants = {{0,1,2,3}}\n"
T = tuple
POS = {a: np.array([14.6 * (a % 3) + a, 9. * (a // 3) - 2 * a, .5 * a]) for a in range(6)}
LAT = -30.72152
C = 299792458.


def lst_of(x):
    return (x["k"] + .5) * U if x["mid"] else x["k"] * U


def edge_list(i):
    e = np.array([k * U if k < N else (k - N) * U + 2 * np.pi for k in i["edges"]])
    return e + 2 * np.pi * i["shift"]


def centre(e, b):
    return (e[b] + e[b + 1]) / 2


def phasor(pair, freqs, dl):
    """what a point source at the zenith acquires when the sky has turned by dl (it is then at hour angle dl)"""
    la = np.deg2rad(LAT)
    s = np.array([-np.cos(la) * np.sin(dl), np.sin(la) * np.cos(la) * (1 - np.cos(dl)), np.sin(la)**2 + np.cos(la)**2 * np.cos(dl)])
    b = POS[pair[0]] - POS[pair[1]]
    return np.exp(-2j * np.pi * freqs / C * np.dot(b, s - np.array([0, 0, 1.])))


def assign(i, o, got, what):
    """got: {(f, t): bin index (0-based) or None}.  Each must be allowed; equal sidereal times must go together."""
    seen = {}
    for (f, t), b in got.items():
        al = o["bins"][f][t]
        if (0 if b is None else b + 1) not in al:
            return f"{what}: integration {t} of night {f} at {i['files'][f]['ints'][t]} is in bin {b}, specification says {[a - 1 for a in al]} (-1: outside), edges {i['edges']} of {N}"
        k = T(sorted(i["files"][f]["ints"][t].items()))
        if seen.setdefault(k, b) != b:
            return f"{what}: equal sidereal times {k} are in bins {seen[k]} and {b}"
    return None


def do_align(rec, rng, idx, d):
    i, o = rec["in"], rec["out"]
    ids = [(f, t) for f, fl in enumerate(i["files"]) for t in range(len(fl["ints"]))]
    rng.shuffle(ids)
    ints = [i["files"][f]["ints"][t] for f, t in ids]
    lsts = np.array([lst_of(x) + (2 * np.pi * rng.choice([-1, 0, 0, 1]) if x["mid"] else 0) for x in ints])
    e = edge_list(i)
    prs = [T(p) for p in i["req"]]
    npol = rng.choice([1, 2, 4])
    rg = np.random.default_rng(rng.randint(0, 10**9))
    shp = (len(ids), len(prs), NF, npol)
    data = rg.normal(size=shp) + 1j * rg.normal(size=shp)
    data += 10 * np.arange(len(ids))[:, None, None, None]
    flags, ns, wip = rg.random(shp) < .3, rg.integers(0, 9, shp).astype(float), rg.random(shp) < .2
    freqs = FREQ(np.arange(NF))
    if i["shift"] == 0:
        l0, e0 = lsts.copy(), e.copy()
        r = run_isolated(binning.get_lst_bins, lsts, e)
        if r[0] == "err":
            return ("bins-raised", f"get_lst_bins raised {r[1:]}")
        b, ll, m = r[1]
        if not (np.array_equal(lsts, l0) and np.array_equal(e, e0)):
            return ("bins-mutates", "get_lst_bins changed its arguments")
        x = assign(i, o, {k: int(bb) if mm else None for k, bb, mm in zip(ids, b, m)}, "get_lst_bins")
        if x:
            return ("bins", x)
        if not np.allclose(np.exp(1j * ll), np.exp(1j * lsts)) or np.any(m & ~((ll >= e[np.clip(b, 0, None)] - 1e-9) & (ll <= e[np.clip(b, 0, len(e) - 2) + 1] + 1e-9))):
            return ("bins-lst", f"get_lst_bins returned sidereal times {ll} for {lsts} in bins {b}, edges {e}")
    reph = rng.random() < .5
    withf, withi = rng.random() < .8, rng.random() < .6
    kw = dict(flags=flags.copy() if withf else None, nsamples=ns.copy() if withf else None, where_inpainted=wip.copy() if withi else None)
    ref = e.copy()
    r = run_isolated(binning.lst_align, data.copy(), lsts.copy(), prs, ref, freqs, rephase=reph, antpos=POS, **kw)
    what = f"lst_align(edges {i['edges']}/{N} shifted {i['shift']}, rephase {reph})"
    if r[0] == "err":
        return ("align-raised", f"{what} raised {r[1:]}")
    cen, dd, ff, nn, ww = r[1]
    if not len(cen) == len(dd) == len(ff) == len(nn) == len(ww) == len(e) - 1:
        return ("align-nbins", f"{what}: {len(cen)} bins, expected {len(e) - 1}")
    if not np.allclose(np.exp(1j * cen), [np.exp(1j * centre(e, b)) for b in range(len(e) - 1)]):
        return ("align-centre", f"{what}: bin centres {cen}")
    got = {k: None for k in ids}
    for b in range(len(cen)):
        rows = []
        for q in range(len(dd[b])):
            row = int(np.argmin([np.abs(np.abs(dd[b][q]) - np.abs(data[z])).max() for z in range(len(ids))]))
            rows.append(row)
            if got[ids[row]] is not None:
                return ("align-twice", f"{what}: integration {ids[row]} appears in bins {got[ids[row]]} and {b}")
            got[ids[row]] = b
            dl = (centre(e, b) - lsts[row] + np.pi) % (2 * np.pi) - np.pi
            want = np.array([data[row][p] * (phasor(pr, freqs, dl)[:, None] if reph else 1) for p, pr in enumerate(prs)])
            if not np.allclose(dd[b][q], want, atol=1e-9):
                return ("align-data", f"{what}: row {q} of bin {b} is not integration {ids[row]} {'rephased by %g' % dl if reph else ''}: {dd[b][q].ravel()[:4]} vs {want.ravel()[:4]}")
            if not np.array_equal(ff[b][q], flags[row] if withf else np.zeros_like(flags[row])) or not np.array_equal(nn[b][q], ns[row] if withf else np.ones_like(ns[row])):
                return ("align-together", f"{what}: flags or samples of row {q} of bin {b} are not those of its integration {ids[row]}")
            if withi and not np.array_equal(ww[b][q], wip[row]):
                return ("align-together", f"{what}: in-painting mask of row {q} of bin {b} is not that of its integration {ids[row]}")
        if rows != sorted(rows):
            return ("align-order", f"{what}: rows of bin {b} are integrations {rows}, not in input order")
    x = assign(i, o, got, what)
    return ("align", x) if x else None


def stored_vals(seed, f, p, q, nt):
    """what night f stores for oriented pair p and pol q: data, flags, nsamples, gains not applied"""
    rg = np.random.default_rng([seed, f, p[0], p[1], ["nn", "ee", "ne", "en"].index(q)])
    x = rg.normal(size=(nt, NF)) + 1j * rg.normal(size=(nt, NF))
    return x, rg.random((nt, NF)) < .3, rg.integers(1, 9, (nt, NF)).astype(float), rg.random((nt, NF)) < .3


def do_files(rec, rng, idx, d):
    i, o = rec["in"], rec["out"]
    seed = rng.randint(0, 10**9)
    e = edge_list(i)
    fpols = rng.choice([["nn"], ["nn", "ee"], ["nn", "ee", "ne", "en"], ["ee", "nn", "en", "ne"]])
    pols = rng.sample(fpols, rng.randint(1, len(fpols)))
    usei = rng.random() < .4
    usec = not i["red"] and rng.random() < .35
    chans = rng.choice([None, (0, 2), (1, 2), (0, 1), (1, 1)])
    files, cals, inps, times, tidx, gains = [], [], [], [], [], []
    for f, fl in enumerate(i["files"]):
        nt = len(fl["ints"])
        prs = [T(p) for p in fl["stored"]]
        if not prs or rng.random() < .2:
            prs.insert(0, (4, 5))
        tt = synth.JD0 + f + np.arange(nt) * synth.DT
        order = list(fpols)
        ks = ("data", "flags", "nsamples")
        uvd = synth.make_uvd(prs, order, tt, FREQ(np.arange(NF)), lambda kind, k: (lambda v: v[0].real + 0j if kind == "data" and k[0] == k[1] and k[2][0] == k[2][1] else v[ks.index(kind)])(stored_vals(seed, f, k[:2], k[2], nt)),
                             POS, time_fast=rng.random() < .5)
        L = np.array([lst_of(x) for x in fl["ints"]])
        for p in prs:
            uvd.lst_array[uvd.antpair2ind(p, ordered=True)] = L
        fn = os.path.join(d, f"n{f}.uvh5")
        uvd.write_uvh5(fn, clobber=True, run_check=False, check_extra=False)
        files.append(fn)
        times.append(tt)
        inp = None
        if usei and rng.random() < .8:
            iprs = prs
            if i["red"]:      # the in-painting file may hold other members of the same groups
                mem = {T(b): [T(x) for x in g] for g in i["groups"] for b in g}
                iprs = []
                for p in prs:
                    g = mem.get(p) or [x[::-1] for x in mem.get(p[::-1], [])] or [p]
                    iprs.append(rng.choice(g))
            uv2 = synth.make_uvd(iprs, order, tt, FREQ(np.arange(NF)), lambda kind, k: np.zeros((nt, NF)), POS, time_fast=True)
            uvf = UVFlag(uv2, mode="flag")
            for p in iprs:
                s = uv2.antpair2ind(p, ordered=True)
                for iq, q in enumerate(order):
                    src = prs[iprs.index(p)]
                    uvf.flag_array[s, :, iq] = stored_vals(seed, f, src, q, nt)[3]
            inp = os.path.join(d, f"i{f}.h5")
            uvf.write(inp, clobber=True)
        inps.append(inp)
        cal, G = None, None
        if usec and rng.random() < .8:
            nct = rng.choice([1, nt])
            rg = np.random.default_rng([seed, 77, f])
            G = {}
            fz = {}
            for a in POS:
                for p in ("Jnn", "Jee"):
                    G[a, p] = np.exp(2j * np.pi * rg.random((nct, NF))) * (.5 + rg.random((nct, NF)))
                    fz[a, p] = rg.random((nct, NF)) < .1
            uvc = synth.make_uvc(sorted(POS), ["Jnn", "Jee"], tt[:1] if nct == 1 else tt, FREQ(np.arange(NF)), G, fz, antpos=POS, gain_convention=rng.choice(["divide", "multiply"]))
            cal = os.path.join(d, f"c{f}.calfits")
            uvc.write_calfits(cal, clobber=True)
            G = (G, fz, uvc.gain_convention)
        cals.append(cal)
        gains.append(G)
        # "given" indices: any subset of the integrations
        tidx.append(np.arange(nt) if fl["use"] == 1 else np.array(sorted(rng.sample(range(nt), rng.randint(0, nt))), dtype=int))
    kw = dict(rephase=rng.random() < .4, antpos=POS, n_workers=rng.choice([1, 1, 3]))
    if i["given"]:
        kw["time_idx"] = [t.copy() for t in tidx]
    if usei:
        kw["where_inpainted_files"] = inps
    if usec:
        kw["cal_files"] = cals
    ch = np.arange(NF)
    if chans is not None:
        ch = np.arange(chans[0], chans[1] + 1)
        if chans[0] > 0:
            kw["freq_min"] = FREQ(chans[0])
        if chans[1] < NF - 1:
            kw["freq_max"] = FREQ(chans[1])
    if i["red"]:
        kw.update(redundantly_averaged=True, reds=RedundantGroups([[T(b) for b in g] for g in i["groups"]] + [[(4, 5)]]))
    req = [T(p) for p in i["req"]]
    e0, req0 = e.copy(), list(req)
    r = run_isolated(binning.lst_bin_files_for_baselines, files, e, req, pols=pols, **kw)
    what = (f"lst_bin_files_for_baselines({len(files)} nights, edges {i['edges']}/{N} shifted {i['shift']}, antpairs {req}, pols {pols} of {fpols}, stored {[f['stored'] for f in i['files']]}, "
            f"options {({k: v for k, v in kw.items() if k in ('rephase', 'n_workers', 'time_idx', 'redundantly_averaged', 'freq_min', 'freq_max')})}, cal {usec}, inpainted {usei})")
    if r[0] == "err":
        return ("files-raised", f"{what} raised {r[1:]}")
    if not np.array_equal(e, e0) or req != req0:
        return ("files-mutates", f"{what} changed its arguments")
    cen, dd, ff, nn, ww, tb, lb = r[1]
    if not np.allclose(np.exp(1j * cen), [np.exp(1j * centre(e, b)) for b in range(len(e) - 1)]):
        return ("files-centre", f"{what}: bin centres {cen}")
    got = {(f, t): None for f in range(len(files)) for t in (tidx[f] if i["given"] else range(len(times[f])))}
    by_time = {times[f][t]: (f, t) for f, t in got}
    freqs = FREQ(ch)
    anyinp = usei and any(x is not None for x in inps)
    for b in range(len(cen)):
        if not len(dd[b]) == len(ff[b]) == len(nn[b]) == len(tb[b]) == len(lb[b]):
            return ("files-shape", f"{what}: bin {b} has {len(dd[b])} rows of data but {len(tb[b])} times")
        prev = None
        for q in range(len(tb[b])):
            ft = by_time.get(tb[b][q])
            if ft is None:
                return ("files-time", f"{what}: bin {b} lists time {tb[b][q]}, which is not among the integrations to be stacked")
            if got[ft] is not None:
                return ("files-twice", f"{what}: integration {ft} appears twice")
            got[ft] = b
            if prev is not None and ft < prev:
                return ("files-order", f"{what}: rows of bin {b} not in order of nights and times")
            prev = ft
            f, t = ft
            nt = len(times[f])
            x = i["files"][f]["ints"][t]
            if not np.isclose(np.exp(1j * lb[b][q]), np.exp(1j * lst_of(x))):
                return ("files-lst", f"{what}: integration {ft} is listed with sidereal time {lb[b][q]}, it has {lst_of(x)}")
            dl = (centre(e, b) - lst_of(x) + np.pi) % (2 * np.pi) - np.pi
            for k, rq in enumerate(req):
                s = o["src"][f][k]
                for iq, pq in enumerate(pols):
                    g = (dd[b][q, k, :, iq], ff[b][q, k, :, iq], nn[b][q, k, :, iq])
                    if not s["ok"]:
                        if not (np.all(np.isnan(g[0])) and np.all(g[1]) and np.all(g[2] == 0)):
                            return ("files-missing", f"{what}: night {f} has no {rq}, but its row holds {g}, expected NaN, flagged, no samples")
                        continue
                    sp = T(s["p"])
                    spol = synth.CONJ[pq] if s["c"] else pq
                    vd, vf, vn, vi = (z[t][ch] for z in stored_vals(seed, f, sp, spol, nt))
                    if sp[0] == sp[1] and spol[0] == spol[1]:
                        vd = vd.real + 0j
                    if gains[f] is not None:
                        G, fz, conv = gains[f]
                        a1, a2 = synth.ants_of(sp + (spol,))
                        tg = t if len(G[a1]) > 1 else 0
                        gg = (G[a1][tg] * np.conj(G[a2][tg]))[ch]
                        vd = vd / gg if conv == "divide" else vd * gg
                        vf = vf | fz[a1][tg][ch] | fz[a2][tg][ch]
                    if s["c"]:
                        vd = np.conj(vd)
                    if kw["rephase"]:
                        vd = vd * phasor(rq, freqs, dl)
                    if not np.allclose(g[0], vd, rtol=1e-5, atol=1e-5):
                        return ("files-data", f"{what}: data of {rq + (pq,)} for integration {ft} are {g[0]}, its file says {vd}")
                    if not np.array_equal(g[1], vf) or not np.array_equal(g[2], vn):
                        return ("files-flags", f"{what}: flags/samples of {rq + (pq,)} for integration {ft} are {g[1]}, {g[2]}, its file says {vf}, {vn}")
                    if anyinp:
                        wi = vi if inps[f] is not None else np.zeros(len(ch), bool)
                        if not np.array_equal(ww[b][q, k, :, iq], wi):
                            return ("files-inpainted", f"{what}: in-painting mask of {rq + (pq,)} for integration {ft} is {ww[b][q, k, :, iq]}, its file says {wi}")
                    elif ww[b] is not None and np.any(ww[b]):
                        return ("files-inpainted", f"{what}: in-painting mask set without in-painting files")
    x = assign(i, o, got, what)
    return ("files", x) if x else None


def do_single(rec, rng, idx, d):
    """one baseline over a full-day or partial grid, rolled to a branch cut"""
    i, o = rec["in"], rec["out"]
    if i["edges"][-1] > N or i["shift"]:      # grids of this class start at 0 and do not cross the wrap
        return None
    seed = rng.randint(0, 10**9)
    e = edge_list(i)
    fpols = rng.choice([["nn"], ["nn", "ee", "ne", "en"]])
    files, times = [], []
    pr = next((T(p) for p in i["req"] if p[0] != p[1]), None)
    if pr is None:
        return None
    cut = rng.choice([None] + list(range(N)))
    allflag = rng.random() < .5
    dead = {}
    for f, fl in enumerate(i["files"]):
        nt = len(fl["ints"])
        tt = synth.JD0 + f + np.arange(nt) * synth.DT
        dead[f] = [allflag and rng.random() < .5 for _ in range(nt)]

        def wf(kind, k):
            v = stored_vals(seed, f, k[:2], k[2], nt)
            if kind == "flags":
                return v[1] | np.array(dead[f])[:, None]
            return v[("data", "flags", "nsamples").index(kind)]
        uvd = synth.make_uvd([pr], fpols, tt, FREQ(np.arange(NF)), wf, POS)
        uvd.lst_array[:] = [lst_of(x) for x in fl["ints"]]
        fn = os.path.join(d, f"n{f}.uvh5")
        uvd.write_uvh5(fn, clobber=True, run_check=False, check_extra=False)
        files.append(fn)
        times.append(tt)
    conf = types.SimpleNamespace(bl_to_file_map={"0_1": files})
    lc = None if cut is None else (cut + .25) * U
    r = run_isolated(binning.SingleBaselineStacker.from_configurator, conf, "0_1", e, lst_branch_cut=lc, n_workers=rng.choice([1, 2]))
    what = f"SingleBaselineStacker(edges {i['edges']}/{N}, branch cut {lc}, nights {[f['ints'] for f in i['files']]})"
    if r[0] == "err":
        return ("single-raised", f"{what} raised {r[1:]}")
    s = r[1]
    if lc is not None and len(s.bin_lst) and not (np.all(np.diff(s.bin_lst) > 0) and s.bin_lst[0] >= lc - 1e-9 and s.bin_lst[-1] < lc + 2 * np.pi):
        return ("single-cut", f"{what}: bins {s.bin_lst} do not increase from the branch cut")
    cents = np.array([centre(e, b) for b in range(len(e) - 1)])
    got = {(f, t): None for f in range(len(files)) for t in range(len(times[f]))}
    by_time = {times[f][t]: (f, t) for f, t in got}
    kept = []
    for b, c in enumerate(s.bin_lst):
        m = np.where(np.isclose(np.exp(1j * cents), np.exp(1j * c)))[0]
        if len(m) != 1:
            return ("single-bins", f"{what}: bin centre {c} is none of {cents}")
        kept.append(int(m[0]))
        for q, tm in enumerate(s.times_in_bins[b]):
            ft = by_time.get(tm)
            if ft is None or got[ft] is not None:
                return ("single-time", f"{what}: time {tm} unknown or repeated")
            f, t = ft
            got[ft] = int(m[0])
            if not np.isclose(np.exp(1j * s.lsts_in_bins[b][q]), np.exp(1j * lst_of(i["files"][f]["ints"][t]))):
                return ("single-lst", f"{what}: integration {ft} listed with sidereal time {s.lsts_in_bins[b][q]}")
            dl = (c - lst_of(i["files"][f]["ints"][t]) + np.pi) % (2 * np.pi) - np.pi
            for iq, pq in enumerate(fpols):
                vd, vf, vn, _ = (z[t] for z in stored_vals(seed, f, pr, pq, len(times[f])))
                if not (np.allclose(s.data[b][q, :, iq], vd * phasor(pr, FREQ(np.arange(NF)), dl), rtol=1e-5, atol=1e-5) and np.array_equal(s.flags[b][q, :, iq], vf | dead[f][t]) and np.array_equal(s.nsamples[b][q, :, iq], vn)):
                    return ("single-data", f"{what}: row {q} of bin {c} is not integration {ft}")
    if kept != sorted(kept) and kept != sorted(kept, key=lambda b: (cents[b] < (lc or 0), b)):
        return ("single-order", f"{what}: bins kept {kept}")
    # bins left out are at the ends and hold nothing unflagged
    order = sorted(range(len(cents)), key=lambda b: (cents[b] < (lc or 0), b))
    pos = [order.index(b) for b in kept]
    if pos != list(range(pos[0], pos[0] + len(pos))) if pos else False:
        return ("single-gap", f"{what}: bins kept {kept} are not contiguous")
    for ft in [k for k, b in got.items() if b is None]:
        f, t = ft
        if all(np.all(stored_vals(seed, f, pr, pq, len(times[f]))[1][t] | dead[f][t]) for pq in fpols):
            got.pop(ft)          # fully flagged: its bin may have been trimmed away
    x = assign(i, o, got, what)
    return ("single", x) if x else None


def check(chk):
    recs = chk.tlc("LstBins", CFG, mode="sim", num=chk.n(900, 12000), depth=4)[0]
    nfile = chk.n(330, 4000)
    for fn, rs, tag in ((do_align, recs, "align"), (do_files, recs[:nfile], "files"), (do_single, [r for r in recs if r["in"]["edges"][-1] <= N and not r["in"]["shift"]][:chk.n(100, 1500)], "single")):
        for r, x in zip(rs, chk.pmap(fn, rs, tag=tag)):
            chk.ran()
            chk.traces += 1
            if x:
                chk.fail(x[0], x[1], r)
    chk.extra["full_day_grids"] = sum(r["in"]["edges"][-1] - r["in"]["edges"][0] == N for r in recs)
    chk.extra["grids_across_wrap"] = sum(r["in"]["edges"][-1] > N for r in recs)
    chk.extra["edge_ties"] = sum(len(b) > 1 for r in recs for f in r["out"]["bins"] for b in f)
    chk.sample(recs[0])
    if not chk.viol:
        import copy, random
        bad = 0
        for k, r in enumerate(recs[:80]):
            c = copy.deepcopy(r)
            c["out"]["bins"] = [[[(b + 1) % (len(r["in"]["edges"])) for b in x] for x in f] for f in c["out"]["bins"]]
            bad += do_align(c, random.Random(k), 0, None) is not None
        assert bad > 60, bad
        chk.binding.append(f"moving every integration of the specification to the next bin makes {bad} of 80 replays fail")


if __name__ == "__main__":
    main("C17", check, assumptions=["a circle of 8 ticks, grids of 1-8 bins of 1-3 ticks, up to 4 nights of 1-5 integrations on or between edges; on an edge either neighbouring bin is accepted (consistently)"])
