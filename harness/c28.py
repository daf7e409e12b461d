"""C28: night-to-night calibration of LST stacks, and files of such solutions."""
import copy
import os
import warnings
import numpy as np
warnings.simplefilter("ignore")
from vlib import main, run_isolated
from hera_cal import redcal, utils
from hera_cal.lst_stack import calibration, LSTStack
from synth import make_uvd

CFG = "INIT Init\nNEXT Next\nINVARIANT Sound\nCONSTANTS NN = %d\n NF = %d\n Mode = \"%s\"\n"
UNIT = 2 * np.pi / 16
LAB = [0, 1, 2, 3, 5, 7, 11, 12, 40, 104]
A = np.array
LOC = (-30.72152777777791, 21.428305555555557, 1073.)


def stack(pairs, pols, nn, nf, pos):
    z = lambda kind, k: np.zeros((nn, nf))
    uvd = make_uvd(pairs, pols, 2459844. + np.arange(nn), 46.92e6 + 122070.3125 * np.arange(nf), z, pos, time_fast=False)
    uvd.blts_are_rectangular, uvd.time_axis_faster_than_bls = True, False
    return LSTStack(uvd)


def cal(r, rng0, idx, d):
    rng = np.random.default_rng(rng0.getrandbits(32))
    lab = list(map(int, rng.choice(LAB, len(r["pos"]), replace=False)))
    pos = {lab[k]: A([14.6 * p[0], 14.6 * p[1], 0.]) for k, p in enumerate(r["pos"])}
    bls = [(lab[i - 1], lab[j - 1]) for i, j in r["bls"]]
    autos = [(lab[a - 1], lab[a - 1]) for a in r["autos"]]
    pols = ["".join(p) for p in r["pols"]]
    nn, nf = len(r["par"]), len(r["par"][0])
    st = stack(bls, pols, nn, nf, pos)
    au = stack(autos, pols, nn, nf, pos) if autos else None
    assert sorted(st.antpairs) == sorted(bls) and sorted(st.pols) == sorted(pols) and st.data.shape == (nn, len(bls), nf, len(pols))
    amp = lambda a: 1 + a / 8
    feeds = sorted({p[0] for p in pols})

    def true(a, q):
        x, y = r["pos"][lab.index(a)]
        g = lambda n, f: r["par"][n][f]["g"][q]
        return A([[amp(g(n, f)["a"]) * np.exp(1j * UNIT * (g(n, f)["x"] * x + g(n, f)["y"] * y + (r["par"][n][f]["d"] if q == "n" else 0)))
                   for f in range(nf)] for n in range(nn)])

    def want(i, j, p, q):
        (x1, y1), (x2, y2) = r["pos"][lab.index(i)], r["pos"][lab.index(j)]
        def one(n, f):
            u, v = r["gain"][n][f][p], r["gain"][n][f][q]
            return amp(u["a"]) * amp(v["a"]) * np.exp(1j * UNIT * (u["x"] * x1 + u["y"] * y1 + u["d"] - v["x"] * x2 - v["y"] * y2 - v["d"]))
        return A([[one(n, f) for f in range(nf)] for n in range(nn)])
    G = {(a, q): true(a, q) for a in lab for q in feeds}
    models = {}
    for s, pr in ((st, bls), (au, autos)):
        if s is None:
            continue
        m = rng.uniform(.5, 2, s.data.shape[1:]) * np.exp(2j * np.pi * rng.random(s.data.shape[1:]))
        models[id(s)] = m
        s.nsamples[:] = rng.integers(1, 5, s.nsamples.shape)
        s.flags[:] = False
        for b, (i, j) in enumerate(s.antpairs):
            for k, pol in enumerate(s.pols):
                s.data[:, b, :, k] = m[b, :, k] * G[int(i), pol[0]] * np.conj(G[int(j), pol[1]])
    junk = lambda: rng.choice([np.nan, np.inf, 0, 1e4, -50j, 3 + 1j])
    for b, (i, j) in enumerate(st.antpairs):
        for k, pol in enumerate(st.pols):
            c = A([[r["cls"][n][bls.index((int(i), int(j)))][f][pols.index(pol)] for f in range(nf)] for n in range(nn)])
            for n, f in zip(*np.nonzero(c)):
                if c[n, f] == 1:
                    st.flags[n, b, f, k] = True
                    st.nsamples[n, b, f, k] *= rng.choice([1, 0, -1])
                    st.data[n, b, f, k] = junk()
                else:
                    st.nsamples[n, b, f, k] *= -1
                    if not r["inp"]:
                        st.data[n, b, f, k] = rng.choice([30, 0, -7j])
    if au is not None:
        for b, (i, j) in enumerate(au.antpairs):
            c = A([r["af"][n][autos.index((int(i), int(i)))] for n in range(nn)], bool)
            for n, f in zip(*np.nonzero(c)):
                au.flags[n, b, f] = True
                au.data[n, b, f] = junk()
    before = {id(s): (s.data.copy(), s.flags.copy(), s.nsamples.copy(), models[id(s)].copy()) for s in (st, au) if s is not None}
    reds = redcal.get_reds(pos, pols=[p for p in st.pols], bl_error_tol=1.)
    bands = (slice(0, None),) if r["split"] == 0 else (slice(0, r["split"]),)
    got = run_isolated(calibration.lstbin_absolute_calibration, st, models[id(st)], reds, inpaint_bands=bands, auto_stack=au, auto_model=None if au is None else models[id(au)],
                       run_amplitude_cal=r["runA"], run_phase_cal=r["runP"], run_cross_pol_phase_cal=r["runX"], smooth_gains=r["smooth"], calibrate_inplace=r["inplace"],
                       use_autos_for_abscal=r["useauto"], use_inpainted_data=r["inp"], refpol="J" + 2 * r["ref"])
    if got[0] == "err":
        return "error", f"lstbin_absolute_calibration raises {got[1]}: {got[2]}"
    par, gains = got[1]
    ants = {int(a) for b in bls + autos for a in b}
    if set((int(a), q) for a, q in gains) != {(a, "J" + 2 * q) for a in ants for q in feeds}:
        return "keys", f"gains for {sorted(gains)}"
    for q in feeds:
        seen = A([[r["gain"][n][f][q]["seen"] for f in range(nf)] for n in range(nn)])
        sure = A([[r["gain"][n][f][q]["sure"] for f in range(nf)] for n in range(nn)])
        a, t = A(par["A_J" + 2 * q]), A(par["T_J" + 2 * q])
        wa = A([[amp(r["par"][n][f]["g"][q]["a"]) if r["runA"] and seen[n, f] else 1. for f in range(nf)] for n in range(nn)])
        if a.shape != (nn, nf) or not np.allclose(a[sure], wa[sure], rtol=1e-6, atol=0):
            return "amplitude", f"amplitudes of {q} are {np.abs(a).tolist()}, not {wa.tolist()} (use of inpainted data: {r['inp']}, dark: {r['dark']})"
        if t.shape[:2] != (nn, nf) or t.ndim != 3:
            return "tilt-shape", f"tilts have shape {t.shape}, not ({nn}, {nf}, n)"
        if not np.all(t[~seen] == 0):
            return "tilt-flagged", f"tilts where nothing was measured: {t[~seen].tolist()}"
    for p in feeds:
        for q in feeds:
            R = lambda key: A([[r["gain"][n][f][p][key] and r["gain"][n][f][q][key] for f in range(nf)] for n in range(nn)])
            ok = R("sure")
            if p != q:
                if not r["runX"]:
                    continue
                dd = A([[r["gain"][n][f]["n"]["d"] + r["gain"][n][f]["e"]["d"] for f in range(nf)] for n in range(nn)])
                xs = A([[any(c == 0 or (c == 2 and r["inp"]) for b in r["cls"][n] for k, c in enumerate(b[f]) if pols[k][0] != pols[k][1]) for f in range(nf)] for n in range(nn)])
                ok &= R("xsure") & xs & (not r["dark"])
            both = R("seen")
            for i, j in [(i, j) for i in ants for j in ants]:
                if p != q and not {i, j} <= {int(x) for b in bls for x in b}:
                    continue
                g = gains[(i, "J" + 2 * p)] * np.conj(gains[(j, "J" + 2 * q)])
                w = want(i, j, p, q)
                if g.shape != (nn, nf):
                    return "shape", f"gains have shape {g.shape}"
                tol = np.where(ok, 1e-5, np.inf) if not r["smooth"] else np.where(ok & both, 1e-2, .1 if p == q else np.inf)
                if np.any(~(np.abs(g - w)[tol < np.inf] <= (tol * np.abs(w))[tol < np.inf])):
                    n, f = [int(x[0]) for x in np.nonzero((tol < np.inf) & ~(np.abs(g - w) <= tol * np.abs(w)))]
                    return "smooth-gain" if r["smooth"] else "gain", f"night {n}, channel {f}, antennas {i} and {j}, {p}{q}: product of gains {g[n, f]}, not {w[n, f]}"
    for s in (st, au):
        if s is None:
            continue
        dat, fl, ns, mod = before[id(s)]
        if not (np.array_equal(s.flags, fl) and np.array_equal(s.nsamples, ns) and np.array_equal(models[id(s)], mod)):
            return "inputs", "flags, samples or model were changed"
        for b, (i, j) in enumerate(s.antpairs):
            for k, pol in enumerate(s.pols):
                w = dat[:, b, :, k]
                if r["inplace"]:
                    w = w / (gains[(i, "J" + 2 * pol[0])] * np.conj(gains[(j, "J" + 2 * pol[1])]))
                fin = np.isfinite(w)
                if not np.allclose(s.data[:, b, :, k][fin], w[fin], rtol=1e-5, atol=0):
                    return "apply", f"data of {(int(i), int(j), pol)} are not the data over the gains (in place: {r['inplace']})"
    return None


def files(r, rng0, idx, d):
    rng = np.random.default_rng(rng0.getrandbits(32))
    nt, nf = len(r["x"]), len(r["x"][0])
    step = 2 * np.pi / 24
    # times in the middle of their bins of LST
    jd = 2459850.
    l0 = float(utils.JD2LST(np.array([jd]), *LOC)[0])
    SID = 0.99726957
    t0 = jd + (((r["start"] + .5) * step - l0) % (2 * np.pi)) / (2 * np.pi) * SID
    times = t0 + np.arange(nt) * SID / 24
    freqs = 1e8 + 1e5 * np.arange(nf)
    pos = {a: A(p, float) for a, p in r["ants"]}
    real = {a: rng.normal(size=3) for a in list(pos) + [200]}
    par = {}
    for q in r["feeds"]:
        par["A_J" + 2 * q] = A(r["amp"][q], float)
        par["T_J" + 2 * q] = UNIT * A(r["tilt"][q], float)
    if r["cross"]:
        par["cross_pol"] = UNIT * A(r["x"], float)
    pols = [2 * q for q in r["feeds"]] + (["en", "ne"] if len(r["feeds"]) == 2 else [])
    rng.shuffle(pols)
    flags = {p: A(r["fl"][p[0]], bool) if p[0] == p[1] else rng.random((nt, nf)) < .5 for p in pols}
    f = os.path.join(d, "sol.h5")
    if rng.random() < .3:
        open(f, "w").write("old")
        os.remove(f)
    got = run_isolated(calibration.write_single_baseline_lstcal_solutions, f, par, flags, pos, real, times, freqs, pols, refpol="J" + 2 * r["ref"], **({} if rng.random() < .5 else dict(compression="gzip", compression_opts=2)))
    if got[0] == "err":
        return "write", f"writing raises {got[1]}: {got[2]}"
    got = run_isolated(calibration.load_single_baseline_lstcal_solutions, f)
    if got[0] == "err":
        return "load", f"loading raises {got[1]}: {got[2]}"
    p2, f2, m2 = got[1]
    same = lambda a, b: set(a) == set(b) and all(np.array_equal(a[k], b[k]) for k in a)
    if not (same(p2, par) and same(f2, flags) and same(m2["transformed_antpos"], pos) and same(m2["antpos"], real) and np.array_equal(m2["times"], times)
            and np.array_equal(m2["freqs"], freqs) and m2["pols"] == pols and m2["refpol"] == "J" + 2 * r["ref"]):
        return "roundtrip", "what is loaded differs from what was written"
    want = sorted(r["want"])
    pairs = [(want[0], want[0])] + [(want[0], b) for b in want[1:]]
    ask = pols if r["ask"] == "some" else ["ee", "nn"]
    if r["ask"] == "some" and rng.random() < .5 and len(pols) > 2:
        ask = [["en"], ["ne"], ["ee", "nn"]][rng.integers(3)]
    kw = {}
    if r["sel"]:
        edges = (r["lo"] + np.arange(r["len"] + 1)) * step
        if rng.random() < .5:
            edges = edges + 2 * np.pi * rng.integers(-2, 3)
        kw = dict(lst_bin_edges=edges, telescope_location_lat_lon_alt_degrees=LOC)
        keep = edges.copy()
    got = run_isolated(calibration.load_single_baseline_lstcal_gains, f, pairs, ask, **kw)
    if got[0] == "err":
        return None if r["refuse"] else ("gains-error", f"load_single_baseline_lstcal_gains raises {got[1]}: {got[2]}")
    if r["refuse"]:
        return "not-refused", "gains are returned where there are none (no time in the range, or no such polarization)"
    if r["sel"] and not np.array_equal(edges, keep):
        return "edges", "the bin edges of the caller were changed"
    g, cf = got[1]
    exp = {(x["a"], "J" + 2 * x["q"]): x for x in r["gains"]}
    if set(g) != set(exp) or set(cf) != set(exp):
        return "gain-keys", f"gains for {sorted(g)}, not {sorted(exp)}"
    for k, x in exp.items():
        w = A(x["amp"]) * np.exp(1j * UNIT * A(x["ph"]))
        if g[k].shape != w.shape or not np.allclose(g[k], w, atol=1e-8):
            return "gain-values", f"gains of {k} have shape {g[k].shape} and are {np.ravel(g[k])[:4]}, not {w.shape} {np.ravel(w)[:4]} (times {r['times']})"
        if bool(cf[k]) != x["flagged"]:
            return "gain-flags", f"{k} is {'not ' if x['flagged'] else ''}flagged"
    return None


def check(chk):
    for mode, sizes, fn in (("cal", ((3, 5, chk.n(80, 1500)), (1, 3, chk.n(40, 600)), (2, 6, chk.n(40, 900))), cal), ("file", ((6, 2, chk.n(120, 3000)), (3, 3, chk.n(60, 1000))), files)):
        recs = []
        for nn, nf, num in sizes:
            recs += chk.tlc("LstCal", CFG % (nn, nf, mode), mode="sim", num=num, depth=5)[0]
        res = chk.pmap(fn, recs, tag=mode)
        for r, e in zip(recs, res):
            chk.ran(1)
            chk.traces += 1
            if e:
                chk.fail(f"{mode}-{e[0]}", e[1], r)
        chk.sample(recs[0])
        bad = []
        for r in copy.deepcopy(recs):
            if mode == "cal":
                hit = [(n, f, q) for n, row in enumerate(r["gain"]) for f, c in enumerate(row) for q in c if c[q]["sure"] and c[q]["seen"]]
                if hit:
                    n, f, q = hit[0]
                    r["gain"][n][f][q]["a"] += 1
                    bad.append(r)
            elif r["gains"]:
                r["gains"][0]["ph"][0][0] += 1
                bad.append(r)
        bad = bad[:6]
        n = sum(isinstance(x, (list, tuple)) for x in chk.pmap(fn, bad, tag="b" + mode))
        assert n == len(bad) and bad or chk.viol, (mode, n, len(bad))
        chk.binding.append(f"{mode}: a perturbed expectation makes {n} of {len(bad)} replays fail")
        if mode == "cal":
            chk.extra["smoothed"] = sum(r["smooth"] for r in recs)
            chk.extra["dark"] = sum(r["dark"] for r in recs)


if __name__ == "__main__":
    main("C28", check, assumptions=["noise-free data; separations that pin down the tilts"])
