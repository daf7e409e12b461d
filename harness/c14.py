"""C14: the redundant-calibration driver."""
import os
import re
import glob
import copy
import warnings
import numpy as np
warnings.simplefilter("ignore")
import synth
from vlib import main, run_isolated
from astropy.time import Time
from astropy.coordinates import AltAz, get_sun
from hera_cal import redcal
from hera_cal.io import HERAData, HERACal, read_redcal_meta
from hera_cal.utils import split_bl

CONST = "CONSTANTS MaxT = 6\n NAnt = 9\n MaxRuns = 4\n"
CFG = "INIT Init\nNEXT Next\nINVARIANT OnceEach\nINVARIANT AllSolved\nINVARIANT Bounded\nINVARIANT ThrownIsExcluded\nPROPERTY OnlyMore\n" + CONST
POLS = {"1pol": ["ee"], "2pol": ["nn", "ee"], "4pol": ["nn", "ee", "ne", "en"]}
FEED = {"e": "Jee", "n": "Jnn"}
STEP = 900. / 86400
NF = 24
FREQS = np.linspace(1.2e8, 1.4e8, NF)
alt = lambda t: get_sun(Time(t, format="jd")).transform_to(AltAz(obstime=Time(t, format="jd"), location=synth.HERA)).alt.deg
_day = []


def turning():
    """Noon, midnight (Julian dates)."""
    if not _day:
        t = 2458116.0 + np.arange(0, 1, 1e-3)
        a = alt(t)
        for best in (np.argmax(a), np.argmin(a)):
            f = t[best] + np.linspace(-1e-3, 1e-3, 401)
            b = alt(f)
            _day.append(f[np.argmax(b) if best == np.argmax(a) else np.argmin(b)])
    return _day


def sun(c):
    """Times and a horizon for which the Sun is up in exactly the given integrations."""
    noon, midnight = turning()
    n, k, m = c["n"], c["k"], c["m"]
    i = np.arange(1, n + 1)
    mid = (k + 1 + m) / 2
    t = {"down": midnight + STEP * (i - 2), "up": noon + STEP * (i - 2), "sets": noon + .2 + STEP * i, "rises": midnight + .2 + STEP * i,
         "noon": noon + STEP * (i - mid), "midnight": midnight + STEP * (i - mid)}[c["shape"]]
    up = np.isin(i, c["up"])
    a = alt(t)
    if not up.any():
        return t, a.max() + 1
    if up.all():
        return t, a.min() - 1
    assert a[up].min() > a[~up].max(), (c, a)
    return t, (a[up].min() + a[~up].max()) / 2


def simulate(path, pols, times, rng, noise, bad=(), side=3, hole=()):
    """An array with redundant sky, constant gains and, for bad antennas, disturbances of their own."""
    pos = {a: np.array([14.6 * (a % side), 14.6 * (a // side), 0.]) for a in range(side * side) if a not in hole}
    r2 = np.random.default_rng(rng.getrandbits(32))
    feeds = sorted({f for p in pols for f in p})
    g = {(a, f): r2.uniform(.8, 1.2) * np.exp(1j * (r2.uniform(-.4, .4) + 2 * np.pi * r2.uniform(-2e-9, 2e-9) * FREQS)) * np.ones((len(times), 1)) for a in pos for f in feeds}
    g = {k: v * (1 + .02 * r2.normal(size=(len(times), 1))) for k, v in g.items()}
    sky, amp = {}, {}
    for (a, b) in [(a, b) for a in pos for b in pos if a < b]:
        d = tuple(np.round((pos[b] - pos[a]) / 14.6).astype(int))
        for p in pols:
            sky.setdefault((d, p), 30 * np.exp(1j * r2.uniform(-3, 3)) * np.exp(2j * np.pi * FREQS * r2.uniform(-3e-8, 3e-8)) * (1 + .3 * r2.normal(size=(len(times), 1))))
    for d, p in list(sky):
        if (tuple(-x for x in d), p[::-1]) in sky:
            sky[d, p] = np.conj(sky[tuple(-x for x in d), p[::-1]])
    nsamp = {}
    bad = dict(bad)

    def wf(kind, k):
        a, b, p = k
        if kind == "flags":
            return np.zeros((len(times), NF), bool)
        if kind == "nsamples":
            return nsamp.setdefault(k, float(r2.integers(1, 4)))
        if a == b:
            x = 400. * np.abs(g[a, p[0]] * np.conj(g[b, p[1]])) + 0j
            return x if p[0] == p[1] else .1 * x
        x = g[a, p[0]] * np.conj(g[b, p[1]]) * sky[tuple(np.round((pos[b] - pos[a]) / 14.6).astype(int)), p]
        s = noise * (1 + bad.get((a, p[0]), 0) + bad.get((b, p[1]), 0))
        return x + s * (r2.normal(size=x.shape) + 1j * r2.normal(size=x.shape))
    pairs = [(a, b) for a in pos for b in pos if a <= b]
    uvd = synth.make_uvd(pairs, pols, times, FREQS, wf, pos)
    uvd.write_uvh5(path, clobber=True)
    return pos, nsamp


def good_ants(pos, pols, mode, ex):
    """Antennas that redundancies tie together without the excluded ones (none where too little is left)."""
    reds = redcal.get_reds(pos, pols=pols, pol_mode=mode)
    out = set()
    for ps in ([[p] for p in pols] if mode != "4pol" else [pols]):
        left = redcal.filter_reds(redcal.filter_reds(reds, ex_ants=ex, pols=ps), max_dims=2)
        if max([len(r) for r in left], default=0) < 2:
            return reds, set()
        for r in left:
            out |= {x for b in r for x in split_bl(b)}
    return reds, out


def pieces(rec, rng, d):
    c = rec["cfg"]
    mode, pols = c["mode"], POLS[c["mode"]]
    times, horizon = sun(c)
    ex = sorted(rec["ex"]["nums"]) + [(a, FEED[f]) for a, f in rec["ex"]["feeds"] if f in "".join(pols)]
    path = os.path.join(d, "zen.2458116.1.uvh5")
    pos, nsamp = simulate(path, pols, times, rng, 1e-3)
    reds, good = good_ants(pos, pols, mode, ex)
    if not good or any(not any(a[1] == FEED[f] for a in good) for f in set("".join(pols))):
        return
    who = f"{mode}, {c['n']} integrations, Sun up in {sorted(c['up'])}, {c['load'] or 'all'} at a time, without {ex}, {c['low']} and {c['high']} edge channels flagged"
    exin = copy.deepcopy(ex)
    kw = dict(pol_mode=mode, ex_ants=ex, solar_horizon=horizon, flag_nchan_low=c["low"], flag_nchan_high=c["high"], oc_maxiter=200, verbose=rng.random() < .2)
    keep = open(path, "rb").read()
    with open(os.devnull, "w") as nul:
        import contextlib
        with contextlib.redirect_stdout(nul):
            meta, first, omni, vis = redcal.redcal_iteration(HERAData(path), nInt_to_load=c["load"] or None, **kw)
    if ex != exin or open(path, "rb").read() != keep:
        return "input-changed", f"{who}: the exclusions or the data file changed"
    pix = np.zeros((c["n"], NF), bool)
    for t in rec["solved"]:
        pix[t - 1, c["low"]:NF - c["high"]] = True
    tsol = np.isin(np.arange(1, c["n"] + 1), rec["solved"])
    g, gf, q, _ = omni.build_calcontainers()
    g1, gf1, _, _ = first.build_calcontainers()
    v, vf, vn = vis.build_datacontainers()
    ants = {(a, FEED[f]) for a in pos for f in set("".join(pols))}
    if set(g) != ants:
        return "ants", f"{who}: the solution has {sorted(g)}"
    for what, fl in (("omnical", gf), ("firstcal", gf1)):
        for a in ants:
            want = ~pix if a in good else np.ones_like(pix)
            if not np.array_equal(fl[a], want):
                return "gain-flags", f"{who}: {what} flags of {a} ({'good' if a in good else 'excluded or unsolvable'}) are wrong in integrations {sorted(set(np.argwhere(fl[a] != want)[:, 0] + 1))}, channels {sorted(set(np.argwhere(fl[a] != want)[:, 1]))}"
    data, _, _ = HERAData(path).read()
    for r in reds:
        ok = [b for b in r if all(x in good for x in split_bl(b))]
        want = ~pix if ok else np.ones_like(pix)
        if not np.array_equal(vf[r[0]], want):
            return "vis-flags", f"{who}: visibility flags of {r[0]} are wrong ({len(ok)} of {len(r)} baselines good)"
        if not np.allclose(vn[r[0]], np.where(pix, sum(nsamp[b] if b in nsamp else nsamp[b[1], b[0], b[2][::-1]] for b in ok), 0)):
            return "vis-nsamples", f"{who}: visibility {r[0]} counts {np.unique(vn[r[0]])} samples"
        for b in ok:
            m = g[split_bl(b)[0]] * np.conj(g[split_bl(b)[1]]) * v[r[0]]
            if pix.any() and not np.allclose(m[pix], data[b][pix], rtol=2e-2, atol=.05):
                return "model", f"{who}: gains and visibility of {b} are off its data by {np.max(np.abs(m - data[b])[pix]):.2g}"
    for a in ants:
        dl, fp = (meta["fc_meta"][x][a] for x in ("dlys", "polarity_flips"))
        if not np.array_equal(np.isfinite(dl), tsol & (a in good)) or not np.array_equal(np.isfinite(fp), tsol & (a in good)):
            return "meta-fc", f"{who}: delays of {a} are given for integrations {np.argwhere(np.isfinite(dl)).ravel() + 1}"
    for k, x in meta["omni_meta"]["conv_crit"].items():
        if not np.array_equal(x != 0, pix):
            return "meta-omni", f"{who}: convergence of {k} is given in integrations {sorted(set(np.argwhere(x != 0)[:, 0] + 1))}, channels {sorted(set(np.argwhere(x != 0)[:, 1]))}"
    if c["load"] and tsol.any():
        _, first2, omni2, vis2 = redcal.redcal_iteration(HERAData(path), nInt_to_load=None, **{**kw, "verbose": False})
        for what, x, y in (("gain", g, omni2.build_calcontainers()[0]), ("firstcal gain", g1, first2.build_calcontainers()[0]), ("visibility", v, vis2.build_datacontainers()[0])):
            for k in x:
                if not np.allclose(x[k], y[k], rtol=1e-3, atol=1e-3 * (30 if what == "visibility" else 1)):
                    return "load", f"{who}: {what} of {k} depends on how many integrations are loaded, by {np.max(np.abs(x[k] - y[k])):.2g}"


def zscores(x):
    out = {}
    for f in {a[1] for a in x}:
        val = np.array([v for a, v in x.items() if a[1] == f])
        med = np.median(val)
        mad = np.median(np.abs(val - med))
        out.update({a: .6745 * (v - med) / mad for a, v in x.items() if a[1] == f})
    return out


def history(rec, rng, d):
    """A whole run, recorded step by step."""
    c = rec["cfg"]
    mode = rng.choice(["1pol", "2pol", "2pol"])
    pols = POLS[mode]
    cap = c["cap"]
    times = turning()[1] + STEP * np.arange(2)
    path = os.path.join(d, "zen.2458116.2.uvh5")
    feeds = sorted(set("".join(pols)))
    bad = {}
    for lev in ([200, 30, 6] if rng.random() < .5 else [60, 8]):
        for _ in range(rng.choice([1, 1, 2])):
            bad[rng.randrange(16), rng.choice(feeds)] = lev * rng.uniform(.7, 1.3)
    pos, _ = simulate(path, pols, times, rng, .3, bad, side=4)
    given = sorted(rng.sample(range(16), rng.choice([0, 0, 1])))
    extra = []
    if mode == "2pol" and rng.random() < .5 and bad:
        a, f = max(bad, key=bad.get)
        if a not in given:
            extra = [(a, FEED[f])]
    thr = rng.choice([3., 4., 6.])
    kw = dict(pol_mode=mode, solar_horizon=0., oc_maxiter=60)
    X, runs, sols = set(given), [], []
    while True:
        m, f, o, v = redcal.redcal_iteration(HERAData(path), ex_ants=X | set(extra), **kw)
        q = o.build_calcontainers()[2]
        z = zscores({a: np.nanmedian(x) for a, x in q.items() if a[0] not in X and a not in extra and not np.all(x == 0)})
        high = sorted({int(a[0]) for a, x in z.items() if x >= thr})
        if any(abs(x - thr) < 1e-3 for x in z.values()):
            return None
        runs.append({"ex": sorted(X), "bad": high})
        sols.append((f, o, v))
        if not high or len(runs) == cap:
            break
        X = X | set(high)
    out = os.path.join(d, "out")
    os.makedirs(out)
    pre = rng.choice(["", ".iter0"])
    exin = list(given) + list(extra)
    meta, f, o, v = redcal.redcal_run(path if rng.random() < .5 else HERAData(path), outdir=out, ex_ants=exin, ant_z_thresh=thr, max_rerun=cap, iter0_prefix=pre, clobber=True, **kw)
    who = f"{mode}, noisy {({k: round(x) for k, x in bad.items()})}, without {given + extra}, threshold {thr}, at most {cap} runs, iterations {runs}"
    g, gf, q, tq = o.build_calcontainers()
    # what is out: an antenna flagged in every feed although redundancies without the exclusions would tie it
    result = sorted({a for a in pos if all(np.all(gf[a, FEED[x]]) for x in feeds)})
    thrown = sorted({int(x) for x in re.findall(r"Throwing out antenna (\d+) ", o.history)})
    rec2 = {"given": given, "cap": cap, "runs": runs, "result": result, "thrown": thrown}
    if exin != list(given) + list(extra):
        return ("exin", f"{who}: the list of exclusions was changed"), None
    for what, x, y in (("firstcal", f, sols[-1][0]), ("omnical", o, sols[-1][1])):
        for i, nm in enumerate(("gains", "flags", "qualities", "total qualities")):
            x1, y1 = x.build_calcontainers()[i], y.build_calcontainers()[i]
            if x1 is not None and any(not np.allclose(x1[k], y1[k], rtol=1e-3, atol=1e-5) for k in y1):
                return ("final", f"{who}: {what} {nm} are not those of a calibration with the final exclusions"), None
    for i, nm in enumerate(("data", "flags", "nsamples")):
        x1, y1 = v.build_datacontainers()[i], sols[-1][2].build_datacontainers()[i]
        if any(not np.allclose(x1[k], y1[k], rtol=1e-3, atol=1e-3) for k in y1):
            return ("final", f"{who}: visibility {nm} are not those of a calibration with the final exclusions"), None
    base = os.path.join(out, "zen.2458116.2")
    sets = [("", (f, o, v))] + ([(pre, sols[0])] if pre and len(runs) > 1 else [])
    want = {os.path.basename(base + p + e) for p, _ in sets for e in (".first.calfits", ".omni.calfits", ".omni_vis.uvh5", ".redcal_meta.hdf5")}
    if set(os.listdir(out)) != want:
        return ("files", f"{who}: prefix {pre!r} leaves {sorted(os.listdir(out))}"), None
    for p, (f1, o1, v1) in sets:
        for e, x in ((".first.calfits", f1), (".omni.calfits", o1)):
            hc = HERACal(base + p + e)
            got, exp = hc.read(), x.build_calcontainers()
            for i in (0, 1, 2):
                if exp[i] is not None and any(not np.allclose(got[i][k], exp[i][k], rtol=1e-3, atol=1e-5) for k in exp[i]):
                    return ("written", f"{who}: {p + e} does not hold what was returned"), None
        got, exp = HERAData(base + p + ".omni_vis.uvh5").read(), v1.build_datacontainers()
        if any(not np.allclose(got[i][k], exp[i][k], rtol=1e-3, atol=1e-3) for i in (0, 1, 2) for k in exp[i]):
            return ("written", f"{who}: {p}.omni_vis.uvh5 does not hold what was returned"), None
        fm, om, fr, ti, ls, ap, hi = read_redcal_meta(base + p + ".redcal_meta.hdf5")
        if not np.allclose(ti, times, rtol=0, atol=1e-8) or not np.allclose(fr, FREQS) or (p == "" and any(not np.allclose(fm["dlys"][k], meta["fc_meta"]["dlys"][k], equal_nan=True) for k in fm["dlys"])):
            return ("written", f"{who}: {p}.redcal_meta.hdf5 does not hold what was returned"), None
    return None, (rec2, who)


def do(item, rng, idx, d):
    what, rec = item
    d = os.path.join(d, f"{what}{idx}")
    os.makedirs(d)
    try:
        r = run_isolated({"pieces": pieces, "history": history}[what], rec, rng, d)
    finally:
        for p in glob.glob(os.path.join(d, "*")):
            if os.path.isfile(p):
                os.unlink(p)
    if r[0] == "err":
        e = (what + "-raised", f"{what} {rec['cfg']} {rec['ex']}: raised {r[1:]}")
        return e if what == "pieces" else (e, None)
    return r[1]


def check(chk):
    turning()
    recs, _ = chk.tlc("RedcalDriver", CFG, mode="sim", num=chk.n(60, 1500), depth=60)
    assert len(recs) >= chk.n(60, 1500), len(recs)
    items = [("history", r) for r in recs[:chk.n(20, 300)]] + [("pieces", r) for r in recs]
    logs = []
    for (what, rec), res in zip(items, chk.pmap(do, items)):
        chk.ran()
        if what == "pieces":
            chk.traces += 1
            if res:
                chk.fail(res[0], res[1], rec)
        elif res:
            if res[0]:
                chk.fail(res[0][0], res[0][1], rec)
            if res[1]:
                logs.append(res[1])
    logs = logs and [({**r, "who": w}) for r, w in logs]
    for r, v in chk.validate("RedcalDriver", logs, consts=CONST):
        chk.fail("history-" + v, f"{r['who']}: {v}: the result excludes {r['result']}, the file says thrown out: {r['thrown']}", r)
    chk.extra["shapes"] = {s: sum(r["cfg"]["shape"] == s for r in recs) for s in ("down", "up", "sets", "rises", "noon", "midnight")}
    chk.extra["runs"] = {n: sum(len(r["runs"]) == n for r in logs) for n in (1, 2, 3, 4)}
    chk.sample(recs[0])
    if logs and not chk.viol:
        more = [r for r in logs if len(r["runs"]) > 1]
        bad = [{**r, "result": r["result"][1:]} for r in more[:2]] + [{**r, "thrown": []} for r in more[:2]]
        k = len(chk.validate("RedcalDriver", bad, consts=CONST))
        assert bad and k == len(bad), (k, len(bad))
        chk.binding.append(f"perturbing recorded histories makes {k} of {len(bad)} validations fail")
        pert = [("pieces", {**r, "solved": r["solved"][1:]}) for r in recs if r["solved"]][:4]
        k = sum(x is not None for x in chk.pmap(do, pert, tag="b"))
        assert k, "no perturbed case fails"
        chk.binding.append(f"perturbing expected integrations makes {k} of {len(pert)} replays fail")


if __name__ == "__main__":
    main("C14", check, assumptions=["all baselines of the array are in the file, with autocorrelations", "gains without polarity flips", "noise far below the signal where results are compared"])
