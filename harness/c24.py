"""C24: absolute calibration compares each datum with its own model counterpart."""
import copy
import logging
import os
import shutil
import warnings
import h5py
import numpy as np
warnings.simplefilter("ignore")
logging.disable(logging.WARNING)
from vlib import main, run_isolated
import synth
from synth import make_uvd, make_uvc, FREQ, HERA
from pyuvdata import utils as uvutils
from hera_cal import abscal, io
from hera_cal.datacontainer import DataContainer

N = 160480
CFG = ("INIT Init\nNEXT Next\nCONSTANTS N = %d\nINVARIANT NearestWins\nINVARIANT ExactIsPaired\nINVARIANT HolderIsMatched\nINVARIANT OneCounterpart\nINVARIANT UnpairedFlagged\n" % N)
TAU = 2 * np.pi
SDAY = 86164.0905 / 86400
TICK = SDAY / N                                                   # days
LST = lambda jd: uvutils.get_lst_for_time(np.atleast_1d(jd), telescope_loc=HERA)


def _midnight(day):
    jd = day
    for _ in range(3):
        jd = jd + ((-LST(jd)[0] + np.pi) % TAU - np.pi) / TAU * SDAY
    return jd


NIGHT = {n: _midnight(2458116.3 + n) for n in (0, 3)}             # tick 0 on two nights
SP = 14.6


def times(o, rng, d):
    conv = rng.choice([list, np.array])
    dl, ml = [np.array(o[k]) / N * TAU for k in ("data", "model")]
    if rng.random() < .5:
        for l in (dl, ml):
            l[l < l[0]] += TAU
    dt, mt = 2458100.2 + .001 * np.arange(len(dl)), 2459000.7 + .001 * np.arange(len(ml))
    args = (dt, conv(dl), mt, conv(ml))
    keep = copy.deepcopy(args)
    got = abscal.get_d2m_time_map(*args, extrap_limit=o["limit"] / 10)
    want = {t: mt[p[0] - 1] if p else None for t, p in zip(dt, o["pair"])}
    if got != want:
        return "pairing", f"data at {o['data']}, model at {o['model']}, limit {o['limit'] / 10}: pairs {[None if v is None else int(round((v - mt[0]) * 1000)) + 1 for v in got.values()]}, specification says {o['pair']}"
    if not all(np.array_equal(a, b) for a, b in zip(args, keep)):
        return "pairing-mutates", "get_d2m_time_map changed its input"


def header(fn, ticks, spacing, order):
    """Just what a reader of times needs of a uvh5 header."""
    nt, bls = len(ticks), [(0, 0), (0, 1)]
    lst, jd = (np.array(ticks) / N * TAU) % TAU, 2458100.3 + np.arange(nt) * spacing * TICK
    with h5py.File(fn, "w") as f:
        h = f.create_group("Header")
        st = lambda a: np.repeat(a, 2) if order else np.tile(a, 2)
        h["time_array"], h["lst_array"] = st(jd), st(lst)
        h["integration_time"] = np.full(2 * nt, spacing * TICK * 86400)
        a = np.array(bls)
        a = np.tile(a, (nt, 1)) if order else np.repeat(a, nt, axis=0)
        h["ant_1_array"], h["ant_2_array"], h["Nants_telescope"] = a[:, 0], a[:, 1], 2


def files(o, rng, d):
    fns = []
    for i, t in enumerate(o["files"]):
        fns.append(os.path.join(d, f"m{rng.randrange(100)}.{i}.uvh5"))
        header(fns[-1], t, o["spacing"], rng.random() < .5)
    df = os.path.join(d, "data.uvh5")
    header(df, o["data"], o["dspacing"], rng.random() < .5)
    got = abscal.match_times(df, list(fns))
    want = [fns[i - 1] for i in o["match"]]
    if list(got) != want:
        return "files", (f"model files at {o['files']} every {o['spacing']}, data at {o['data']} on a circle of {N}: files {[fns.index(f) + 1 for f in got]} match, "
                         f"specification says {o['match']}")


def positions(pos, rng, off=0.):
    return {a: np.array([SP * x + off + rng.uniform(-.02, .02), SP * y - off + rng.uniform(-.02, .02), rng.uniform(-.02, .02)]) for a, (x, y) in pos}


def bls(o, rng, d):
    dpos = positions(o["dpos"], rng)
    mpos = dpos if o["same"] else positions(o["mpos"], rng, rng.choice([0., 100.3]))
    D, M = [tuple(b) for b in o["data"]], [tuple(b) for b in o["model"]]
    rng.shuffle(D)
    rng.shuffle(M)
    kw = dict(model_antpos=None if o["same"] and rng.random() < .5 else mpos, pols=list(o["pols"]), data_is_redsol=o["redsol"], model_is_redundant=o["red"],
              min_bl_cut=None if o["lo"] < 0 else SP * (o["lo"] / 2) ** .5, max_bl_cut=None if o["hi"] == 999 else SP * (o["hi"] / 2) ** .5, include_autos=o["autos"])
    keep = copy.deepcopy((D, M, dpos, mpos))
    r = run_isolated(abscal.match_baselines, D, M, dpos, **kw)
    want = {tuple(a): tuple(b) for a, b in o["map"]}
    who = f"data {D}, model {M} at {dict(o['dpos'])} and {dict(o['mpos'])} ({'unique model' if o['red'] else 'full model'})"
    if r[0] == "err":
        return "baselines-raised", f"{who}: {r[1:]}"
    dl, ml, got = r[1]
    if got != want:
        return "baselines", f"{who}: map {got}, specification says {want}"
    rev = lambda b: (b[1], b[0], b[2])
    if sorted(dl) != sorted(want) or sorted(ml) != sorted(m for m in M if m in want.values() or rev(m) in want.values()):
        return "baselines-load", f"{who}: loads {dl} and {ml} for the map {want}"
    if any(not np.array_equal(a[k], b[k]) for a, b in ((dpos, keep[2]), (mpos, keep[3])) for k in a) or (D, M) != keep[:2]:
        return "baselines-mutates", "match_baselines changed its input"


def wgts(o, rng, d):
    nt, nf = o["nt"], o["nf"]
    pos = positions(o["pos"], rng)
    arr = lambda x, t: np.array(x, t)
    bl = [(tuple(b["bl"]), b) for b in o["bls"]]
    dt, df = 10 + rng.random(), 1e5 + rng.random()
    flags = DataContainer({k: arr(b["df"], bool) for k, b in bl})
    mflags = DataContainer({k: arr(b["mf"], bool) for k, b in bl})
    ns = DataContainer({k: arr(b["ns"], float) for k, b in bl})
    autos = DataContainer({(a, a, "ee"): arr(A, complex) for a, A, F in o["autos"]})
    aflags = DataContainer({(a, a, "ee"): arr(F, bool) for a, A, F in o["autos"]})
    ts = 2458100.1 + np.arange(nt) * dt / 86400
    keep = copy.deepcopy([dict(x.items()) for x in (flags, mflags, ns, autos, aflags)])
    w = abscal.build_data_wgts(flags, ns, mflags, autos, aflags, times_by_bl={k[:2]: ts for k, _ in bl}, df=df, data_is_redsol=o["redsol"], antpos=pos)
    for k, b in bl:
        want = np.array([[0. if not b["use"][t][f] or not b["noise"][t][f] else b["use"][t][f] * np.mean([1 / p for p in b["noise"][t][f]]) for f in range(nf)] for t in range(nt)]) * dt * df
        if k not in w or not np.allclose(w[k], want, rtol=1e-4, atol=1e-9):
            return "weights", f"weights of {k} ({'unique' if o['redsol'] else 'full'} data) {w[k] / dt / df}, specification says {want / dt / df}"
    if set(w.keys()) != {k for k, _ in bl}:
        return "weights", "weights for other baselines than the data's"
    if any(not np.array_equal(x[k], y[k]) for x, y in zip((flags, mflags, ns, autos, aflags), keep) for k in y):
        return "weights-mutates", "build_data_wgts changed its input"


HEX = {0: (.5, 0), 1: (1.5, 0), 2: (0, 1), 3: (1, 1), 4: (2, 1), 5: (.5, 2), 6: (1.5, 2)}
POS = {a: np.array([SP * x, SP * .75 ** .5 * y, 0.]) for a, (x, y) in HEX.items()}
C = 299792458.
LAT = HERA.lat.rad
NF = 16
F = FREQ(np.arange(NF) * 8)


def unique(i, j):
    """Group of a baseline and whether it points the other way."""
    v = np.round((POS[j] - POS[i])[:2] / SP * 4).astype(int)
    return (tuple(v), False) if tuple(v) > (0, 0) or not v.any() else (tuple(-v), True)


def fringe(i, j, dlst):
    """Phase of a source that was at zenith dlst ago."""
    lat = LAT
    e, n, u = -np.cos(lat) * np.sin(dlst), np.sin(lat) * np.cos(lat) - np.cos(lat) * np.cos(dlst) * np.sin(lat), np.sin(lat) ** 2 + np.cos(lat) ** 2 * np.cos(dlst)
    b = POS[j] - POS[i]
    return np.exp(2j * np.pi * F / C * (b @ np.array([e, n, u - 1])))


def run(o, rng, d):
    r2 = np.random.default_rng(rng.getrandbits(32))
    pols = ["ee", "nn"] if o["two"] else ["ee"]
    D, M = o["data"], [t for f in o["files"] for t in f]
    nt, P = len(D), [(i, j) for i in range(7) for j in range(7) if i < j]
    tD, tM = [NIGHT[0] + t * TICK for t in D], {t: NIGHT[3] + t * TICK for t in M}
    groups = sorted({unique(*p)[0] for p in P})
    V = {(g, p, t): r2.uniform(1, 3) * np.exp(1j * r2.uniform(-3, 3)) * np.exp(1j * r2.uniform(-.5, .5) * np.linspace(0, 1, NF)) for g in groups for p in pols for t in M}
    sky = lambda i, j, p, t: np.full(NF, 100. + 0j) if i == j else (np.conj if unique(i, j)[1] else np.array)(V[unique(i, j)[0], p, t])
    # redundant calibration's gains and what it leaves to be found
    rc = {(a, p): r2.uniform(.7, 1.3, (nt, NF)) * np.exp(1j * r2.uniform(-3, 3, (nt, NF))) for a in range(7) for p in pols}
    amp, px, py = ({p: r2.uniform(lo, hi, (nt, 1)) for p in pols} for lo, hi in ((.8, 1.3), (-.015, .015), (-.015, .015)))
    lever = 1 + .05 * np.linspace(-1, 1, NF)
    delta = {(a, p): amp[p] * np.exp(1j * (POS[a][0] * px[p] + POS[a][1] * py[p]) * lever) for a in range(7) for p in pols}
    times = o["times"]                                            # model integrations in reach
    partner = [times[p[0] - 1] if p else M[0] for p in o["pair"]]
    dlst = LST(np.array(tD)) - LST(np.array([tM[t] for t in partner]))
    mine = lambda i, j, p: np.array([sky(i, j, p, partner[k]) * (1 if i == j else fringe(i, j, dlst[k])) for k in range(nt)])
    flip = lambda ps: [p if rng.random() < .6 else p[::-1] for p in ps]
    thin = lambda: [rng.choice([p for p in P if unique(*p)[0] == g]) for g in groups]
    auto = [(a, a) for a in range(7)]
    g = {k: rc[k] * delta[k] for k in rc}
    none = np.zeros((nt, NF), bool)

    def wf(kind, k):
        i, j, p = k
        gi, gj = (delta if o["form"] == "redsol" and i != j else g)[i, p], (delta if o["form"] == "redsol" and i != j else g)[j, p]
        return {"data": lambda: gi * np.conj(gj) * mine(i, j, p), "flags": lambda: none, "nsamples": lambda: np.ones((nt, NF))}[kind]()
    fn = lambda n: os.path.join(d, n)
    kw = {}
    dpairs = flip(thin() if o["form"] == "redsol" else P)
    if o["form"] == "redsol":
        make_uvd(auto, pols, tD, F, wf, POS).write_uvh5(fn("auto.uvh5"), clobber=True, fix_autos=True)
        kw["raw_auto_file"] = fn("auto.uvh5")
    else:
        dpairs += auto
    make_uvd(dpairs, pols, tD, F, wf, POS, time_fast=rng.random() < .5).write_uvh5(fn("d.uvh5"), clobber=True, fix_autos=True)
    # model files, named in no particular order, with antennas numbered from 20 if unique baselines
    off = 0 if o["form"] == "full" else 20
    mpairs = flip(P if o["form"] == "full" else thin())
    names = rng.sample(range(10), len(o["files"]))
    mfn = []
    for n, ts in zip(names, o["files"]):
        def wm(kind, k):
            i, j, p = k[0] - off, k[1] - off, k[2]
            if kind == "data":
                return np.array([sky(i, j, p, t) for t in ts])
            if kind == "flags":
                return np.array([[f in o["mbadf"] or (t in times and times.index(t) + 1 in o["mbadt"]) for f in range(NF)] for t in ts])
            return np.ones((len(ts), NF))
        uvd = make_uvd([(i + off, j + off) for i, j in mpairs], pols, [tM[t] for t in ts], F, wm, {a + off: POS[a] for a in POS}, time_fast=rng.random() < .5, vis_units="Jy")
        uvd.integration_time[:] = o["spacing"] * TICK * 86400
        mfn.append(fn(f"m{n}.uvh5"))
        uvd.write_uvh5(mfn[-1], clobber=True, fix_autos=True)
    jp = {"ee": "Jee", "nn": "Jnn"}
    rf = {(a, p): np.array([[f in o["rf"][str(a)][k] for f in range(NF)] for k in range(nt)]) for a in range(7) for p in pols}
    uvc = make_uvc(list(range(7)), [jp[p] for p in pols], tD, F, {(a, jp[p]): rc[a, p] for a, p in rc}, {(a, jp[p]): rf[a, p] for a, p in rf},
                   quals={(a, jp[p]): np.zeros((nt, NF)) for a, p in rc}, total_qual={jp[p]: np.zeros((nt, NF)) for p in pols}, antpos=POS)
    uvc.write_calfits(fn("c.calfits"), clobber=True)
    ref = None if o["ref"] < 0 else {jp[p]: (o["ref"], jp[p]) for p in pols}
    none_left = rng.choice([{}] * 9 + [{"data_solar_horizon": -90}, {"model_solar_horizon": -90}, {"min_bl_cut": 1e4}])
    kw.update(none_left)
    r = run_isolated(abscal.post_redcal_abscal_run, fn("d.uvh5"), fn("c.calfits"), mfn, output_file=fn("o.calfits"), data_is_redsol=o["form"] == "redsol",
                     model_is_redundant=o["form"] != "full", nInt_to_load=o["nint"] or None, extrap_limit=o["limit"] / 10, refant=ref, verbose=False,
                     write_delta_gains=True, output_file_delta=fn("delta.calfits"), **kw)
    who = f"data at {D}, model at {o['files']} ({o['form']}, files {o['match']} overlap, partners {o['pair']}, {o['nint'] or 'all'} at a time)"
    if r[0] == "err":
        return "run-raised", f"{who}: {r[1:]}"
    gains, flags, _, tq = io.HERACal(fn("o.calfits")).read()
    if none_left:
        return None if all(f.all() for f in flags.values()) else ("run-flags", f"{who}: not everything is flagged with {none_left}")
    dg, dflags, _, _ = io.HERACal(fn("delta.calfits")).read()
    for p in pols:
        want = {a: np.array([[f in o["flag"][str(a)][k] for f in range(NF)] for k in range(nt)]) for a in range(7)}
        cand = [o["ref"]] if ref else [a for a in range(7) if np.allclose(np.angle(gains[a, jp[p]])[~flags[a, jp[p]]], 0, atol=1e-6)]
        ok = None
        for c in cand:
            ok = None
            for a in range(7):
                w = want[a] | want[c]
                if not np.array_equal(flags[a, jp[p]], w):
                    ok = "run-flags", f"{who}: antenna {a}: flags {np.argwhere(flags[a, jp[p]] & ~w).tolist()[:5]} extra, {np.argwhere(~flags[a, jp[p]] & w).tolist()[:5]} missing"
                    break
                e = g[a, p] * np.exp(-1j * np.angle(g[c, p]))
                err = np.where(w, 0, np.abs(gains[a, jp[p]] - e))
                if not np.all(err < 1e-5):
                    ok = "run-gains", f"{who}: gain of antenna {a} is off by {np.nanmax(err):.3g} at {np.argwhere(~(err < 1e-5)).tolist()[:4]}"
                    break
                derr = np.where(w, 0, np.abs(dg[a, jp[p]] * rc[a, p] - e))
                if not np.all(derr < 1e-5) or not np.array_equal(dflags[a, jp[p]], w):
                    ok = "run-delta", f"{who}: delta gains of antenna {a} do not take redundant to absolute calibration (off by {np.nanmax(derr):.3g})"
                    break
            if ok is None:
                if np.any(np.abs(np.where(np.all(list(want.values()), axis=0), 0, tq[jp[p]])) > 1e-5):
                    ok = "run-chisq", f"{who}: chi-squared {tq[jp[p]].max()} though data and model agree"
                break
        if ok is not None or not cand:
            return ok or ("run-refant", f"{who}: no antenna is the phase reference")


def alltimes(chk, rng):
    """All times and sidereal times of several files, in any order of names."""
    def one(item, rng, idx, d):
        n, nper = rng.randint(1, 4), rng.randint(1, 3)
        start = rng.randrange(-400, 400)
        jds = [[NIGHT[0] + (start + 20 * (i * nper + k)) * TICK for k in range(nper)] for i in range(n)]
        names = rng.sample(range(10), n)
        for nm, js in zip(names, jds):
            make_uvd([(0, 1)], ["ee"], js, F[:1], lambda kind, k: np.zeros((nper, 1), bool if kind == "flags" else float), {0: POS[0], 1: POS[1]}).write_uvh5(os.path.join(d, f"t{nm}.uvh5"), clobber=True)
        fs = [os.path.join(d, f"t{nm}.uvh5") for nm in names]
        rng.shuffle(fs)
        hd = io.HERAData(fs if n > 1 else fs[0])
        before = copy.deepcopy(hd.lsts)
        flat = sorted(j for js in jds for j in js)
        for unwrap in (True, False, True):
            t, l = abscal.get_all_times_and_lsts(hd, unwrap=unwrap)
            if sorted(t) != flat or len(t) != len(l):
                return "alltimes", f"times {t} of files with {flat}"
            if np.any(np.abs((l - LST(np.array(t)) + np.pi) % TAU - np.pi) > 1e-9):
                return "alltimes", f"files named {names} in time order, given as {[os.path.basename(f) for f in fs]}: times {t} go with sidereal times {l}, which they do not have"
            if unwrap and np.any(l < l[0]):
                return "alltimes-wrap", f"sidereal times {l} wrap"
            if not unwrap and np.any((l < 0) | (l >= TAU)):
                return "alltimes-wrap", f"sidereal times {l} outside a day although unwrap=False"
        alt = rng.uniform(-60, 20)
        from astropy.coordinates import get_sun, AltAz
        from astropy.time import Time
        tt, ll = abscal.get_all_times_and_lsts(hd, solar_horizon=alt)
        tm = Time(t, format="jd")
        a = get_sun(tm).transform_to(AltAz(obstime=tm, location=HERA)).alt.deg
        if np.min(np.abs(a - alt)) > .05 and (list(tt) != list(t[a <= alt]) or list(ll) != list(l[a <= alt])):
            return "alltimes-sun", f"Sun at {a}: with a horizon of {alt} {len(tt)} of {len(t)} times are left"
        if not (np.array_equal(before, hd.lsts) if n == 1 else all(np.array_equal(before[f], hd.lsts[f]) for f in before)):
            return "alltimes-mutates", "get_all_times_and_lsts changed the sidereal times of the file object"
    return one


def do(rec, rng, idx, d):
    if rec["what"] == "alltimes":
        fn = lambda: alltimes(None, rng)(rec, rng, idx, d)
    else:
        fn = lambda: {"times": times, "files": files, "bls": bls, "wgts": wgts, "run": run}[rec["what"]](rec["out"], rng, d)
    r = run_isolated(fn)
    return (rec["what"] + "-raised", f"{rec['what']}: raised {r[1:]}") if r[0] == "err" else r[1]


def check(chk):
    recs, _ = chk.tlc("AbscalMatch", CFG, mode="sim", num=chk.n(1500, 12000), depth=4)
    assert len(recs) > chk.n(600, 5000), len(recs)
    cap = {"run": chk.n(80, 1500)}
    use, seen = [], {}
    for r in recs:
        seen[r["what"]] = seen.get(r["what"], 0) + 1
        if seen[r["what"]] <= cap.get(r["what"], 10 ** 9):
            use.append(r)
    use += [{"what": "alltimes", "out": i} for i in range(chk.n(40, 300))]
    use.sort(key=lambda r: r["what"] != "run")                    # long ones first
    for r, res in zip(use, chk.pmap(do, use)):
        chk.ran()
        chk.traces += 1
        if res:
            chk.fail(res[0], res[1], r)
    chk.extra["kinds"] = {w: sum(r["what"] == w for r in use) for w in ("times", "files", "bls", "wgts", "run", "alltimes")}
    chk.extra["runs with unpaired integrations"] = sum(r["what"] == "run" and any(not p for p in r["out"]["pair"]) and any(r["out"]["pair"]) for r in use)
    chk.extra["runs with paired integrations"] = sum(r["what"] == "run" and any(r["out"]["pair"]) for r in use)
    # no model at all
    r = run_isolated(abscal.get_d2m_time_map, np.array([1., 2.]), np.array([.1, .2]), np.array([]), np.array([]))
    if r != ("ok", {1.: None, 2.: None}):
        chk.fail("pairing-empty", f"get_d2m_time_map without model integrations gives {r[1:]}")
    for w in ("times", "files", "bls", "run"):
        chk.sample(next(r for r in use if r["what"] == w))
    bad = []
    for w in ("times", "files", "bls", "wgts", "run"):
        pool = [r for r in use if r["what"] == w and (w != "bls" or r["out"]["map"]) and (w != "wgts" or any(b["use"][t][f] and b["noise"][t][f] for b in r["out"]["bls"] for t in range(r["out"]["nt"]) for f in range(r["out"]["nf"])))]
        for r in pool[:5]:
            r = copy.deepcopy(r)
            o = r["out"]
            if w == "times":
                o["pair"][0] = [] if o["pair"][0] else [1]
            elif w == "files":
                o["match"] = o["match"][1:] if o["match"] else [1]
            elif w == "bls":
                a, (i, j, p) = o["map"][0]
                o["map"][0] = [a, [j + 1, i, p]]
            elif w == "wgts":
                for b in o["bls"]:
                    b["use"] = [[x * 2 for x in y] for y in b["use"]]
            else:
                o["flag"] = {k: [[f for f in range(NF) if f not in q] for q in v] for k, v in o["flag"].items()} if isinstance(o["flag"], dict) else [[[f for f in range(NF) if f not in q] for q in v] for v in o["flag"]]
            bad.append(r)
    k = sum(x is not None for x in chk.pmap(do, bad, tag="b"))
    assert k >= len(bad) - 3 or chk.viol, (k, len(bad))        # runs with everything flagged do not look at the expectation
    chk.binding.append(f"perturbing expectations makes {k} of {len(bad)} replays fail")


if __name__ == "__main__":
    main("C24", check, assumptions=["decisions more than a tick (0.5 s) away from ties and edges", "noise-free data on a seven-element hexagon for the driver"])
