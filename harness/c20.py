"""C20: gathering a day's calibration files onto one grid, blacklists, reference antennas, what may influence a smoothed gain, writing."""
import copy
import os
import warnings
import numpy as np
warnings.simplefilter("ignore")
from vlib import main, run_isolated
import synth
from synth import FREQ, DT
from pyuvdata import UVFlag, UVCal
from pyuvdata import utils as uvutils
from hera_cal import smooth_cal, io

NF = 5
CFG = ("INIT Init\nNEXT Next\nINVARIANT NoMixing\nINVARIANT NothingUnflagged\nINVARIANT FiniteUnlessFlagged\nINVARIANT UsesAreData\nINVARIANT SomeCandidate\n"
       f'CONSTANTS\n NF = {NF}\n MaxFiles = 3\n Nums = {{0, 1, 2}}\n Pols = {{"Jee", "Jnn"}}\n Refs = {{"none", "one", "pol"}}\n')
POS = synth.antpos_line(range(3))
LLA = (synth.HERA.lat.deg, synth.HERA.lon.deg, synth.HERA.height.value)
FR = FREQ(np.arange(NF))
T = tuple
key = lambda a: (a[0], a[1])


def lst(jd):
    return uvutils.get_lst_for_time(np.atleast_1d(jd), telescope_loc=synth.HERA)


def start(wrap, rng):
    """a first integration time such that sidereal time wraps a quarter of a tenth after tenth 'wrap'"""
    jd = 2458100.3 + rng.uniform(0, 300)
    for _ in range(4):
        off = (lst(jd)[0] + np.pi) % (2 * np.pi) - np.pi
        jd -= off / (2 * np.pi) * 0.99726956633
    return jd - (wrap + .25) * DT / 10


def gain(seed, a, f, n):
    rg = np.random.default_rng([seed, a[0], ["Jee", "Jnn"].index(a[1]), f])
    return rg.uniform(.5, 2, (n, NF)) * np.exp(1j * rg.uniform(-np.pi, np.pi, (n, NF)))


def mask(pix, shape):
    m = np.zeros(shape, bool)
    for t, c in pix:
        m[t - 1, c - 1] = True
    return m


def do(rec, rng, idx, d):
    i, g, o = rec["in"], rec["grid"], rec["out"]
    seed = rng.randrange(2**31)
    T0 = start(i["wrap"], rng)
    jd = lambda t: T0 + np.asarray(t) * DT / 10
    names, vals = [], {}
    for f, F in enumerate(i["files"]):
        ants = sorted({x["a"][0] for x in F["fl"]})
        pols = sorted({x["a"][1] for x in F["fl"]})
        n = len(F["t"])
        gains, flags = {}, {}
        non = {key(x["a"]): mask(x["f"], (n, NF)) for x in F["nf"]}
        for x in F["fl"]:
            a = key(x["a"])
            flags[a] = mask(x["f"], (n, NF))
            gains[a] = gain(seed, a, f, n)
            gains[a][non[a]] = rng.choice([np.nan, np.inf, complex(np.nan, 1)])
            vals[a, f] = gains[a]
        order = list(ants)
        rng.shuffle(order)
        fr = FR + (1e5 * (i["badf"] == f + 1))
        uvc = synth.make_uvc(order, pols, jd(F["t"]), fr, gains, flags, {a: np.full((n, NF), 1.) for a in gains}, {p: np.full((n, NF), 1.) for p in pols}, antpos=POS)
        fn = os.path.join(d, f"zen.{f}.in.calfits")
        uvc.write_calfits(fn, clobber=True, run_check=False)
        names.append(fn)
    ffs = []
    for e, E in enumerate(i["ext"]):
        fn = os.path.join(d, f"flags.{e}.h5")
        n = len(E["t"])
        tt = jd(np.array(E["t"]) + rng.choice([0, 0, .8, -.8, 1.5]))
        fl = {T(x["a"]): mask(x["f"], (n, NF)) for x in E["fl"]}
        if i["mode"] == "bl":
            prs = sorted({k[:2] for k in fl})
            pp = sorted({k[2][1:] for k in fl})
            uvd = synth.make_uvd(prs, pp, tt, FR, lambda kind, k: fl[k[0], k[1], "J" + k[2]], POS, time_fast=rng.random() < .5)
            uvf = UVFlag(uvd, mode="flag")
            uvf.flag_array = uvd.flag_array.copy()
        else:
            pp = sorted({k[-1] for k in fl})
            nums = sorted({k[0] for k in fl}) if i["mode"] == "ant" else [0, 1]
            z = {(a, p): (fl[a, p] if i["mode"] == "ant" else np.zeros((n, NF), bool)) for a in nums for p in pp}
            uvc = synth.make_uvc(nums, pp, tt, FR, {k: np.ones((n, NF)) for k in z}, z, antpos=POS)
            uvf = UVFlag(uvc, mode="flag", waterfall=i["mode"] == "pol")
            if i["mode"] == "pol":
                uvf.flag_array = np.stack([fl[p,] for p in pp], -1)
            else:
                uvf.flag_array = uvc.flag_array.copy()
        uvf.write(fn, clobber=True)
        ffs.append(fn)
    order = list(range(len(names)))
    if i["badf"] == 0:
        rng.shuffle(order)
    rng.shuffle(ffs)
    # bounds: exactly on an integration where the model says so
    tt = {f: UVCal.from_file(fn).time_array for f, fn in enumerate(names) if i["tb"]}
    exact = {t: float(tt[f][r]) for f, F in enumerate(i["files"]) for r, t in enumerate(F["t"]) if i["tb"]}
    bt = lambda t: exact.get(t, float(jd(t)))
    tb = [(bt(a), bt(b)) for a, b in i["tb"]]
    lb = [T(float(x) for x in lst(jd(np.array(b) + .5)) * 12 / np.pi) for b in i["lb"] if b[0] != b[1]]
    if any(b[0] == b[1] for b in i["lb"]):
        return None
    fx = lambda h: float(FR[h // 2 - 1]) if h % 2 == 0 and 2 <= h <= 2 * NF else float(FREQ(h / 2 - 1))
    fb = [(fx(a), fx(b)) for a, b in i["fb"]]
    cb = [(a - 1, b - 1) for a, b in i["cb"]]
    thr = [a / b for a, b in i["thr"]]
    kw = dict(flag_file_list=ffs, antflag_thresh=i["fthr"][0] / i["fthr"][1], time_blacklists=tb, lst_blacklists=lb, freq_blacklists=fb, chan_blacklists=cb,
              freq_threshold=thr[0], time_threshold=thr[1], ant_threshold=thr[2], ignore_calflags=i["ign"])
    if rng.random() < .3:
        kw["lat_lon_alt_degrees"] = list(LLA)
    mk = lambda **k: run_isolated(smooth_cal.CalibrationSmoother, [names[x] for x in order], **kw, **k)
    r = mk()
    if g["err"]:
        return None if r[0] == "err" else ("accepted", "a day that must be refused (double integration, other frequencies, flag files for other times, or unflagged non-finite gains) was accepted")
    if r[0] == "err":
        return "raised", f"CalibrationSmoother raised {r[1:]}"
    cs = r[1]
    nt = g["nt"]
    if len(cs.time_grid) != nt:
        return "grid-size", f"{len(cs.time_grid)} grid times, specification says {nt}"
    fl = {key(x["a"]): mask(x["f"], (nt, NF)) for x in g["fl"]}
    non = {key(x["a"]): mask(x["f"], (nt, NF)) for x in g["non"]}
    src = {key(x["a"]): x["f"] for x in g["src"]}
    has = {a: np.array([bool(s) for s in src[a]]) for a in src}
    if set(cs.gain_grids) != set(fl) or set(cs.flag_grids) != set(fl):
        return "grid-ants", f"grids for {sorted(cs.gain_grids)}, expected {sorted(fl)}"
    want = {}
    for a in fl:
        w = np.ones((nt, NF), complex)
        for t, s in enumerate(src[a]):
            if s:
                w[t] = vals[a, s[0] - 1][s[1] - 1]
        w[non[a]] = 1
        want[a] = w

    def compare(grids, flags, exp, efl, tag):
        for a in exp:
            if not np.array_equal(flags[a], efl[a]):
                return tag + "-flags", f"flags of {a} on the grid {np.asarray(flags[a]).astype(int).tolist()}, specification says {efl[a].astype(int).tolist()}"
            if not np.all(np.isfinite(grids[a])):
                return tag + "-finite", f"non-finite gains left on the grid of {a}"
            if not np.allclose(grids[a][has[a]], exp[a][has[a]], rtol=1e-5, atol=1e-6):
                return tag + "-gains", f"gains of {a} on the grid differ from the files': rows {np.unique(np.where(~np.isclose(grids[a], exp[a], rtol=1e-5, atol=1e-6))[0] + 1).tolist()}"
    res = compare(cs.gain_grids, cs.flag_grids, want, fl, "load")
    if res:
        return res
    cells = np.array([t in g["cells"] for t in range(1, nt + 1)])
    wbt = np.array([t in g["bt"] for t in range(1, nt + 1)])
    if not np.array_equal(np.asarray(cs.time_blacklist)[cells], wbt[cells]):
        return "blacklist-time", (f"blacklisted integrations {np.where(np.asarray(cs.time_blacklist) & cells)[0] + 1}, specification says {np.where(wbt)[0] + 1} "
                                  f"(time bounds {i['tb']}, sidereal bounds {i['lb']}, integrations {[F['t'] for F in i['files']]} tenths)")
    wbf = np.array([c in g["bf"] for c in range(1, NF + 1)])
    if not np.array_equal(cs.freq_blacklist, wbf):
        return "blacklist-freq", f"blacklisted channels {np.where(cs.freq_blacklist)[0] + 1}, specification says {np.where(wbf)[0] + 1} (half channels {i['fb']}, channels {i['cb']})"
    # what may influence a smoothed gain
    uses = {key(x["a"]): mask(x["f"], (nt, NF)) for x in o["uses"]}
    wb = {key(x["a"]): mask([p for p in x["f"] if p[0] <= nt], (nt, NF)) for x in i["wb"] if key(x["a"]) in fl}
    cs.set_waterfall_blacklist({a: m for a, m in wb.items() if m.any() or rng.random() < .5})
    how = "dpss" if idx % 16 == 0 else rng.choice(["gauss", "gauss", "gauss", "skip"])
    if how != "skip":
        res = influence(cs, uses, has, fl, how, rng)
        if res:
            return res
    # reference antenna
    exp, efl = want, fl
    if i["ref"] != "none":
        k = dict(pick_refant=True, per_pol_refant=i["ref"] == "pol", propagate_refant_flags=i["prop"])
        if rng.random() < .3:
            k.update(acceptable_candidate_frac=rng.choice([.3, .9, 1.]), antpos=POS)
        r = mk(**k)
        if r[0] == "err":
            if all(c["ok"] for ch in o["choices"] for c in ch["c"]):
                return "refant-raised", f"picking a reference antenna raised {r[1:]}"
            if r[1] != "ValueError":
                return "refant-raised", f"picking a reference antenna raised {r[1:]}"
            return None
        cs = r[1]
        exp, efl = {}, {}
        for ch in o["choices"]:
            ref = cs.refant[ch["pol"]] if ch["pol"] else cs.refant
            c = [c for c in ch["c"] if key(c["ref"]) == T(ref)]
            if not c:
                return "refant", f"reference antenna {ref} does not have the fewest flags: candidates {[c['ref'] for c in ch['c']]}"
            if not c[0]["ok"]:
                return "refant-accepted", f"reference antenna {ref} is flagged where another is not, and that was accepted"
            for x in c[0]["fl"]:
                a = key(x["a"])
                efl[a] = mask(x["fl"], (nt, NF))
                exp[a] = want[a] * np.exp(-1j * np.angle(want[T(ref)]))
            if np.abs(np.angle(cs.gain_grids[T(ref)])).max() > 1e-5:
                return "refant-phase", f"the reference antenna {ref} keeps a phase"
        res = compare(cs.gain_grids, cs.flag_grids, exp, efl, "ref")
        if res:
            return res
    # back into the files
    kept = {fn: open(fn, "rb").read() for fn in names}
    r = run_isolated(cs.write_smoothed_cal, output_replace=(".in.", ".out."), clobber=rng.random() < .5)
    if r[0] == "err":
        refless = i["ref"] != "none" and any(not any(T(ref) == key(x["a"]) for x in F["fl"]) for F in i["files"] for ref in (cs.refant.values() if isinstance(cs.refant, dict) else [cs.refant]))
        if refless:
            return None
        return "write-raised", f"write_smoothed_cal raised {r[1:]}"
    if any(open(fn, "rb").read() != kept[fn] for fn in names):
        return "write-input", "an input file changed"
    for f, F in enumerate(i["files"]):
        og, of, _, _ = io.HERACal(names[f].replace(".in.", ".out.")).read()
        if set(og) != {key(x["a"]) for x in F["fl"]}:
            return "write-ants", f"antennas {sorted(og)} written for file {f}"
        for a in og:
            rows = [t for t, s in enumerate(src[a]) if s and s[0] == f + 1]
            if not np.array_equal(of[a], efl[a][rows]):
                return "write-flags", f"flags written for {a} in file {f} are not those of its integrations"
            if not np.allclose(og[a], exp[a][rows], rtol=1e-5, atol=1e-6):
                return "write-gains", f"gains written for {a} in file {f} are not those of its integrations"
    return "ok"


def smooth(cs, how):
    c = copy.copy(cs)
    c.gain_grids = {a: v.copy() for a, v in cs.gain_grids.items()}
    c.flag_grids = {a: v.copy() for a, v in cs.flag_grids.items()}
    if how == "gauss":
        c.time_filter(filter_scale=25.)
    else:
        c.time_freq_2D_filter(freq_scale=.4, time_scale=40., method="DPSS")
    return c


def influence(cs, uses, has, fl, how, rng):
    rg = np.random.default_rng(rng.randrange(2**31))
    live = [a for a in fl if not fl[a].all()]
    if any(not uses[a].any() for a in live) or not live:
        return None
    if how == "dpss" and any(np.ptp(x) < 3 for a in live for x in np.where(uses[a])):
        return None                                             # the window functions need a few samples
    r = run_isolated(smooth, cs, how)
    if r[0] == "err":
        return how + "-raised", f"smoothing ({how}) raised {r[1:]}"
    base = r[1].gain_grids
    # pixels that are flagged or blacklisted do not matter
    c = copy.copy(cs)
    c.gain_grids = {a: np.where(uses[a], v, rg.normal(size=v.shape) + 1j * rg.normal(size=v.shape)) for a, v in cs.gain_grids.items()}
    got = smooth(c, how).gain_grids
    for a in live:
        m = uses[a] if how == "dpss" else np.ones_like(uses[a])
        if not np.allclose(got[a][m], base[a][m], rtol=1e-5, atol=1e-7):
            return how + "-influence", f"flagged or blacklisted gains of {a} change its smoothed gains"
    # every other pixel does, on its own antenna only
    a = rng.choice(live)
    t, f = list(zip(*np.where(uses[a])))[rng.randrange(int(uses[a].sum()))]
    c.gain_grids = {x: v.copy() for x, v in cs.gain_grids.items()}
    c.gain_grids[a][t, f] *= 1.5 * np.exp(.3j)
    got = smooth(c, how).gain_grids
    for x in live:
        same = np.allclose(got[x], base[x], rtol=1e-7, atol=1e-9)
        if same != (x != a):
            return how + "-mixing", f"a gain of {a} {'changes the smoothed gains of ' + str(x) if x != a else 'that is neither flagged nor blacklisted does not matter'}"
    if how == "gauss":
        o = np.delete(np.arange(NF), f)
        if not np.allclose(got[a][:, o], base[a][:, o], rtol=1e-7, atol=1e-9):
            return how + "-channels", "time smoothing mixes channels"
    # alone or together makes no difference
    c.gain_grids, c.flag_grids = {a: cs.gain_grids[a].copy()}, {a: cs.flag_grids[a].copy()}
    got = smooth(c, how)
    if not np.allclose(got.gain_grids[a], base[a], rtol=1e-6, atol=1e-8) or not np.array_equal(got.flag_grids[a], r[1].flag_grids[a]):
        return how + "-alone", f"smoothing {a} alone gives other gains than smoothing it with {[x for x in live if x != a]}"
    return None


def bands(rec, rng, idx, d):
    """frequency cuts: every band is smoothed as if it were alone; a band without weight is left as it is"""
    rg = np.random.default_rng(rec)
    nt, nb = 10, 3
    cut = [0] + sorted(rg.choice([8, 9, 16, 17], 2, replace=False).tolist()) + [26]
    if cut[2] - cut[1] < 5:
        cut[1], cut[2] = 8, 16
    fr, tt = FREQ(np.arange(26)), 2458100.3 + np.arange(nt) * DT
    g = 1 + .3 * (rg.normal(size=(nt, 26)) + 1j * rg.normal(size=(nt, 26)))
    w = (rg.random((nt, 26)) > .1).astype(float)
    dead = rg.integers(0, 4)
    if dead < 3:
        w[:, cut[dead]:cut[dead + 1]] = 0
    if rg.random() < .5:
        w[:2] = 0
    kw = dict(method="DPSS", freq_scale=.4, time_scale=40.)
    cuts = [float(fr[c]) - 6e4 for c in cut[1:3]]
    rg.shuffle(cuts)
    r = run_isolated(smooth_cal.time_freq_2D_filter, g.copy(), w.copy(), fr, tt, freq_cuts=cuts, **kw)
    if r[0] == "err":
        return "bands-raised", f"smoothing with frequency cuts {cut[1:3]} and band {dead} flagged raised {r[1:]}"
    got = r[1][0]
    for b in range(3):
        sl = slice(cut[b], cut[b + 1])
        want = g[:, sl] if b == dead else smooth_cal.time_freq_2D_filter(g[:, sl].copy(), w[:, sl].copy(), fr[sl], tt, **kw)[0]
        if not np.allclose(got[:, sl], want, rtol=1e-6, atol=1e-8):
            return "bands", f"band {b} of {cut} is not smoothed on its own (flagged band {dead})"
    return None


def check(chk):
    for res in chk.pmap(bands, range(chk.seed * 1000, chk.seed * 1000 + chk.n(14, 80)), tag="bands"):
        chk.ran()
        if res:
            chk.fail(*res)
    recs, _ = chk.tlc("SmoothGrid", CFG, mode="sim", num=chk.n(600, 9000), depth=8)
    n = len(recs)
    assert n > chk.n(450, 7000), n
    cnt = {"refused": 0, "whole": 0}
    for r, res in zip(recs, chk.pmap(do, recs)):
        chk.ran()
        chk.traces += 1
        cnt["refused"] += r["grid"]["err"]
        if isinstance(res, (list, tuple)):
            chk.fail(res[0], res[1], r)
        elif res == "ok":
            cnt["whole"] += 1
    chk.extra["days"] = cnt
    assert cnt["whole"] > n // 5 or chk.viol, cnt
    chk.sample(recs[0])
    chk.sample(recs[-1])
    # a wrong expectation must be noticed
    good = [r for r in recs if not r["grid"]["err"] and r["grid"]["bt"]][:10]
    bad = copy.deepcopy(good)
    for b in bad:
        b["grid"]["bt"].pop()
    n = sum(isinstance(x, (list, tuple)) for x in chk.pmap(do, bad, tag="b"))
    assert n == len(bad) or chk.viol, (n, len(bad))
    chk.binding.append(f"dropping one blacklisted integration from the specification makes {n} of {len(bad)} replays fail")


if __name__ == "__main__":
    main("C20", check, assumptions=["days of 1-3 files, most neighbouring integrations one integration time apart"])
