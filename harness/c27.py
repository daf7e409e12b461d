"""C27: calibration against a sky model, antennas left out of it, starting amplitudes, losses per SNAP."""
import copy
import warnings
import numpy as np
warnings.simplefilter("ignore")
from vlib import main, run_isolated
from hera_cal import skycal
from hera_cal.datacontainer import DataContainer

CFG = "INIT Init\nNEXT Next\nINVARIANT Sound\nCONSTANTS NA = %d\n NT = 2\n NF = %d\n Mode = \"%s\"\n"
UNIT = 2 * np.pi / 720
LAB = [0, 1, 2, 3, 5, 7, 11, 12, 40, 104]
J = lambda f: "J" + 2 * f
A = np.array


def labels(rng, n):
    return dict(zip(range(1, n + 1), map(int, rng.choice(LAB, n, replace=False))))


def frozen(d):
    return {k: np.array(v, copy=True) for k, v in d.items()}


def same(a, b):
    return set(a) == set(b) and all(np.array_equal(a[k], b[k], equal_nan=A(a[k]).dtype.kind in "fc") for k in a)


def cal(r, rng0, idx, d):
    rng = np.random.default_rng(rng0.getrandbits(32))
    lab = labels(rng, len(r["snap"]))
    ants = {(lab[x["a"]], x["f"]): x for x in r["ants"]}
    feeds = sorted({x["f"] for x in r["ants"]})
    excl = {lab[a] for a in r["excl"]}
    sh = A(r["ants"][0]["amp"]).shape
    freqs = 120e6 + 122070.3125 * np.arange(sh[1])
    g = {k: 2.**A(x["amp"]) * np.exp(1j * UNIT * A(x["phs"])) for k, x in ants.items()}
    junk = lambda: rng.normal(size=sh) * 30 + 30j * rng.normal(size=sh)
    data, model, df, mf, af, ratio, wexp, auto = {}, {}, {}, {}, {}, {}, {}, {}
    dt, dnu = 10., 1.22e5
    for (a, f), x in ants.items():
        if a in excl and rng.random() < .5:
            continue
        auto[a, a, 2 * f] = np.repeat(4.**A(x["auto"])[:, None], sh[1], 1) * np.abs(g[a, f])**2 * (1 + 0j)
    if len(feeds) == 2 and rng.random() < .3:
        for a in lab.values():
            auto[a, a, "en"] = junk()
    snap = {lab[a + 1]: "S%d" % s for a, s in enumerate(r["snap"])}
    pols = [2 * f for f in feeds] + (["en", "ne"] if r["xpol"] and len(feeds) == 2 else [])
    for m in r["mod"]:
        for pol in pols:
            i, j = lab[m["p"][0]], lab[m["p"][1]]
            f1, f2 = pol
            mod = 2.**A(m["m"]) * np.exp(2j * np.pi * rng.random(sh))
            Z = g[i, f1] * np.conj(g[j, f2])
            dat, dfl, mfl = Z * mod, np.zeros(sh, bool), np.zeros(sh, bool)
            ok = np.ones(sh, bool)
            for f, a in ((f1, i), (f2, j)):
                for t in range(sh[0]):
                    for c in range(sh[1]):
                        dead = a in {lab[x] for x in r["dead"][f][t]}
                        k = r["kind"][f][t][c] if c + 1 in r["deadc"][f][t] else r["kinda"][f][t] if dead else None
                        if k is None:
                            continue
                        ok[t, c] = False
                        dat[t, c] = rng.choice([1e3, np.nan, 0]) if rng.random() < .3 else rng.normal() * 50
                        if k == "data":
                            dfl[t, c] = True
                        elif k == "model":
                            mfl[t, c] = True
                        elif k == "zero":
                            mod[t, c] = 0
                        elif k == "nan":
                            mod[t, c] = rng.choice([np.nan, complex(0, np.inf)])
            if r["use"] and f1 == f2 and snap[i] == snap[j] and rng.random() < .5:
                dat = dat * 2.**rng.integers(-2, 3) * np.exp(.3j * rng.normal(size=sh))       # within a SNAP: not used in the solution
            if len(pols) > 2 and f1 != f2 and rng.random() < .7:
                dat = junk()                                                       # cross-polarized data do not constrain a feed alone
            k = (i, j, pol)
            if rng.random() < .4:
                k, dat, mod, Z = (j, i, pol[::-1]), dat.conj(), mod.conj(), Z.conj()
            data[k], model[k], df[k], mf[k], ratio[k] = dat, mod, dfl, mfl, np.where(ok, Z, np.nan)
    for f in feeds:
        for a in lab.values():
            m = np.zeros(sh, bool)
            for t in range(sh[0]):
                if a in {lab[x] for x in r["dead"][f][t]} and r["kinda"][f][t] == "ants":
                    m[t] = True
                m[t, [c - 1 for c in r["deadc"][f][t] if r["kind"][f][t][c - 1] == "ants"]] = True
            if m.any() or rng.random() < .5:
                af[a, J(f)] = m
    used = set(data)
    # baselines of antennas that are left out: junk, and only excluded by the list of baselines
    bls = None
    for a in excl:
        for b in lab.values():
            if b != a and rng.random() < .8:
                k = (a, b, 2 * feeds[0])
                if k not in data and (b, a, 2 * feeds[0]) not in data:
                    data[k], model[k], df[k], mf[k] = junk(), junk(), np.zeros(sh, bool), np.zeros(sh, bool)
    if excl or rng.random() < .3:
        bls = [k if rng.random() < .5 else (k[1], k[0], k[2][::-1]) for k in used]
    smap = dict(snap)
    vi, vj = (lab[a] for a in r["victim"])
    if r["fault"] == "snap":
        del smap[vi]
    elif r["fault"] == "auto":
        auto.pop((vi, vi, 2 * feeds[0]))
    elif r["fault"] == "uneven":
        k = [k for k in data if set(k[:2]) == {vi, vj} and k[2] == 2 * feeds[0]][0]
        df[k][r["when"] - 1, r["chan"] - 1] = True
    elif r["fault"] == "lonely":
        for a in smap:
            if any(a in k[:2] and vi in k[:2] for k in data):
                smap[a] = smap[vi]
    sep = rng.random() < .5
    order = list(data)
    rng.shuffle(order)
    order = [(int(k[0]), int(k[1]), str(k[2])) for k in order]
    D = {k: data[k] for k in order}
    if not sep:
        D.update(auto)
    kw = dict(autos=DataContainer(auto) if sep else None, data_flags=DataContainer(df), model_flags=DataContainer(mf), ant_flags=af, bls=bls,
              ant_to_SNAP_dict=smap if r["use"] else None, dt=dt, df=dnu)
    if not sep and bls is None and r["fault"] == "none":
        for k in auto:                                               # not among the cross baselines
            kw["data_flags"][k] = np.zeros(sh, bool)
    DC, MC = DataContainer(D), DataContainer(model)
    DC.freqs = freqs
    before = [frozen(DC), frozen(MC), frozen(kw["data_flags"]), frozen(kw["model_flags"]), frozen(af)]
    res = run_isolated(skycal.sky_calibrate, DC, MC, **({} if rng.random() < .5 else {"freqs": freqs}), **kw)
    if r["refused"]:
        if res[0] == "ok":
            return "accepted-" + r["fault"], f"an input that must be refused ({r['fault']}) was accepted"
        if res[1] not in ("ValueError",) + (("RuntimeError",) if r["fault"] == "lonely" else ()):
            return "refused-" + r["fault"], f"an input with fault {r['fault']} raised {res[1:]}, not a ValueError"
        return None
    if res[0] == "err" and res[1] == "RuntimeError" and "diverged" in res[2] or "converge" in str(res[1:]):
        return "gave-up"                                             # documented: refuses rather than return a doubtful solution
    if res[0] == "err":
        return "raised", f"sky_calibrate raised {res[1:]}"
    if not all(same(x, dict(y)) for x, y in zip(before, [DC, MC, kw["data_flags"], kw["model_flags"], af])):
        return "mutates", "sky_calibrate changed its input"
    got, meta = res[1]
    want = {(a, J(f)) for (a, f) in ants if a not in excl}
    if set(got) != want:
        return "antennas", f"gains for {sorted(got)}, expected {sorted(want)}"
    for k, z in ratio.items():
        if k[2][0] != k[2][1]:
            continue
        q = meta["data_model_ratio"][k]
        if r["use"] and snap[k[0]] == snap[k[1]]:
            q, z = np.isfinite(q), np.isfinite(z)
        if not np.allclose(q, z, rtol=1e-8, equal_nan=True):
            return "ratio", f"ratio of data to model for {k} is {q}, specification says {z}"
        w = np.where(np.isfinite(ratio[k]), np.abs(np.nan_to_num(model[k]))**2 * dt * dnu / np.abs(auto[k[0], k[0], k[2]] * auto[k[1], k[1], k[2]]), 0)
        if not np.allclose(meta["wgts"][k], w, rtol=1e-8):
            return "weights", f"weights of {k}"
    for f in feeds:
        for t in range(sh[0]):
            live = [a for a in lab.values() if a not in excl]
            ok = {a: A(ants[a, f]["ok"])[t] for a in live}
            for a in live:
                x = got[a, J(f)][t]
                if not np.array_equal(np.isfinite(x), ok[a]):
                    return "where", f"gain of {(a, f)} at integration {t + 1} is a number in channels {np.where(np.isfinite(x))[0] + 1}, specification says {np.where(ok[a])[0] + 1}"
                if not np.allclose(np.abs(x[ok[a]]), np.abs(g[a, f][t][ok[a]]), rtol=1e-6):
                    return "amplitude", f"gain amplitudes of {(a, f)} at integration {t + 1} are {np.abs(x[ok[a]])}, specification says {np.abs(g[a, f][t][ok[a]])}"
                b = next(b for b in live if ok[b].any()) if ok[a].any() else a
                m = ok[a] & ok[b]
                if not np.allclose((x * np.conj(got[b, J(f)][t]))[m], (g[a, f] * np.conj(g[b, f]))[t][m], rtol=1e-5, atol=1e-5):
                    return "phase", f"phase of {(a, f)} relative to {b} at integration {t + 1}"
    # information about each amplitude
    inv = run_isolated(skycal.log_gain_inverse_variance, meta["wgts"], meta["g0"], meta["refined_gains"], snap)
    if inv[0] == "err":
        return "inverse-variance-raised", f"log_gain_inverse_variance raised {inv[1:]}"
    for (a, jp), v in inv[1].items():
        f = jp[1]
        w = np.zeros(sh)
        for k in meta["wgts"]:
            if k[2] == 2 * f and a in k[:2] and snap[k[0]] != snap[k[1]]:
                w += np.where(A(ants[k[0], f]["ok"]) & A(ants[k[1], f]["ok"]), 2 * meta["wgts"][k] * np.abs(g[k[0], f] * g[k[1], f])**2, 0)
        if len(pols) == 2 * len(feeds) and len(feeds) == 2:
            continue                                                 # cross-polarized baselines count as information too
        if not np.allclose(v, w, rtol=1e-5, atol=1e-9 * (1 + w.max())):
            return "inverse-variance", f"inverse variance of {(a, jp)}: {v}, specification says {w}"
    return "ok"


def exp(r, rng0, idx, d):
    rng = np.random.default_rng(rng0.getrandbits(32))
    lab = labels(rng, len(r["snap"]))
    key = lambda n: (lab[n[0]], J(n[1]))
    nodes = {key(n["n"]): n for n in r["nodes"]}
    sh = A(r["nodes"][0]["nog"]).shape
    data, model, df, mf, auto = {}, {}, {}, {}, {}
    bls = []
    for b in r["bls"]:
        (i, f1), (j, f2) = b["v"]
        k = (lab[i], lab[j], f1 + f2)
        z = A(b["z"]) @ [1, 1j]
        mod = A(b["m"]) * np.exp(2j * np.pi * rng.random(sh))
        dat, bad = z * mod, A(b["bad"])
        dat = np.where(bad == "nandata", rng.choice([np.nan, complex(0, np.inf)]), np.where(bad == "ok", dat, rng.normal(size=sh) * 1e3))
        mod = np.where(bad == "zero", 0, np.where(bad == "nanmodel", np.nan, mod))
        if rng.random() < .5:
            k, dat, mod = (k[1], k[0], k[2][::-1]), dat.conj(), mod.conj()
        data[k], model[k], df[k], mf[k] = dat, mod, bad == "data", bad == "model"
        if b["use"]:
            bls.append(k if rng.random() < .5 else (k[1], k[0], k[2][::-1]))
    for k, n in nodes.items():
        auto[k[0], k[0], k[1][1:]] = np.full(sh, n["au"], complex)
    gains = {}
    for k, n in nodes.items():
        if n["solved"]:
            gains[k] = np.where(A(n["nog"]), np.nan, A(n["g"]) @ [1, 1j])
    af = {k: A(n["af"]) for k, n in nodes.items()}
    smap = {lab[a + 1]: s for a, s in enumerate(r["snap"]) if a + 1 not in r["unmapped"]}
    dt, dnu = 8., .5                                                  # so that weights are the specification's integers
    sep = rng.random() < .5
    D = dict(data)
    if not sep:
        D.update(auto)
    DC, MC = DataContainer(D), DataContainer(model)
    kw = dict(autos=DataContainer(auto) if sep else None, data_flags=DataContainer(df), model_flags=DataContainer(mf), ant_flags=af,
              bls=bls if not r["all"] or rng.random() < .3 else None, ant_to_SNAP_dict=smap if r["use"] else None, dt=dt, df=dnu)
    chi = {k: np.full(sh, 7.) for k in gains if rng.random() < .5} if rng.random() < .8 else None
    keep, keepc = frozen(gains), frozen(chi or {})
    before = [frozen(DC), frozen(MC), frozen(af)]
    res = run_isolated(skycal.expand_sky_gains, DC, MC, gains, chisq_per_ant=chi, **kw)
    if res[0] == "err":
        return "expand-raised", f"expand_sky_gains raised {res[1:]}"
    if not all(same(x, dict(y)) for x, y in zip(before, [DC, MC, af])):
        return "expand-mutates", "expand_sky_gains changed its input"
    if not same(keep, {k: gains[k] for k in keep}):
        return "expand-solved", "expand_sky_gains changed the gains of solved antennas"
    new = {k for k, n in nodes.items() if n["new"]}
    if set(gains) - set(keep) != new:
        return "expand-antennas", f"new gains for {sorted(set(gains) - set(keep))}, specification says {sorted(new)}"
    if chi is not None and (set(chi) - set(keepc) != new or not same(keepc, {k: chi[k] for k in keepc})):
        return "expand-chisq-antennas", f"chi-squared for {sorted(chi)} after {sorted(keepc)}"
    for k in new:
        for t in range(sh[0]):
            for c in range(sh[1]):
                s = nodes[k]["s"][t][c]
                w = complex(*s["num"]) / s["den"] if s["den"] else np.nan
                if not np.isclose(gains[k][t, c], w, rtol=1e-9, atol=1e-12, equal_nan=True):
                    return "expand-gain", f"gain of {k} at {t + 1, c + 1} is {gains[k][t, c]}, specification says {w} from {s['n']} usable baselines"
                if chi is not None:
                    w = s["chi"] / s["den"]**2 / s["n"] if s["den"] else np.nan
                    if not np.isclose(chi[k][t, c], w, rtol=1e-9, atol=1e-9, equal_nan=True):
                        return "expand-chisq", f"chi-squared of {k} at {t + 1, c + 1} is {chi[k][t, c]}, specification says {w}"
    return "ok"


def amp(r, rng0, idx, d):
    rng = np.random.default_rng(rng0.getrandbits(32))
    lab = labels(rng, max(n["n"][0] for n in r["nodes"]))
    key = lambda n: (lab[n[0]], lab[n[0]], n[1] * 2)
    autos = {key(n["n"]): A(n["A"]) * rng.choice([1, 1, -1, 1j], 1) * (1 + 0j) for n in r["nodes"]}
    flags = {key(n["n"]): A(n["fl"]) for n in r["nodes"] if n["keyed"]}
    for a in lab.values():
        if rng.random() < .3:
            autos[a, a, "en"] = rng.normal(size=A(r["nodes"][0]["A"]).shape) + 0j
    if rng.random() < .3:
        autos[lab[1], lab[2], "ee"] = np.full(A(r["nodes"][0]["A"]).shape, 99 + 0j)
    kw = dict(auto_flags=DataContainer(flags) if flags and rng.random() < .5 else flags) if r["useflags"] else {}
    DC = DataContainer(autos)
    keep = frozen(DC)
    res = run_isolated(skycal.calibrate_abs_amp_from_autos, DC, **kw)
    if res[0] == "err":
        return "amp-raised", f"calibrate_abs_amp_from_autos raised {res[1:]}"
    if not same(keep, dict(DC)):
        return "amp-mutates", "calibrate_abs_amp_from_autos changed its input"
    got = res[1]
    if set(got) != {(k[0], "J" + k[2]) for k in (key(n["n"]) for n in r["nodes"])}:
        return "amp-antennas", f"amplitudes for {sorted(got)}"
    for n in r["nodes"]:
        x, m = got[lab[n["n"][0]], J(n["n"][1])], A(n["med2"], float)
        w = np.sqrt(2 * A(n["A"]) / np.where(m == 0, np.nan, m))
        if not np.allclose(x, w, equal_nan=True):
            return "amp-value", f"amplitude of {n['n']} is {x}, specification says {w}"
    return "ok"


NB, PER = 8, 24


def dec(r, rng0, idx, d):
    rng = np.random.default_rng(rng0.getrandbits(32))
    nt = len(r["want"][0])
    nf = NB * PER - int(rng.integers(0, 3))
    freqs = 60e6 + .5e6 * np.arange(nf)
    blk = np.arange(nf) // PER
    lab = labels(rng, 6)
    who = {1: [1, 2], 2: [3, 4, 5], 3: [6]}
    snap = {lab[a]: "S%d" % s for s, l in who.items() for a in l}
    x = np.linspace(0, 1, nf)
    gains, wgts = {}, {}
    eps = 1e-3
    for s, l in who.items():
        for a in l:
            for p in (["Jee", "Jnn"] if rng.random() < .5 else ["Jnn"]):
                smooth = .05 * np.cos(2 * np.pi * x + rng.uniform(0, 6, (nt, 1))) + rng.uniform(-1, 1)
                ln = smooth + np.log(A(r["loss"][s - 1]) / 1e4)[:, blk] + eps * rng.normal(size=(nt, nf))
                w = np.full((nt, nf), eps**-2) * rng.uniform(.8, 1.3)
                for t in range(nt):
                    if t + 1 in r["quiet"][s - 1]:
                        w[t] = 0
                    for b in list(r["unseen"]) + list(r["blind"][s - 1]):
                        w[t, blk == b - 1] = 0
                    spot = rng.choice(nf, 4, replace=False)
                    w[t, spot] = 0
                gg = np.exp(ln + 2j * np.pi * rng.random((nt, nf)))
                gg[w == 0] = rng.choice([np.nan, 1e3, 0, 1e-3], np.sum(w == 0))
                if rng.random() < .3:
                    t, c = rng.integers(nt), rng.integers(nf)
                    gg[t, c] = np.nan                                 # not a number: not used, whatever its weight
                gains[lab[a], p], wgts[lab[a], p] = gg, w
    split = r["split"]
    kw = dict(nchans_per_block=PER, band_split_freq=freqs[split * PER] - .1e6)
    before = [frozen(gains), frozen(wgts)]
    res = run_isolated(skycal.estimate_SNAP_decoherence, gains, wgts, snap, freqs, **kw)
    if res[0] == "err":
        return "dec-raised", f"estimate_SNAP_decoherence raised {res[1:]}"
    if not same(before[0], gains) or not same(before[1], wgts):
        return "dec-mutates", "estimate_SNAP_decoherence changed its input"
    got = res[1][0]
    if set(got) != {"S1", "S2", "S3"}:
        return "dec-snaps", f"losses for {sorted(got)}"
    worst = 0
    for s in who:
        w = A(r["want"][s - 1], float)
        w = np.where(w[..., 1] == 0, np.nan, 1 - w[..., 0] / np.where(w[..., 1] == 0, 1, w[..., 1]))
        if not np.array_equal(np.isnan(w), np.isnan(got["S%d" % s])):
            return "dec-where", f"losses of SNAP {s} unmeasured in {np.isnan(got['S%d' % s]).tolist()}, specification says {np.isnan(w).tolist()}"
        seen = np.array([b + 1 not in r["unseen"] and b + 1 not in r["blind"][s - 1] for b in range(NB)])
        sure = np.zeros(NB, bool)                                     # bands measured in three neighbouring blocks or more
        for lo, hi in ((0, split), (split, NB)):
            b = np.where(seen[lo:hi])[0]
            sure[lo:hi] = len(b) > 2 and np.ptp(b) + 1 == len(b)
        e = np.nanmax(np.abs(got["S%d" % s] - w)[:, sure]) if np.isfinite(w[:, sure]).any() else 0
        if e > .02:
            return "dec-loss", f"losses of SNAP {s} are {np.round(got['S%d' % s], 3).tolist()}, specification says {np.round(w, 3).tolist()} (split after block {split})"
    # each SNAP and each integration on its own
    s = rng.choice([1, 2, 3])
    mine = {k: v for k, v in gains.items() if snap[k[0]] == "S%d" % s}
    oth = {k: (v if k in mine else v * 1.7**rng.integers(-1, 2) * (1 + .5 * (blk % 2))) for k, v in gains.items()}
    o = run_isolated(skycal.estimate_SNAP_decoherence, oth, wgts, snap, freqs, **kw)
    if o[0] == "err" or not np.allclose(o[1][0]["S%d" % s], got["S%d" % s], equal_nan=True, atol=1e-9):
        return "dec-mixing", f"losses of SNAP {s} depend on the gains of other SNAPs ({o[0]})"
    k = rng.integers(2)
    bad = copy.deepcopy(snap)
    if k:
        bad.pop(lab[1])
        o = run_isolated(skycal.estimate_SNAP_decoherence, gains, wgts, bad, freqs, **kw)
    else:
        o = run_isolated(skycal.estimate_SNAP_decoherence, gains, {x: y for x, y in wgts.items() if x[0] != lab[1]}, snap, freqs, **kw)
    if o[0] == "ok" or o[1] != "ValueError":
        return "dec-accepted", "gains without SNAP or weight were accepted"
    return "ok"


def fc(item, rng0, idx, d):
    """delays and offsets: every integration and feed on its own, relative to the array mean"""
    rng = np.random.default_rng(rng0.getrandbits(32))
    na, nt, nf = int(rng.integers(3, 7)), 2, 128
    freqs = 110e6 + 195312.5 * np.arange(nf)
    lab = sorted(labels(rng, na).values())
    pols = [["ee"], ["nn"], ["ee", "nn"]][rng.integers(3)]
    ratio, wgts, tau, off = {}, {}, {}, {}
    gone = {}
    for p in pols:
        for a in lab:
            tau[a, "J" + p] = rng.integers(-40, 41, nt) * 2e-9
            off[a, "J" + p] = rng.uniform(-.2, .2, nt)
        gone[p] = [int(rng.choice(lab)) if na > 3 and rng.random() < .4 else None for _ in range(nt)]
        for x, i in enumerate(lab):
            for j in lab[x + 1:]:
                z = np.exp(2j * np.pi * (tau[i, "J" + p] - tau[j, "J" + p])[:, None] * freqs + 1j * (off[i, "J" + p] - off[j, "J" + p])[:, None])
                w = rng.choice([1, 2, 4.]) * np.ones((nt, nf))
                w[:, rng.choice(nf, 3, replace=False)] = 0
                for t in range(nt):
                    if gone[p][t] in (i, j):
                        w[t] = 0
                z = np.where(w > 0, z * rng.uniform(.5, 2), np.nan)
                k = (i, j, p)
                if rng.random() < .4:
                    k, z = (j, i, p), z.conj()
                ratio[k], wgts[k] = z, w
    res = run_isolated(skycal.model_based_firstcal, DataContainer(ratio), DataContainer(wgts), freqs)
    if res[0] == "err":
        return "delay-raised", f"model_based_firstcal raised {res[1:]}"
    dl, of = res[1]
    if set(dl) != set(tau) or set(of) != set(tau):
        return "delay-antennas", f"delays for {sorted(dl)}"
    G = skycal.firstcal_gains(dl, of, freqs)
    for p in pols:
        for t in range(nt):
            live = [a for a in lab if a != gone[p][t]]
            m = np.mean([tau[a, "J" + p][t] for a in live])
            for a in lab:
                w = tau[a, "J" + p][t] - m if a in live else 0
                if abs(dl[a, "J" + p][t, 0] - w) > 4e-9:
                    return "delay", f"delay of {(a, p)} at integration {t + 1} is {dl[a, 'J' + p][t, 0]}, expected {w}"
            if abs(np.mean([of[a, "J" + p][t, 0] for a in live])) > 1e-6:
                return "offset-mean", "phase offsets do not average to zero"
            for a in live[1:]:
                b = live[0]
                e = np.exp(2j * np.pi * (tau[a, "J" + p] - tau[b, "J" + p])[t] * freqs + 1j * (off[a, "J" + p] - off[b, "J" + p])[t])
                if np.abs(np.angle((G[a, "J" + p] * np.conj(G[b, "J" + p]))[t] / e)).max() > .6:
                    return "firstcal-gain", f"first-stage gain of {(a, p)} relative to {b} at integration {t + 1}"
    return "ok"


def check(chk):
    for res in chk.pmap(fc, range(chk.n(60, 800)), tag="fc"):
        chk.ran()
        if isinstance(res, (list, tuple)):
            chk.fail(*res)
    for mode, fn, na, nf, num in (("cal", cal, 6, 16, chk.n(220, 3000)), ("exp", exp, 4, 2, chk.n(300, 4000)), ("amp", amp, 4, 2, chk.n(80, 600)), ("dec", dec, 3, NB, chk.n(32, 300))):
        recs, _ = chk.tlc("SkyCal", CFG % (na, nf, mode), mode="sim", num=num, depth=6)
        assert len(recs) > num // 5, (mode, len(recs))
        ok, gave = 0, 0
        for r, res in zip(recs, chk.pmap(fn, recs, tag=mode)):
            chk.ran()
            chk.traces += 1
            ok += res == "ok"
            gave += res == "gave-up"
            if isinstance(res, (list, tuple)):
                chk.fail(res[0], res[1], r)
        chk.extra[mode] = {"behaviours": len(recs), "compared": ok, "given up": gave}
        assert ok > len(recs) // 4 or chk.viol, (mode, ok, len(recs))
        if gave * 8 > len(recs):
            chk.fail("gives-up", f"{gave} of {len(recs)} noise-free calibrations that the data determine were given up as divergent")
        chk.sample(recs[0])
        # a wrong expectation must be noticed
        bad, tag = [], "b" + mode
        for r in copy.deepcopy(recs):
            if mode == "cal" and r["fault"] == "none" and any(np.any(a["ok"]) for a in r["ants"]):
                x = [a for a in r["ants"] if np.any(a["ok"])][0]
                t = [t for t in range(2) if any(x["ok"][t])][0]
                c = x["ok"][t].index(True)
                x["ok"][t][c] = False
                bad.append(r)
            elif mode == "exp" and any(n["new"] and n["s"][0][0]["den"] for n in r["nodes"]):
                [n for n in r["nodes"] if n["new"] and n["s"][0][0]["den"]][0]["s"][0][0]["num"][0] += 1
                bad.append(r)
            elif mode == "amp":
                r["nodes"][0]["med2"][0][0] += 1
                bad.append(r)
            elif mode == "dec" and r["want"][0][0][2][1] and r["split"] > 2 and not r["unseen"] and not r["blind"][0]:
                r["want"][0][0][2][0] -= 500
                bad.append(r)
        bad = bad[:6]
        n = sum(isinstance(x, (list, tuple)) for x in chk.pmap(fn, bad, tag=tag))
        assert n == len(bad) and bad or chk.viol, (mode, n, len(bad))
        chk.binding.append(f"{mode}: a perturbed expectation makes {n} of {len(bad)} replays fail")


if __name__ == "__main__":
    main("C27", check, assumptions=["noise-free data that the solved baselines determine; phases close to a delay and an offset per antenna", "losses measured with a scatter of 0.001"])
