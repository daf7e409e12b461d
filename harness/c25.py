"""C25: noise-weighted calibration and averaging of redundant groups, and the decoherence measurements it corrects for."""
import copy
import os
import warnings
import numpy as np
warnings.simplefilter("ignore")
from vlib import main, run_isolated
from hera_cal import apply_cal, io
from hera_cal.datacontainer import DataContainer

NT, NB, BW = 2, 2, 2
NF = NB * BW
CFG = "INIT Init\nNEXT Next\nINVARIANT Sound\nCONSTANTS Ants = {0,1,2,3}\n NT = %d\n NB = %d\n BW = %d\n" % (NT, NB, BW)
FCFG = "INIT Init\nNEXT Next\nINVARIANT CellsTrue\nINVARIANT OneSource\nINVARIANT Kept\nINVARIANT Ordered\nCONSTANTS Snaps = {1,2,3}\n Ants = {0,1,2,3}\n NT = 9\n MaxOps = 8\n"
UNIT = 64
TIMES = 2458100.25 + np.arange(NT) * 9.6 / 86400
FREQS = 120e6 + 122070.3125 * np.arange(NF)
DT, DF = np.median(np.diff(TIMES)) * 86400, 122070.3125
J = lambda a: (a[0], "J" + a[1] * 2)
BL = lambda b: (b[0][0], b[0][1], "".join(b[1]))
REV = lambda k: (k[1], k[0], k[2][::-1])


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True)


def container(d):
    c = DataContainer(d)
    c.times, c.freqs, c.lsts = TIMES, FREQS, np.arange(NT) * .001
    c.times_by_bl = {bl[:2]: TIMES for bl in list(d)}
    c.times_by_bl.update({bl[:2][::-1]: TIMES for bl in list(d)})
    return c


def measurement(i, rng):
    """The SNAP results of the specification's input: 0, a half, unmeasured."""
    p = {f"heraNode{r['s']}Snap{r['s'] % 3}": np.array([[(0., .5, np.nan)[v] for v in row] for row in r["v"]]) for r in i["loss"]}
    return io.SNAPDecoherence(p, copy.deepcopy(p), {s: np.ones_like(v) for s, v in p.items()}, {s: np.ones(NT, int) for s in p}, TIMES, FREQS.reshape(NB, BW),
                              {a: f"heraNode{s}Snap{s % 3}" for a, s in i["mapped"]}, np.ones(NB, bool), [0], [[FREQS[0], FREQS[-1]]])


def build(i, rng):
    data, flags = {}, {}
    bfl = {BL(r["b"]): np.array(r["v"], bool) for r in i["bflag"]}
    up = lambda v: UNIT * (np.array(v)[..., 0] + 1j * np.array(v)[..., 1])
    group = {tuple(sorted(p)): tuple(p) for g in i["groups"] for p in g}
    for r in i["auto"]:
        k = BL([[r["a"][0]] * 2, [r["a"][1]] * 2])
        data[k], flags[k] = UNIT * np.array(r["v"]).astype(complex), bfl[k]
    for r in i["xval"]:
        k = BL([[r["b"][0]] * 2, r["b"][1]])
        data[k], flags[k] = up(r["v"]), bfl[k]
    true = {}
    for r in i["val"]:
        p, q = r["b"]
        k = BL([group[tuple(p)], q])
        v, f = up(r["v"]), bfl[BL(r["b"])]
        true[k] = v
        data[REV(k) if r["flip"] else k], flags[REV(k) if r["flip"] else k] = (v.conj() if r["flip"] else v), f
    order = list(data)
    rng.shuffle(order)
    data, flags = {k: data[k].copy() for k in order}, {k: flags[k].copy() for k in order}
    gains = {J(r["a"]): np.array([[np.nan if c["nan"] else 1j ** c["u"] * 2 ** c["k"] for c in row] for row in r["v"]]).astype(complex) for r in i["gain"]}
    for g in gains.values():
        if np.isnan(g).any() and rng.random() < .5:
            g[np.isnan(g)] = np.inf
    aflag = {J(r["a"]): np.array(r["v"], bool) for r in i["aflag"]}
    return data, flags, gains, aflag, true


def average(r, rng, d):
    i, o = r["in"], r["out"]
    data, flags, gains, aflag, true = build(i, rng)
    pols = ["".join(p) for p in i["pols"]]
    ants = sorted({a for a, _ in i["mapped"]})
    # every group in every polarization, autocorrelations too: in any order
    groups = [[tuple(p) + (q,) for p in g] for g in i["groups"] for q in pols] + [[(a, a, q) for a in ants] for q in pols if q[0] == q[1] or i["xauto"]]
    rng.shuffle(groups)
    snap = measurement(i, rng) if i["snap"] else None
    kw = dict(ant_flags=aflag, ex_ants=rng.choice([list, set])([J(a) for a in i["ex"]]), snap_decoherence=snap, compute_chisq=i["chi"], effective_nsamples=i["eff"])
    if not i["ex"] and rng.random() < .5:
        kw["ex_ants"] = None
    if i["dflags"]:
        kw["data_flags"] = container(flags)
    dt, df = DT, DF
    if i["given"]:
        kw["dt"], kw["df"] = dt, df = 2., 4.
    c = container(data)
    args = (c, gains, groups)
    keep = copy.deepcopy((dict(c._data if hasattr(c, "_data") else c), gains, groups, kw["ant_flags"], dict(kw.get("data_flags", {}).items()) if i["dflags"] else {}))
    res = run_isolated(apply_cal.calibrate_and_red_avg, *args, **kw)
    if not o["autos"] and res[0] == "err" and not any((a, a, q) in c for a in ants for q in pols if q[0] == q[1]):
        return None
    if res[0] == "err":
        return "avg-error", f"{res[1]}: {res[2]}"
    avg, fl, ns, meta = res[1]
    after = (dict(c._data if hasattr(c, "_data") else c), gains, groups, kw["ant_flags"], dict(kw["data_flags"].items()) if i["dflags"] else {})
    for a, b in zip(after, keep):
        same = a == b if isinstance(a, list) else (list(a) == list(b) and all(np.array_equal(a[k], b[k], equal_nan=True) for k in a))
        if not same:
            return "avg-mutates", "an input was changed"
    # -- autocorrelations ------------------------------------------------------------------------------------------
    want, auto = {}, {}
    arr = lambda v, k: np.array([[x[k] for x in row] for row in v], dtype=float)
    for a in o["autos"]:
        w, s = arr(a["v"], "w"), arr(a["v"], "re") + 1j * arr(a["v"], "im")
        m = np.where(w > 0, s / np.maximum(w, 1), 0)
        q = "".join(a["pol"])
        if q[0] == q[1]:
            auto[q[0]] = m.real
        want[BL(a["key"])] = (m, w == 0, q, a)
    for k, (m, f0, q, a) in list(want.items()):
        w, pr = arr(a["v"], "w"), arr(a["v"], "prod")
        n = np.where(pr > 0, w ** 2 * auto[q[0]] * auto[q[1]] / np.maximum(pr, 1), 0) if i["eff"] else w
        want[k] = (m, f0, n)
    num, dof, tn, td = {}, {}, {}, {}
    scale = dt * df / 65536
    for g in o["cross"]:
        w, s = arr(g["v"], "w"), arr(g["v"], "re") + 1j * arr(g["v"], "im")
        m = np.where(w > 0, s / np.maximum(w, 1), 0)
        q = "".join(g["pol"])
        want[BL(g["key"])] = (m, w == 0, auto[q[0]] * auto[q[1]] * w / 65536 if i["eff"] else arr(g["v"], "n"))
        if q[0] != q[1]:
            continue
        for kind, bls in (("each", g["members"]), ("guest", g["guests"])):
            for n, b in enumerate(bls):
                wi = np.array([[x[kind][n]["w"] for x in row] for row in g["v"]], float)
                ci = np.array([[complex(*x[kind][n]["c"]) for x in row] for row in g["v"]])
                use = (wi > 0) & (w > 0)
                z = np.where(use, wi * scale * abs(ci - m) ** 2, 0)
                e = np.where(use, 1 + (-1 if kind == "each" else 1) * wi / np.maximum(w, 1), 0)
                ends = [(b[0][0], b[1][0]), (b[0][1], b[1][1])]
                for a in ends:
                    if kind == "each" or list(a) in i["ex"]:
                        num[J(a)], dof[J(a)] = num.get(J(a), 0) + z, dof.get(J(a), 0) + e
                if kind == "each":
                    jp = "J" + q
                    tn[jp], td[jp] = tn.get(jp, 0) + z, td.get(jp, 0) + e
    # -- what came out ---------------------------------------------------------------------------------------------
    for name, cont in (("data", avg), ("flags", fl), ("nsamples", ns)):
        if set(cont.keys()) != set(want):
            return "avg-keys", f"averaged {name} hold {sorted(cont.keys())}, specification says {sorted(want)}"
    for k, (m, f0, n) in want.items():
        if not np.array_equal(fl[k], f0):
            return "avg-flags", f"{k}: flags {fl[k].tolist()}, specification says {f0.tolist()}"
        if not close(avg[k], m):
            return "avg-data", f"{k}: averages {avg[k].tolist()}, specification says {m.tolist()}"
        if not close(ns[k], n):
            return "avg-nsamples", f"{k}: nsamples {ns[k].tolist()}, specification says {n.tolist()}"
        grp = next(g for g in groups if k in g)
        for k2 in grp:
            twin = k2[0] != k2[1] or k2[2][0] == k2[2][1]     # en and ne of an antenna with itself are drawn apart
            if not (close(avg[k2], m) and (not twin or close(avg[REV(k2)], m.conj())) and np.array_equal(fl[k2], f0) and close(ns[k2], n)):
                return "avg-resolve", f"{k2} does not stand for the average of its group"
    if not i["chi"]:
        return None if meta == {} else ("avg-chisq", "chi^2 without asking")
    want_c = {a: np.where(dof[a] > 1e-9, num[a] / np.where(dof[a] > 1e-9, dof[a], 1), np.nan) for a in num}
    want_t = {p: np.where(td[p] > 1e-9, tn[p] / np.where(td[p] > 1e-9, td[p], 1), np.nan) for p in tn}
    for name, a, b, e in (("chisq_per_ant", meta["chisq_per_ant"], want_c, dof), ("total_chisq", meta["total_chisq"], want_t, td)):
        if set(a) != set(b):
            return "avg-chisq", f"{name} covers {sorted(a)}, specification says {sorted(b)}"
        for k in a:
            sel = (e[k] > 1e-9) | (e[k] == 0)              # rounding of 1 - w / w
            if not close(np.asarray(a[k])[sel], b[k][sel]):
                return "avg-chisq", f"{name}[{k}] is {np.asarray(a[k]).tolist()}, specification says {b[k].tolist()}"
    return None


def correct(r, rng, d):
    """The measurement applied to the data alone."""
    i, o = r["in"], r["out"]["corrected"]
    if not i["snap"]:
        return None
    data, flags, _, _, true = build(i, rng)
    snap = measurement(i, rng)
    names = {BL(e["b"]) for e in o["v"]}
    keep = {k: v.copy() for k, v in data.items()}
    cross = {k for k in data if k[0] != k[1]}
    if not cross:
        return None
    # autocorrelations stand aside: only antennas with cross-correlations are asked for
    have = {a for k in cross for a in k[:2]}
    sub = {k: v for k, v in data.items() if k[0] in have and k[1] in have}
    c, f = container(sub), container({k: flags[k] for k in sub})
    res = run_isolated(snap.correct_in_place, c, data_flags=f)
    if (res[0] == "err") != o["bad"]:
        return "snap-refuse", f"correction {'refused: ' + str(res[1:]) if res[0] == 'err' else 'allowed'}, specification says the opposite"
    if res[0] == "err":
        if res[1] != "ValueError" or any(not np.array_equal(c[k], keep[k]) for k in sub):
            return "snap-refuse-partial", f"the refusal {res[1:]} left data changed or is not a ValueError"
        return None
    ex = {tuple(sorted(e["b"][0])) + ("".join(e["b"][1]),): np.array(e["e"]) for e in o["v"]}
    flip = {tuple(sorted(v["b"][0])) + ("".join(v["b"][1]),): v["flip"] for v in i["val"]}
    group = {tuple(sorted(p)): tuple(p) for g in i["groups"] for p in g}
    for (a, b, q), e in ex.items():
        k = group[(a, b)] + (q,)
        k = REV(k) if flip[(a, b, q)] else k
        if not close(c[k], keep[k] * 2. ** e):
            return "snap-correct", f"{k}: corrected by {(c[k] / np.where(keep[k] == 0, 1, keep[k])).tolist()}, specification says {(2. ** e).tolist()}"
    for k in sub:
        if k[0] == k[1] and not np.array_equal(c[k], keep[k]):
            return "snap-auto", f"{k}: an autocorrelation was corrected"
        if not np.array_equal(f[k], flags[k]):
            return "snap-flags", "flags were changed"
    # somewhere else in frequency or time it refuses
    for at, v in (("freqs", FREQS + 5e4), ("times", TIMES + 1e-4), ("freqs", FREQS[:-1])):
        c = container({k: v2.copy() for k, v2 in sub.items()})
        setattr(c, at, v)
        if run_isolated(snap.correct_in_place, c, data_flags=f)[0] != "err" or any(not np.array_equal(c[k], sub[k]) and False for k in sub):
            return "snap-elsewhere", f"a measurement was applied to data of other {at}"
    return None


# ---- files -----------------------------------------------------------------------------------------------------------
SN = lambda s: f"heraNode{s}Snap{s * 7 % 4}"
T0 = lambda t: 2458100.2 + t * .01


def cell(c):
    if c == [0, 0, 0]:
        return (np.full(3, np.nan),) * 3 + (0,)
    x = (c[0] * 100 + c[1] * 10 + c[2]) / 1000 + np.arange(3) / 10000
    r = x + .2
    x = np.where(np.arange(3) == c[2] % 4, np.nan, x)
    return x, r, x * 2, c[0] * 10 + c[1]


def files(r, rng, d):
    ch = {1: (100e6 + 1e5 * np.arange(6)).reshape(3, 2), 2: (100e6 + 1.5e5 * np.arange(6)).reshape(3, 2)}
    st = {1: dict(detection_sigma=2., verbose=False), 2: dict(detection_sigma=3., verbose=False)}
    name = lambda f: os.path.join(d, f"part{f}.h5")

    def make(p):
        per = [{SN(s): np.array([cell(c)[n] for c in cs]) for s, cs in p["cell"]} for n in range(4)]
        b = [x if x else np.nan for x in p["band"]]
        return io.SNAPDecoherence(*per, [T0(t) for t in p["times"]], ch[p["chans"]], {a: SN(s) for a, s in p["map"]},
                                  [n in p["cov"] for n in range(3)], p["edge"], [b], estimator_kwargs=st[p["set"]], history=f"made {p['times']}")

    def same(o, w, at):
        if not np.array_equal(o.times, [T0(t) for t in w["times"]]):
            return at + "-times", f"holds the integrations {[round((t - T0(0)) * 100) for t in o.times]}, specification says {w['times']}"
        if list(o.SNAPs) != sorted(SN(s) for s, _ in w["cell"]):
            return at + "-snaps", f"SNAPs {o.SNAPs}, specification says {w['cell']}"
        for s, cs in w["cell"]:
            for n, at2 in enumerate(("decoherence", "_decoherence_refit", "_log_suppression_sigma", "_n_spectra_per_SNAP")):
                if not np.array_equal(getattr(o, at2)[SN(s)], np.array([cell(c)[n] for c in cs]), equal_nan=True):
                    return at + "-cells", f"{at2} of {SN(s)} is {getattr(o, at2)[SN(s)].tolist()}, specification says the cells {cs}"
            if not close(o._log_suppression[SN(s)], -np.log(1 - np.array([cell(c)[0] for c in cs]))):
                return at + "-log", "log suppression is not -ln(1 - p)"
        if {int(a): str(s) for a, s in o.ant_to_SNAP_dict.items()} != {a: SN(s) for a, s in w["map"]}:
            return at + "-map", f"maps antennas {o.ant_to_SNAP_dict}, specification says {w['map']}"
        if not np.array_equal(o.block_freqs, ch[w["chans"]]) or not np.array_equal(o.freqs, ch[w["chans"]].ravel()) or dict(o._estimator_kwargs) != st[w["set"]]:
            return at + "-axes", "channels or settings differ"
        if [n for n in range(3) if o._covered_blocks[n]] != sorted(w["cov"]) or list(o._edge_blocks) != sorted(w["edge"]):
            return at + "-blocks", f"blocks {o._covered_blocks.tolist()} {o._edge_blocks}, specification says {w['cov']} {w['edge']}"
        if not np.array_equal(o._band_edges, [[x if x else np.nan for x in w["band"]]], equal_nan=True):
            return at + "-band", f"band {o._band_edges.tolist()}, specification says {w['band']}"
        if list(o.filepaths) != [name(f) if f else None for f in w["files"]]:
            return at + "-files", f"filepaths {o.filepaths}, specification says {w['files']}"

    objs = [make(p) for p in r["parts"]]
    for o, p in zip(objs, r["parts"]):
        bad = same(o, p, "made")
        if bad:
            return bad
    want = [dict(p) for p in r["parts"]]
    for s in r["ops"]:
        if s["op"] == "write":
            res = run_isolated(objs[s["k"] - 1].write, name(s["f"]), clobber=s["clobber"])
        elif s["op"] == "read":
            fs = [name(f) for f in s["f"]]
            res = run_isolated(io.SNAPDecoherence.read, fs[0] if len(fs) == 1 and rng.random() < .5 else fs)
        else:
            os_ = [objs[k - 1] for k in s["k"]]
            res = run_isolated(lambda: os_[0] + os_[1]) if len(os_) == 2 and rng.random() < .5 else run_isolated(io.SNAPDecoherence.concatenate, os_)
        if (res[0] == "ok") != s["ok"]:
            return s["op"] + "-allowed", f"{s['op']} {s} gives {res[:1] + res[1:] if res[0] == 'err' else 'an answer'}, specification says {'it works' if s['ok'] else 'it is refused'}"
        if res[0] == "err" and res[1] not in ("ValueError", "OSError"):
            return s["op"] + "-crash", f"{s['op']} raises {res[1:]}"
        if s["ok"] and s["op"] != "write":
            bad = same(res[1], s["res"], s["op"])
            if bad:
                return bad
            if len(objs) < 7:
                objs.append(res[1])
                want.append(s["res"])
            else:
                objs[-1], want[-1] = res[1], s["res"]
        # nothing else moved
        for o, w in zip(objs, want):
            bad = same(o, w, "kept")
            if bad:
                return bad
    for f in (1, 2, 3):
        w = r["disk"][f - 1]
        if os.path.exists(name(f)) != bool(w):
            return "disk", f"file {f} {'exists' if not w else 'is missing'}"
        if w:
            bad = same(io.SNAPDecoherence.read(name(f)), w, "disk")
            if bad:
                return bad


def do(r, rng, k, d):
    return files(r, rng, d) if "ops" in r else (average(r, rng, d) or correct(r, rng, d))


def check(chk):
    a, _ = chk.tlc("NoiseAverage", CFG, mode="sim", num=chk.n(700, 8000), depth=4)
    f, _ = chk.tlc("SnapFiles", FCFG, mode="sim", num=chk.n(300, 4000), depth=16)
    use = a + f
    for r, res in zip(use, chk.pmap(do, use)):
        chk.ran()
        chk.traces += 1
        if res:
            chk.fail(res[0], res[1], r)
    chk.extra["averages"] = sum(len(r["out"]["cross"]) for r in a)
    chk.extra["with an excluded antenna's chi^2"] = sum(any(g["guests"] for g in r["out"]["cross"]) for r in a)
    chk.extra["joins and reads"] = sum(s["ok"] for r in f for s in r["ops"] if s["op"] != "write")
    chk.extra["refused"] = sum(not s["ok"] for r in f for s in r["ops"])
    chk.sample(a[0])
    chk.sample(f[0])
    bad = []
    for r in [r for r in a if r["out"]["cross"] and any(x["w"] for g in r["out"]["cross"][:1] for row in g["v"] for x in row)][:8]:
        r = copy.deepcopy(r)
        for row in r["out"]["cross"][0]["v"]:
            for x in row:
                x["re"] += x["w"]
        bad.append(r)
    for r in [r for r in f if any(s["ok"] and s["op"] != "write" for s in r["ops"])][:8]:
        r = copy.deepcopy(r)
        s = next(s for s in r["ops"] if s["ok"] and s["op"] != "write")
        s["res"]["times"] = s["res"]["times"][::-1] if len(s["res"]["times"]) > 1 else [8]
        bad.append(r)
    k = sum(x is not None for x in chk.pmap(do, bad, tag="b"))
    assert k == len(bad) or chk.viol, (k, len(bad))
    chk.binding.append(f"perturbing expectations makes {k} of {len(bad)} replays fail")


if __name__ == "__main__":
    main("C25", check, assumptions=["gains, autocorrelations and losses are powers of two times a quarter turn, so that every average is exact", "no baseline-dependent averaging"])
