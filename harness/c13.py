"""C13: redundant averaging of containers and of HERAData/UVData objects."""
import copy
import os
import warnings
import numpy as np
warnings.simplefilter("ignore")
from vlib import main, run_isolated
import synth
from synth import TIME, FREQ
from hera_cal import utils, io
from hera_cal.datacontainer import DataContainer

NT, NF = 2, 2
CFG = "INIT Init\nNEXT Next\nINVARIANT Conserves\nINVARIANT OnePerGroup\nCONSTANTS\n Ants = {0,1,2,3}\n NT = 2\n NF = 2\n Mode = \"%s\"\n"
POL = lambda q: q[0] + q[1]
T = tuple


def grid(v, fn, dt):
    return np.array([[fn(c) for c in row] for row in v], dt)


def fill(i):
    data, flags, ns, w = {}, {}, {}, {}
    for s in i["stored"]:
        for q in s["pol"]:
            k = T(s["p"]) + (POL(q["q"]),)
            data[k] = grid(q["v"], lambda c: complex(*c["d"]), complex)
            flags[k] = grid(q["v"], lambda c: c["f"], bool)
            ns[k] = grid(q["v"], lambda c: c["n"], float)
            w[k] = grid(q["v"], lambda c: c["w"], float)
    return data, flags, ns, w


def compare(o, d, f, n, what):
    want = {T(r["key"]) + (POL(r["pol"]),): r["v"] for r in o}
    phys = lambda k: synth.canon(k)
    got = {phys(k) for k in d.keys()}
    if got != {phys(k) for k in want} or {phys(k) for k in f.keys()} != got or {phys(k) for k in n.keys()} != got:
        return f"{what}: keys {sorted(d.keys())}, specification says {sorted(want)}"
    for k, v in want.items():
        wf = grid(v, lambda c: c["f"], bool)
        wn = grid(v, lambda c: c["n"], float)
        wd = grid(v, lambda c: complex(c["re"], c["im"]) / c["w"] if c["w"] else 0, complex)
        if not np.array_equal(f[k], wf):
            return f"{what}: flags of {k} are {f[k].astype(int).tolist()}, specification says {wf.astype(int).tolist()}"
        if not np.allclose(n[k], wn):
            return f"{what}: nsamples of {k} are {n[k].tolist()}, specification says {wn.tolist()}"
        if not np.allclose(np.where(wf, 0, d[k]), np.where(wf, 0, wd), rtol=1e-5, atol=1e-5):
            return f"{what}: data of {k} are {d[k].tolist()}, specification says {wd.tolist()} (flags {wf.astype(int).tolist()})"
    return None


def kwargs(i):
    kw = dict(reds=[[T(b) for b in g] for g in i["groups"]])
    if i["keymode"] == "given":
        kw["red_bl_keys"] = [T(k) for k in i["gkeys"]]
    if i["prop"]:
        kw["propagate_flags"] = True
    return kw


def do_dc(rec, rng, idx, d):
    i, o = rec["in"], rec["out"]
    D, F, N, W = fill(i)
    ks = list(D)
    rng.shuffle(ks)
    mk = lambda x: DataContainer({k: x[k].copy() for k in ks})
    dd, ff, nn, ww = map(mk, (D, F, N, W))
    kw = kwargs(i)
    if i["nsmode"] != "none":
        kw.update(flags=ff, nsamples=nn)
    if i["wmode"] == "given":
        kw["wgts"] = ww
    reds0, keys0 = copy.deepcopy(kw["reds"]), copy.deepcopy(kw.get("red_bl_keys"))
    inplace = i["nsmode"] != "none" and rng.random() < .4
    r = run_isolated(utils.red_average, dd, inplace=inplace, **kw)
    what = f"red_average(container, stored {sorted(D)}, reds {kw['reds']}, keys {kw.get('red_bl_keys')}, wgts {i['wmode']}, flags/nsamples {i['nsmode']}, propagate {i['prop']}, inplace {inplace})"
    if r[0] == "err":
        return ("dc-raised", f"{what} raised {r[1:]}")
    a = (dd, ff, nn) if inplace else r[1]
    e = compare(o, *a, what)
    if e:
        return ("dc", e)
    if kw["reds"] != reds0 or kw.get("red_bl_keys") != keys0:
        return ("dc-args", f"{what} changed its list arguments")
    for nm, c, x in (("wgts", ww, W),) + (() if inplace else (("data", dd, D), ("flags", ff, F), ("nsamples", nn, N))):
        if set(c.keys()) != set(x) or any(not np.array_equal(c[k], x[k]) for k in x):
            return ("dc-mutates", f"{what} changed the caller's {nm}")


def do_uvd(rec, rng, idx, d):
    i, o = rec["in"], rec["out"]
    D, F, N, W = fill(i)
    pairs = sorted({k[:2] for k in D})
    rng.shuffle(pairs)
    pols = sorted({k[2] for k in D}, key=["nn", "ee", "ne", "en"].index)
    g = dict(data=D, flags=F, nsamples=N)
    pos = {a: np.array([14.6 * a, 3. * (a % 2), 0.]) for a in range(4)}
    uvd = synth.make_uvd(pairs, pols, TIME(np.arange(NT)), FREQ(np.arange(NF)), lambda kind, k: g[kind][k], pos, time_fast=rng.random() < .5)
    for s in i["stored"]:
        inds = uvd.antpair2ind(T(s["p"]), ordered=True)
        uvd.integration_time[inds] = 10. * np.array(s["tint"])
    if rng.random() < .5:
        fn = os.path.join(d, "a.uvh5")
        uvd.write_uvh5(fn, clobber=True)
        obj = io.HERAData(fn)
        obj.read()
    else:
        obj = uvd
    kw = kwargs(i)
    if i["wmode"] == "given":
        kw["wgts"] = DataContainer({k: W[k].copy() for k in W})
    inplace = rng.random() < .4
    keep = copy.deepcopy(obj)
    r = run_isolated(utils.red_average, obj, inplace=inplace, **kw)
    what = f"red_average({type(obj).__name__}, stored {pairs}, pols {pols}, reds {kw['reds']}, keys {kw.get('red_bl_keys')}, wgts {i['wmode']}, propagate {i['prop']}, inplace {inplace})"
    if r[0] == "err":
        return ("uvd-raised", f"{what} raised {r[1:]}")
    res = obj if inplace else r[1]
    keys = res.get_antpairpols()
    e = compare(o, {k: res.get_data(k) for k in keys} and _View(res.get_data, keys), _View(res.get_flags, keys), _View(res.get_nsamples, keys), what)
    if e:
        return ("uvd", e)
    if len(pols) == 1:
        for c in o:
            k = T(c["key"])
            ind = res.antpair2ind(k, ordered=False)
            for t, (num, cnt) in enumerate(c["ti"]):
                if cnt and abs(res.integration_time[ind][t] - 10. * num / cnt) > 1e-6:
                    return ("uvd-tint", f"{what}: integration time of {k} {res.integration_time[ind].tolist()}, specification says 10 * {c['ti']}")
    if not inplace and not (np.array_equal(obj.data_array, keep.data_array) and np.array_equal(obj.flag_array, keep.flag_array)
                            and np.array_equal(obj.nsample_array, keep.nsample_array) and np.array_equal(obj.integration_time, keep.integration_time)):
        return ("uvd-mutates", f"{what} changed its input")


class _View:
    def __init__(self, get, keys):
        self.get, self._k = get, list(keys)

    def keys(self):
        return self._k

    def __getitem__(self, k):
        return self.get(k)


def auto_reds(chk):
    """reds worked out from antenna positions are those of the positions"""
    for _ in range(chk.n(20, 200)):
        n = chk.rng.randint(3, 5)
        step = np.array([[14.6, 0, 0], [0, 14.6, 0]])
        pos = {a: sum(chk.rng.randint(0, 2) * s for s in step) + 0. for a in range(n)}
        pos = {a: p for a, p in pos.items() if not any(np.allclose(p, pos[b]) for b in pos if b < a)}
        prs = [(a, b) if chk.rng.random() < .7 else (b, a) for a in pos for b in pos if a < b]
        if not prs:
            continue
        rg = np.random.default_rng(chk.rng.randint(0, 10**9))
        D = {p + ("nn",): rg.normal(size=(2, 2)) + 1j * rg.normal(size=(2, 2)) for p in prs}
        dc = DataContainer({k: v.copy() for k, v in D.items()})
        dc.antpos = pos
        r = run_isolated(utils.red_average, dc, inplace=False)
        chk.ran()
        if r[0] == "err":
            chk.fail("auto-raised", f"red_average without reds raised {r[1:]}")
            continue
        a, f, ns = r[1]
        groups = {}
        for p in prs:
            v = pos[p[1]] - pos[p[0]]
            key = tuple(np.round(v).astype(int))
            c = key < (0, 0, 0)
            groups.setdefault(tuple(-x for x in key) if c else key, []).append((p, D[p + ("nn",)].conj() if c else D[p + ("nn",)]))
        if len(a.keys()) != len(groups):
            chk.fail("auto", f"red_average without reds: {len(a.keys())} groups from positions {pos}, expected {len(groups)}")
            continue
        for key, mem in groups.items():
            m = np.mean([x for _, x in mem], axis=0)
            k = [k for k in a.keys() if k[:2] in [p for p, _ in mem] or k[1::-1] in [p for p, _ in mem]]
            v = pos[k[0][1]] - pos[k[0][0]] if k else None
            if len(k) != 1 or not np.allclose(a[k[0]], m.conj() if tuple(np.round(v).astype(int)) != key else m) or not np.allclose(ns[k[0]], len(mem)):
                chk.fail("auto", f"red_average without reds: group {mem} averaged to {a[k[0]] if k else None}, expected {m}")


def check(chk):
    dc = chk.tlc("RedAverage", CFG % "dc", mode="sim", num=chk.n(600, 8000), depth=4)[0]
    uv = chk.tlc("RedAverage", CFG % "uvd", mode="sim", num=chk.n(300, 4000), depth=4)[0]
    for recs, fn, tag in ((dc, do_dc, "dc"), (uv, do_uvd, "uvd")):
        for r, x in zip(recs, chk.pmap(fn, recs, tag=tag)):
            chk.ran()
            chk.traces += 1
            if x:
                chk.fail(x[0], x[1], r)
    auto_reds(chk)
    chk.extra["absent_group_with_keys"] = sum(r["in"]["keymode"] == "given" and len({T(x["key"]) for x in r["out"]}) < len(r["in"]["groups"]) for r in dc + uv)
    chk.sample(dc[0])
    if not chk.viol:
        import random
        bad = 0
        for r in dc[:60]:
            c = copy.deepcopy(r)
            for x in c["out"]:
                for row in x["v"]:
                    for cell in row:
                        cell["re"] += 1
            bad += do_dc(c, random.Random(1), 0, None) is not None
        assert bad > 50, bad
        chk.binding.append(f"shifting the specified mean by 1/sum(w) makes {bad} of 60 replays fail")


if __name__ == "__main__":
    main("C13", check, assumptions=["4 antennas, up to 8 pairs in random orientation and grouping, 1, 2 or 4 polarizations, 2x2 pixels; data where everything is flagged is not compared"])
