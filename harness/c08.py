"""C08: calibration files round-trip; partial reads, updates, filled channels, fast reader, combination."""
import copy
import os
import warnings
import numpy as np
warnings.simplefilter("ignore")
from vlib import main
import synth
from synth import TIME, FREQ
from pyuvdata import utils as uvutils
from hera_cal import io, utils
from hera_cal.io import HERACal

CFG = """INIT Init
NEXT Next
INVARIANTS Faithful FilledFlagged
PROPERTY OnlyWritesChangeDisk
CONSTANTS
 Ants = {%s}
 NT = %d
 NF = %d
 PolSets = {%s}
 Depth = %d
"""
FACT = [complex(3, 1), complex(1, -2), complex(-2, 5), complex(4, 3), complex(2, -7), complex(5, 2), complex(-1, 3), complex(7, 4)]


def h(a, p, t, f, v):
    return (a * 131 + (p == "Jee") * 57 + t * 17 + f * 7 + v * 29)


def gain(a, p, t, f, ids):
    g = 1 + 0j
    for v in ids:
        x = h(a, p, t, f, v)
        g *= complex(x % 11 + 1, (x * 5) % 13 - 6)
    return g


def qual(a, p, t, f, v):
    return 0.0 if v == 900 else 1.0 if v == 901 else float(h(a, p, t, f, v) * 37 % 101 + 2)


class Ex:
    def __init__(self, st):
        self.ts, self.fs, self.ants, self.pols = st["ts"], st["fs"], sorted(st["ants"]), sorted(st["pols"])
        self.hasq, self.hastq = st["hasq"], st["hastq"]
        self.g, self.f, self.q, self.tq = {}, {}, {}, {}
        rng2 = lambda fn: np.array([[fn(i, j) for j in range(len(self.fs))] for i in range(len(self.ts))])
        for x in st["v"]:
            a, p = k = (x["a"], x["p"])
            self.g[k] = rng2(lambda i, j: gain(a, p, self.ts[i], self.fs[j], x["g"][i][j])).astype(complex)
            self.f[k] = rng2(lambda i, j: x["f"][i][j]).astype(bool)
            self.q[k] = rng2(lambda i, j: qual(a, p, self.ts[i], self.fs[j], x["q"][i][j])).astype(float)
        for x in st["tq"]:
            self.tq[x["p"]] = rng2(lambda i, j: qual(99, x["p"], self.ts[i], self.fs[j], x["q"][i][j])).astype(float)

    def sub(self, ts):
        o = copy.copy(self)
        ii = [list(self.ts).index(t) for t in ts]
        o.ts = list(ts)
        o.g, o.f, o.q, o.tq = ({k: v[ii] for k, v in d.items()} for d in (self.g, self.f, self.q, self.tq))
        return o


def check(got, ex, what, hc=None):
    gains, flags, quals, tq = got
    want = {(a, p) for a in ex.ants for p in ex.pols}
    if (quals is not None) != ex.hasq:
        return f"{what}: qualities {'present' if quals is not None else 'absent'}"
    if (tq is not None) != ex.hastq:
        return f"{what}: total quality {'present' if tq is not None else 'absent'}"
    for nm, d, w in (("gains", gains, ex.g), ("flags", flags, ex.f), ("quals", quals, ex.q if ex.hasq else None)):
        if w is None:
            continue
        if set(d) != want:
            return f"{what}: {nm} has keys {sorted(d)} expected {sorted(want)}"
        for k in want:
            if d[k].shape != w[k].shape or not np.allclose(d[k], w[k], rtol=1e-6):
                return f"{what}: {nm} of {k} is {np.asarray(d[k]).tolist()} expected {w[k].tolist()}"
    if ex.hastq:
        if set(tq) != set(ex.pols):
            return f"{what}: total quality for {sorted(tq)}"
        for p in ex.pols:
            if tq[p].shape != ex.tq[p].shape or not np.allclose(tq[p], ex.tq[p], rtol=1e-6):
                return f"{what}: total quality of {p} is {tq[p].tolist()} expected {ex.tq[p].tolist()}"
    if hc is not None:
        if len(hc.times) != len(ex.ts) or not np.allclose(hc.times, TIME(ex.ts), rtol=0, atol=1e-8):
            return f"{what}: times {hc.times}"
        if len(hc.freqs) != len(ex.fs) or not np.allclose(hc.freqs, FREQ(ex.fs), rtol=0, atol=1):
            return f"{what}: freqs {hc.freqs}"
        if {(int(a), p) for a, p in hc.ants} != want or set(hc.pols) != set(ex.pols):
            return f"{what}: ants {hc.ants} pols {hc.pols}"
    return None


def put(path, ex, rng, antpos, ts=None, pols=None, shuffle=True):
    e = ex if ts is None else ex.sub(ts)
    ants = sorted(e.ants, key=lambda x: rng.random()) if shuffle else list(e.ants)
    pl = sorted(e.pols if pols is None else pols, key=lambda p: abs(uvutils.jstr2num(p, x_orientation="north")))
    uvc = synth.make_uvc(ants, pl, TIME(e.ts), FREQ(e.fs), e.g, e.f, e.q if e.hasq else None, e.tq if e.hastq else None, antpos)
    if not e.hasq:
        uvc.quality_array = None
    uvc.write_calfits(path, clobber=True)


def readers(path, ex, rng, d, n, antpos):
    hc = HERACal(path)
    m = check(hc.read(), ex, "full read", hc)
    if m:
        return m
    g, f = io.load_cal(path)
    for k in ex.g:
        if not np.allclose(g[k], ex.g[k]) or not np.array_equal(f[k], ex.f[k]):
            return f"load_cal of {k} differs"
    # the same content split over files, read in any order
    paths, split = [path], "one"
    kinds = [s for s, ok in (("time", len(ex.ts) > 1), ("pol", len(ex.pols) > 1)) if ok]
    if kinds and ex.hasq and rng.random() < .8:
        split = rng.choice(kinds)
        p1, p2 = os.path.join(d, f"a{n}.calfits"), os.path.join(d, f"b{n}.calfits")
        if split == "time":
            cut = rng.randint(1, len(ex.ts) - 1)
            put(p1, ex, rng, antpos, ts=ex.ts[:cut])
            put(p2, ex, rng, antpos, ts=ex.ts[cut:])
        else:
            put(p1, ex, rng, antpos, pols=ex.pols[:1])
            put(p2, ex, rng, antpos, pols=ex.pols[1:])
        paths = [p1, p2] if rng.random() < .5 else [p2, p1]
        hc = HERACal(paths)
        m = check(hc.read(), ex, f"read of two files (split by {split}, order {[os.path.basename(p)[0] for p in paths]})", hc)
        if m:
            return m
    # the fast reader
    ants, pols, how = None, None, rng.choice(["all", "int", "tuple", "pols", "mixed"])
    want = set(ex.g)
    if how == "int":
        ants = rng.sample(ex.ants, rng.randint(1, len(ex.ants)))
        want = {k for k in want if k[0] in ants}
    elif how == "tuple":
        ants = rng.sample(sorted(want), rng.randint(1, len(want)))
        want = set(ants)
    elif how == "pols":
        pols = rng.sample(ex.pols, rng.randint(1, len(ex.pols)))
        want = {k for k in want if k[1] in pols}
    elif how == "mixed":
        a0 = rng.sample(sorted(want), 1)[0]
        a1 = rng.choice(ex.ants)
        ants, want = [a0, a1], {a0} | {k for k in want if k[0] == a1}
    rd = {f"read_{x}": rng.random() < .7 for x in ("gains", "flags")}
    rd["read_quality"] = ex.hasq and rng.random() < .7
    rd["read_tot_quality"] = ex.hastq and rng.random() < .7
    rv = io.read_hera_calfits(paths, ants=copy.deepcopy(ants), pols=copy.deepcopy(pols), check=rng.random() < .5, **rd)
    what = f"read_hera_calfits({len(paths)} files split by {split}, ants={ants}, pols={pols}, {rd})"
    for nm, on, w in (("gains", rd["read_gains"], ex.g), ("flags", rd["read_flags"], ex.f), ("quality", rd["read_quality"], ex.q)):
        if not on:
            if nm in rv:
                return f"{what}: returned {nm}"
            continue
        if set(rv[nm]) != want:
            return f"{what}: {nm} keys {sorted(rv[nm])} expected {sorted(want)}"
        for k in want:
            if rv[nm][k].shape != w[k].shape or not np.allclose(rv[nm][k], w[k], rtol=1e-6):
                return f"{what}: {nm} of {k} is {rv[nm][k].tolist()} expected {w[k].tolist()}"
    if rd["read_tot_quality"]:
        for p in ex.pols:
            if not np.allclose(rv["total_quality"][p], ex.tq[p], rtol=1e-6):
                return f"{what}: total quality of {p} is {rv['total_quality'][p].tolist()} expected {ex.tq[p].tolist()}"
    if not np.allclose(rv["info"]["times"], TIME(ex.ts), rtol=0, atol=1e-8) or not np.allclose(rv["info"]["freqs"], FREQ(ex.fs), rtol=0, atol=1):
        return f"{what}: times/freqs {rv['info']['times']}"
    return None


def replay(t, rng, d, n, antpos):
    ex = Ex(t[0]["st"])
    path = os.path.join(d, f"c{n}.calfits")
    put(path, ex, rng, antpos)
    m = readers(path, ex, rng, d, f"{n}i", antpos)
    if m:
        return 0, "readers", m
    hc = HERACal(path)
    hc.read()
    dsk = ex
    for i, st in enumerate(t[1:], 1):
        e, op = st["e"], st["e"]["op"]
        new = Ex(st["st"])
        newpath = os.path.join(d, f"c{n}_{i}.calfits")
        try:
            if op in ("read", "select"):
                r, src = e["r"], (dsk if op == "read" else ex)
                kw = {}
                if set(r["ants"]) != set(src.ants):
                    kw["antenna_nums"] = rng.sample(r["ants"], len(r["ants"]))
                if set(r["pols"]) != set(src.pols):
                    kw["pols" if op == "read" else "jones"] = list(r["pols"])
                if set(r["ts"]) != set(src.ts):
                    kw["times"] = TIME(sorted(r["ts"]))
                if set(r["fs"]) != set(src.fs):
                    if rng.random() < .5:
                        kw["frequencies"] = FREQ(sorted(r["fs"]))
                    else:
                        kw["freq_chans"] = [list(src.fs).index(f) for f in sorted(r["fs"])]
                if op == "read":
                    m = check(hc.read(**kw), new, f"read({kw})", hc)
                else:
                    hc.select(**kw)
                    # (looking at the result is optional: what the object holds must be right either way)
                    m = check(hc.build_calcontainers(), new, f"select({kw})", hc) if rng.random() < .5 else None
            elif op == "update":
                (t0, t1), (f0, f1) = e["t"], e["f"]
                keys = [tuple(x) for x in e["aps"]]
                src, name = {"g": (new.g, "gains"), "f": (new.f, "flags"), "q": (new.q, "quals"), "tq": (new.tq, "total_qual")}[e["k"]]
                ks = sorted({k[1] for k in keys}) if e["k"] == "tq" else keys
                dd = {k: src[k][t0 - 1:t1, f0 - 1:f1].copy() for k in ks}
                kw = {name: dd}
                if not (e["whole"] and rng.random() < .7):
                    kw.update(tSlice=slice(t0 - 1, t1), fSlice=slice(f0 - 1, f1))
                hc.update(**kw)
                m = check(hc.build_calcontainers(), new, f"update({name}, {ks}, rows {t0}-{t1}, channels {f0}-{f1})", hc)
            elif op in ("write", "spoof"):
                before = hc.build_calcontainers()
                hc.write(newpath, spoof_missing_channels=op == "spoof", clobber=True)
                m = check(hc.build_calcontainers(), ex, f"in memory after {op}", hc)
            elif op == "writecal":
                aps = [tuple(x) for x in e["aps"]]
                rng.shuffle(aps)
                sub = lambda dct: {k: dct[k].copy() for k in aps}
                io.write_cal(newpath, sub(ex.g), FREQ(ex.fs), TIME(ex.ts), antpos=antpos, flags=sub(ex.f), quality=sub(ex.q) if ex.hasq else None,
                             total_qual=copy.deepcopy(ex.tq) if ex.hastq else None, outdir="/", overwrite=True, return_uvc=False)
                m = None
            elif op == "combine":
                pa, pb = os.path.join(d, f"m{n}_{i}.calfits"), os.path.join(d, f"s{n}_{i}.calfits")
                for pp, src in ((pa, ex), (pb, Ex(e["second"]))):
                    if rng.random() < .5:  # what a flagged gain holds does not matter
                        src = copy.copy(src)
                        src.g = {k: np.where(src.f[k], rng.choice([0, 5j]), v) for k, v in src.g.items()}
                    put(pp, src, rng, antpos, shuffle=False)
                utils.combine_calfits([pa, pb], newpath, outdir="/", overwrite=True, broadcast_flags=e["bc"], verbose=False)
                m = None
            if not m and op in ("write", "spoof", "writecal", "combine"):
                path = newpath
                m = readers(path, new, rng, d, f"{n}_{i}", antpos)
                # update_cal: rewriting some antennas of the file into another leaves the rest as it was
                if not m and rng.random() < .4:
                    ks = rng.sample(sorted(new.g), rng.randint(1, len(new.g)))
                    o = os.path.join(d, f"u{n}_{i}.calfits")
                    io.update_cal(path, o, gains={k: new.g[k] * 2 for k in ks}, flags={k: ~new.f[k] for k in ks}, clobber=True)
                    e2 = copy.copy(new)
                    e2.g = {k: v * (2 if k in ks else 1) for k, v in new.g.items()}
                    e2.f = {k: (~v if k in ks else v) for k, v in new.f.items()}
                    h2 = HERACal(o)
                    m = check(h2.read(), e2, f"update_cal({ks})", h2)
                hc = HERACal(path)
                hc.read()
                dsk = new
        except Exception as ex_:
            import traceback
            return i, op, f"{op} {str(e)[:300]} raised {type(ex_).__name__}: {ex_} {traceback.format_exc(limit=-2)}"
        if m:
            return i, op, m
        ex = new
    return None


def checks(chk):
    runs = [("0,1,2", 3, 4, '{"Jnn"},{"Jee"},{"Jee","Jnn"}', 5, chk.n(150, 2500)), ("1,5,10,11", 4, 5, '{"Jee","Jnn"}', 8, chk.n(70, 1000))]
    d = os.path.join(chk.scratch, "io")
    os.makedirs(d)
    for ants, nt, nf, ps, depth, num in runs:
        traces, _ = chk.tlc("CalFile", CFG % (ants, nt, nf, ps, depth), mode="sim", num=num, depth=depth + 3)
        al = synth.antpos_line([int(a) for a in ants.split(",")])
        for t, r in zip(traces, chk.pmap(lambda t, rng, i, d: replay(t, rng, d, i, al), traces, tag=ants)):
            chk.traces += 1
            chk.ran(len(t))
            if r:
                chk.fail(r[1], f"step {r[0]}: {r[2]}", t[:r[0] + 1])
        chk.sample(traces[0][0])
        last = traces[-1]
    if not chk.viol:
        bad = copy.deepcopy(last)
        bad[0]["st"]["v"][0]["g"][0][0] = [7]
        i0 = copy.deepcopy(bad)
        i0[0] = bad[0]
        put(os.path.join(d, "x.calfits"), Ex(last[0]["st"]), chk.rng, al)
        hc = HERACal(os.path.join(d, "x.calfits"))
        assert check(hc.read(), Ex(bad[0]["st"]), "x") is not None
        chk.binding.append("a state with one gain factor altered is rejected")


if __name__ == "__main__":
    main("C08", checks, assumptions=["2-4 antennas, <=4 integrations, <=5 channels, 1-2 Jones polarizations, histories of <=8 operations; calfits only; pyuvdata is trusted; combine only for files of the same layout"])
