"""C07: visibility files round-trip; partial reads, updates, the fast reader."""
import copy
import os
import itertools
import warnings
import numpy as np
warnings.simplefilter("ignore")
from vlib import main
import synth
from synth import TIME, FREQ, canon, rev, CONJ
from hera_cal import io
from hera_cal.datacontainer import DataContainer
from hera_cal.io import HERAData, HERADataFastReader

CFG = """INIT Init
NEXT Next
INVARIANTS Shape Faithful
PROPERTY OnlyWriteChangesDisk
CONSTANTS
 Ants = {%s}
 NT = %d
 NF = %d
 PolSets = {%s}
 Depth = %d
"""
_id = {}


def cell(kind, k, t, f, v):
    """value of one cell in the orientation of k"""
    c = canon(k)
    n = _id.setdefault(c, len(_id))
    h = (n * 7 + t * 31 + f * 57 + v * 101)
    if kind == "flags":
        return (h * 2654435761 >> 7) % 3 == 0
    if kind == "nsamples":
        return float((h * 40503 >> 3) % 29)
    re, im = (h * 48271) % 251 + 1, (h * 69621) % 257 - 128
    if c[0] == c[1] and c[2] in ("nn", "ee"):
        return complex(re)
    return complex(re, im if tuple(k) == c else -im)


def wf(kind, k, ts, fs, mat):
    dt = {"data": complex, "flags": bool, "nsamples": float}[kind]
    return np.array([[cell(kind, k, t, f, mat[i][j]) for j, f in enumerate(fs)] for i, t in enumerate(ts)], dtype=dt).reshape(len(ts), len(fs))


class Expect:
    def __init__(self, st):
        self.ts, self.fs = st["ts"], st["fs"]
        self.v = {tuple(x["k"]): x["q"] for x in st["v"]}
        self.pairs = {tuple(p) for p in st["pairs"]}
        self.pols = set(st["pols"])

    def restrict(self, pairs=None, pols=None, ts=None, fs=None):
        """the specification's Restrict, for probing several selections from one state"""
        o = Expect.__new__(Expect)
        o.pairs = self.pairs if pairs is None else set(pairs)
        o.pols = self.pols if pols is None else set(pols)
        o.ts = self.ts if ts is None else sorted(ts)
        o.fs = self.fs if fs is None else sorted(fs)
        ii, jj = [list(self.ts).index(t) for t in o.ts], [list(self.fs).index(f) for f in o.fs]
        o.v = {k: {q: [[m[i][j] for j in jj] for i in ii] for q, m in x.items()} for k, x in self.v.items() if k[:2] in o.pairs and k[2] in o.pols}
        return o

    def w(self, kind, k):
        return wf(kind, k, self.ts, self.fs, self.v[tuple(k)][kind])


def check_dcs(dcs, ex, what, meta=True, kinds=("data", "flags", "nsamples"), keys=None):
    keys = set(ex.v) if keys is None else keys
    for kind, dc in zip(("data", "flags", "nsamples"), dcs):
        if kind not in kinds:
            continue
        if set(dc.keys()) != keys:
            return f"{what}: {kind} has baselines {sorted(set(dc.keys()))}, expected {sorted(keys)}"
        for k in keys:
            w = ex.w(kind, k)
            if dc[k].shape != w.shape or not np.array_equal(np.asarray(dc[k]), w):
                return f"{what}: {kind} of {k} is {np.asarray(dc[k]).tolist()}, expected {w.tolist()}"
        if meta:
            if len(dc.times) != len(ex.ts) or not np.allclose(dc.times, TIME(ex.ts), rtol=0, atol=1e-9):
                return f"{what}: times {list(dc.times)} expected {list(TIME(ex.ts))}"
            if len(dc.freqs) != len(ex.fs) or not np.allclose(dc.freqs, FREQ(ex.fs)):
                return f"{what}: freqs {list(dc.freqs)}"
            if len(dc.lsts) != len(ex.ts):
                return f"{what}: {len(dc.lsts)} lsts"
            prs = {k[:2] for k in keys}
            for nm, ref in (("times_by_bl", dc.times), ("lsts_by_bl", dc.lsts)):
                d = getattr(dc, nm)
                for p in prs | {p[::-1] for p in prs}:
                    if p not in d or len(d[p]) != len(ref) or not np.allclose(d[p], ref, rtol=0, atol=1e-9):
                        return f"{what}: {nm}[{p}] missing or different from the time axis"
            da = {a for p in prs for a in p}
            if what.startswith("fast") is False and (set(dc.data_ants) != da or set(dc.data_antpos) != da):
                return f"{what}: data_ants {list(dc.data_ants)}, expected {sorted(da)}"
    return None


def request(r, ex, rng, lst_of):
    kw = {}
    flip = lambda p: p if rng.random() < .7 else p[::-1]
    if r["how"] == "pairs":
        kw["bls"] = [flip(tuple(p)) for p in r["pairs"]]
    elif r["how"] == "bls":
        # name enough (pair, pol) combinations that every pair and every pol is named at least once
        prs, pls = [tuple(p) for p in r["pairs"]], list(r["pols"])
        combos = set()
        for i in range(max(len(prs), len(pls))):
            combos.add(prs[i % len(prs)] + (pls[i % len(pls)],))
        kw["bls"] = [k if rng.random() < .7 or k[0] == k[1] else rev(k) for k in sorted(combos)]
        rng.shuffle(kw["bls"])
    elif r["how"] == "pols":
        kw["polarizations"] = rng.sample(r["pols"], len(r["pols"]))
    ts = sorted(r["ts"])
    if ts != list(ex.ts):
        cont = [t for t in ex.ts if ts[0] <= t <= ts[-1]] == ts
        m = rng.random()
        if cont and m < .3:
            kw["time_range"] = [TIME(ts[0]) - 1e-6, TIME(ts[-1]) + 1e-6]
        elif cont and m < .6:
            kw["lst_range"] = [lst_of[ts[0]] - 1e-5, lst_of[ts[-1]] + 1e-5]
        else:
            kw["times"] = TIME(ts)
    fs = sorted(r["fs"])
    if fs != list(ex.fs):
        if rng.random() < .5:
            kw["frequencies"] = FREQ(fs)
        else:
            kw["freq_chans"] = [list(ex.fs).index(f) for f in fs]
    return kw


def layout(ex, rng):
    pairs, pols = sorted(ex.pairs, key=lambda p: rng.random()), sorted(ex.pols, key=lambda p: rng.random())
    return pairs, pols


def write_file(path, ex, rng, ants, ts=None):
    pairs, pols = layout(ex, rng)
    ts = ex.ts if ts is None else ts
    ii = [list(ex.ts).index(t) for t in ts]
    uvd = synth.make_uvd(pairs, pols, TIME(ts), FREQ(ex.fs), lambda kind, k: ex.w(kind, k)[ii], synth.antpos_line(ants), time_fast=rng.random() < .5)
    uvd.write_uvh5(path, clobber=True)


def readers_agree(path, ex, rng, d, ants, n):
    """ordinary and fast reader, one file and several, whole and partial requests, on what disk must hold"""
    hd = HERAData(path)
    m = check_dcs(hd.read(), ex, "full read")
    if m:
        return m
    if {tuple(map(int, p)) for p in hd.antpairs} != ex.pairs or set(hd.pols) != ex.pols:
        return f"metadata: antpairs {hd.antpairs} pols {hd.pols}"
    fr = HERADataFastReader(path)
    if {tuple(map(int, p)) for p in fr.antpairs} != ex.pairs or set(fr.pols) != ex.pols or set(fr.bls) != set(ex.v) or set(map(int, fr.ants)) != set(map(int, hd.ants)):
        return f"fast metadata: {fr.antpairs} {fr.pols}"
    for a in hd.antpos:
        if not np.allclose(hd.antpos[a], fr.antpos[a], atol=1e-6):
            return f"fast metadata: position of antenna {a}"
    if set(fr.data_ants) != set(hd.data_ants) or not np.allclose(fr.times, hd.times, rtol=0, atol=1e-9) or not np.allclose(fr.lsts, hd.lsts, atol=1e-6):
        return "fast metadata: data_ants / times / lsts differ from the ordinary reader"
    keys = sorted(ex.v)
    mode = rng.choice(["all", "bls3", "bls2", "pols"])
    kw, want = {}, set(keys)
    if mode == "bls3":
        sel = rng.sample(keys, rng.randint(1, len(keys)))
        kw, want = dict(bls=sel), set(sel)
    elif mode == "bls2":
        sel = rng.sample(sorted(ex.pairs), rng.randint(1, len(ex.pairs)))
        kw, want = dict(bls=sel), {k for k in keys if k[:2] in sel}
        if rng.random() < .5:
            pl = rng.sample(sorted(ex.pols), rng.randint(1, len(ex.pols)))
            kw["pols"], want = pl, {k for k in want if k[2] in pl}
    elif mode == "pols":
        pl = rng.sample(sorted(ex.pols), rng.randint(1, len(ex.pols)))
        kw, want = dict(pols=pl), {k for k in keys if k[2] in pl}
    kw["full_read_thresh"] = rng.choice([0.002, 2.0])
    m = check_dcs(fr.read(**copy.deepcopy(kw)), ex, f"fast read({kw})", keys=want)
    if m:
        return m
    # the same content split in time over several files, each with its own order of baselines and polarizations
    if len(ex.ts) > 1:
        cut = rng.randint(1, len(ex.ts) - 1)
        p1, p2 = os.path.join(d, f"a{n}.uvh5"), os.path.join(d, f"b{n}.uvh5")
        write_file(p1, ex, rng, ants, ex.ts[:cut])
        write_file(p2, ex, rng, ants, ex.ts[cut:])
        paths = [p1, p2] if rng.random() < .5 else [p2, p1]
        m = check_dcs(HERADataFastReader(paths).read(**copy.deepcopy(kw)), ex, f"fast read of two files({kw})", keys=want)
        if m:
            return m
        m = check_dcs(HERAData([p1, p2]).read(), ex, "read of two files")
        if m:
            return m
    return None


def replay(t, rng, d, n, ants):
    ex = Expect(t[0]["st"])
    path = os.path.join(d, f"f{n}.uvh5")
    write_file(path, ex, rng, ants)
    lst0 = HERAData(path)
    lst_of = dict(zip(ex.ts, lst0.lsts))
    dsk = ex
    hd = HERAData(path)
    hd.read()
    m = readers_agree(path, ex, rng, d, ants, f"{n}i")
    if m:
        return 0, "readers", m
    for i, st in enumerate(t[1:], 1):
        e, op = st["e"], st["e"]["op"]
        new = Expect(st["st"])
        try:
            if op == "read":
                kw = request(e["r"], dsk, rng, lst_of)
                m = check_dcs(hd.read(**copy.deepcopy(kw)), new, f"read({kw})")
            elif op == "select":
                kw = request(e["r"], ex, rng, lst_of)
                if rng.random() < .5:
                    keep = check_dcs(hd.build_datacontainers(), ex, "before select")
                    hd2 = hd.select(inplace=False, **copy.deepcopy(kw))
                    m = keep or check_dcs(hd.build_datacontainers(), ex, f"original after select({kw}, inplace=False)")
                    hd = hd2
                else:
                    hd.select(**copy.deepcopy(kw))
                    m = None
                m = m or check_dcs(hd.build_datacontainers(), new, f"select({kw})")
            elif op == "update":
                ks = [tuple(k) for k in e["ks"]]
                (t0, t1), (f0, f1) = e["t"], e["f"]
                full = {k: wf(e["q"], k, ex.ts, ex.fs, [[e["v"]] * len(ex.fs)] * len(ex.ts)) for k in ks}
                if e["whole"]:
                    kw = {e["q"]: DataContainer(full)}
                else:
                    kw = {e["q"]: DataContainer({k: v[t0 - 1:t1, f0 - 1:f1] for k, v in full.items()}), "tSlice": slice(t0 - 1, t1), "fSlice": slice(f0 - 1, f1)}
                hd.update(**kw)
                m = check_dcs(hd.build_datacontainers(), new, f"update({e})")
            else:
                path = os.path.join(d, f"f{n}_{i}.uvh5")
                hd.write_uvh5(path, clobber=True)
                m = readers_agree(path, new, rng, d, ants, f"{n}_{i}")
                hd = HERAData(path)
                hd.read()
                dsk = new
        except Exception as ex_:
            import traceback
            return i, op, f"{op} {e} raised {type(ex_).__name__}: {ex_} {traceback.format_exc(limit=-2)}"
        if m:
            return i, op, m
        m = probe_selects(hd, new, rng, lst_of)
        if m:
            return i, "select", m
        # single waterfalls in either orientation
        for k in rng.sample(sorted(new.v), min(3, len(new.v))):
            for kk, w in ((k, new.w("data", k)), (rev(k), np.conj(new.w("data", k)))):
                got = hd._get_slice(hd.data_array, kk)
                if not np.array_equal(got, w):
                    return i, "getitem", f"waterfall {kk} differs from the specification"
        ex = new
    return None


def probe_selects(hd, ex, rng, lst_of):
    """every way of naming a selection, from one state, each on its own copy"""
    sub = lambda S: rng.sample(sorted(S), rng.randint(1, len(S)))
    a = rng.randrange(len(ex.ts))
    b = rng.randrange(a, len(ex.ts))
    ts = list(ex.ts)[a:b + 1]
    prs, pls, fs = sub(ex.pairs), sub(ex.pols), sorted(sub(ex.fs))
    lo, hi = lst_of[ts[0]], lst_of[ts[-1]]
    probes = [(dict(times=TIME(ts)), dict(ts=ts)), (dict(time_range=[TIME(ts[0]) - 1e-6, TIME(ts[-1]) + 1e-6]), dict(ts=ts)),
              (dict(lst_range=[lo - 1e-5, hi + 1e-5]), dict(ts=ts)), (dict(lsts=np.array([lst_of[t] for t in ts])), dict(ts=ts)),
              (dict(bls=[p if rng.random() < .6 else p[::-1] for p in prs]), dict(pairs=prs)),
              (dict(polarizations=pls), dict(pols=pls)), (dict(freq_chans=[list(ex.fs).index(f) for f in fs]), dict(fs=fs)),
              (dict(frequencies=FREQ(fs)), dict(fs=fs))]
    an = sub({x for p in ex.pairs for x in p})
    keep = [p for p in ex.pairs if set(p) <= set(an)]
    if keep:
        probes.append((dict(antenna_nums=an), dict(pairs=keep)))
    for kw, r in probes:
        h2 = copy.deepcopy(hd)
        h2.select(**kw)
        m = check_dcs(h2.build_datacontainers(), ex.restrict(**r), f"select({kw})")
        if m:
            return m
    return None


def write_vis_check(chk, rng, d, n):
    """write_vis of containers: everything comes back, including units and integration time"""
    pairs = [(0, 1), (2, 0), (1, 1)][:rng.randint(1, 3)]
    pols = rng.sample(["nn", "ee", "ne", "en"], rng.randint(1, 2)) if rng.random() < .5 else ["ee", "nn"]
    if len(pols) and {"ne", "en"} & set(pols):
        pairs = [p for p in pairs if p[0] != p[1]]
    ts, fs = list(range(rng.randint(1, 3) + 1)), list(range(rng.randint(1, 4)))
    z = [[0] * len(fs)] * len(ts)
    D, F, N = ({k: wf(kind, k, ts, fs, z) for k in [p + (q,) for p in pairs for q in pols]} for kind in ("data", "flags", "nsamples"))
    antpos = synth.antpos_line([0, 1, 2])
    path = f"wv{n}.uvh5"
    lsts = np.linspace(1, 1.1, len(ts))
    units, tint = rng.choice(["uncalib", "Jy"]), rng.choice([None, 8.0])
    io.write_vis(path, DataContainer(D), lsts, FREQ(fs), antpos, time_array=TIME(ts), flags=DataContainer(F), nsamples=DataContainer(N), filetype="uvh5",
                 outdir=d, overwrite=True, verbose=False, vis_units=units, integration_time=tint)
    hd = HERAData(os.path.join(d, path))
    a, b, c = hd.read()
    for nm, got, want in (("data", a, D), ("flags", b, F), ("nsamples", c, N)):
        if set(got.keys()) != set(want):
            return f"write_vis: {nm} baselines {sorted(got.keys())} expected {sorted(want)}"
        for k in want:
            if not np.array_equal(got[k], want[k]):
                return f"write_vis: {nm} of {k} differ"
    if hd.vis_units != units:
        return f"write_vis(vis_units={units}) wrote {hd.vis_units}"
    if tint is not None and not np.allclose(hd.integration_time, tint):
        return f"write_vis(integration_time={tint}) wrote {hd.integration_time[0]}"
    for k in antpos:
        if not np.allclose(hd.antpos[k] - hd.antpos[0], antpos[k] - antpos[0], atol=1e-3):
            return "write_vis: antenna positions differ"
    return None


def check(chk):
    P4 = '{"nn"},{"ee"},{"nn","ee"},{"nn","ee","ne","en"}'
    runs = [("0,1,2", 3, 3, P4, 4, chk.n(80, 1500)), ("1,2,5,10", 3, 5, P4, 6, chk.n(35, 700)), ("0,1", 2, 4, '{"nn","ee","ne","en"},{"ee","nn"}', 3, chk.n(25, 500))]
    d = os.path.join(chk.scratch, "io")
    os.makedirs(d)
    for ants, nt, nf, ps, depth, num in runs:
        traces, _ = chk.tlc("VisFile", CFG % (ants, nt, nf, ps, depth), mode="sim", num=num, depth=depth + 3)
        al = [int(a) for a in ants.split(",")]
        for t, r in zip(traces, chk.pmap(lambda t, rng, i, d: replay(t, rng, d, i, al), traces, tag=ants)):
            chk.traces += 1
            chk.ran(len(t))
            if r:
                chk.fail(r[1], f"step {r[0]}: {r[2]}", t[:r[0] + 1])
        chk.sample(traces[0][0])
        last = traces[-1]
    for m in chk.pmap(lambda _, rng, i, d: write_vis_check(chk, rng, d, i), range(chk.n(40, 400)), tag="wv"):
        chk.ran()
        if m:
            chk.fail("write_vis", m)
    if not chk.viol:
        bad = copy.deepcopy(last)
        bad[-1]["st"]["v"][0]["q"]["nsamples"][0][0] += 1
        assert replay(bad, chk.rng, d, "bad", al) is not None
        chk.binding.append("a behaviour with one stored version altered is rejected")


if __name__ == "__main__":
    main("C07", check, assumptions=["2-4 antennas, <=3 integrations, <=5 channels, 1-4 polarizations, histories of <=6 operations; uvh5 only; pyuvdata is trusted"])
