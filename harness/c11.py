"""C11: division of work among jobs / chunks, chunked files, and reassembly of time files from baseline files."""
import copy
import os
import warnings
import numpy as np
warnings.simplefilter("ignore")
from vlib import main, run_isolated
import synth
from synth import TIME, FREQ, canon
from hera_cal import io, utils, chunker, vis_clean, redcal

NF = 3
CONST = "CONSTANTS\n Ants = {%s}\n MaxFiles = %d\n NF = 3\n"
GEN = "INIT GInit\nNEXT GNext\nINVARIANT ChunksCover\n"


def val(k, t, f):
    c = canon(k)
    v = complex(1 + c[0] * 7 + c[1] * 13 + t * 3 + f * 101 + sum(map(ord, c[2])) * 5, 0 if c[0] == c[1] and c[2] in ("nn", "ee") else c[0] + 2 * c[1] + t + 1)
    return v if c == tuple(k) else v.conjugate()


def flg(k, t, f):
    c = canon(k)
    return (c[0] * 5 + c[1] * 3 + t * 7 + f + ord(c[2][0])) % 4 == 0


def nsm(k, t, f):
    c = canon(k)
    return float((c[0] + c[1] + t + f) % 5 + 1)


def arr(fn, k, ts, fs):
    return np.array([[fn(k, t, f) for f in fs] for t in ts])


def write(fn, pairs, pols, ts, fs, pos, tf, w=None):
    g = dict(data=val, flags=flg, nsamples=nsm)
    synth.make_uvd(pairs, pols, TIME(np.array(ts)), FREQ(np.array(fs)), w or (lambda kind, k: arr(g[kind], k, ts, fs)), pos, time_fast=tf).write_uvh5(fn, clobber=True)


def compare(fn, pairs, pols, ts, fs, what, absent=()):
    hd = io.HERAData(fn)
    d, f, n = hd.read()
    if not np.allclose(hd.times, TIME(np.array(ts)), rtol=0, atol=1e-8) if len(hd.times) == len(ts) else True:
        return f"{what}: times {hd.times} expected {TIME(np.array(ts))}"
    if len(hd.freqs) != len(fs) or not np.allclose(hd.freqs, FREQ(np.array(fs)), rtol=0, atol=1):
        return f"{what}: {len(hd.freqs)} channels {hd.freqs}, expected {fs}"
    want = {canon(p + (q,)) for p in pairs for q in pols}
    got = {canon(k) for k in d}
    if want != got or len(d.keys()) != len(set(map(tuple, map(sorted, pairs)))) * len(pols):
        return f"{what}: baselines {sorted(got)}, expected {sorted(want)}"
    for k in d:
        miss = k[:2] in absent or k[1::-1] in absent
        wd, wf, wn = (arr(x, k, ts, fs) for x in (val, flg, nsm))
        if miss:
            wd, wf, wn = wd * 0, np.ones_like(wf), wn * 0
        for nm, a, b in (("data", d[k], wd), ("flags", f[k], wf), ("nsamples", n[k], wn)):
            if a.shape != b.shape or not np.allclose(a, b):
                return f"{what}: {nm} of {k} are {a.tolist()}, specification says {b.tolist()}"
    return None


def replay(rec, rng, idx, d):
    plan = rec["plan"]
    pols = sorted(plan["pols"], key=["nn", "ee", "ne", "en"].index)
    bpols = [p for p in pols if p in plan["bpols"]]
    pairs = sorted(map(tuple, plan["pairs"]))
    pos = {a: np.array([14.6 * a, 3. * (a % 2), 0.]) for a in range(6)}
    fs, bfs = list(range(NF)), list(range(plan["lo"] - 1, plan["hi"]))
    fns = []
    for j, ts in enumerate(rec["times"]):
        o = list(pairs)
        rng.shuffle(o)
        fn = os.path.join(d, f"zen.{1000 + j}.uvh5")
        write(fn, o, pols, ts, fs, pos, rng.random() < .5)
        fns.append(fn)
    out = []
    # ---- division among jobs
    shares = []
    for fn in fns:
        r = run_isolated(io.baselines_from_filelist_position, fn, list(fns))
        if r[0] == "err":
            return out, ("jobs-raised", f"baselines_from_filelist_position raised {r[1:]}")
        shares.append([tuple(int(x) for x in p) for p in r[1]])
    out.append(dict(kind="jobs", all=[list(p) for p in pairs], parts=[[list(p) for p in s] for s in shares]))
    assigned = {tuple(sorted(p)) for s in shares for p in s}
    if assigned != {tuple(sorted(p)) for p in pairs}:
        return out, None     # judged by TLC
    # ---- every job writes its share over the whole night, then each time file is put together again
    allt = [t for ts in rec["times"] for t in ts]
    bfns, absent = [], set()
    for j, s in enumerate(shares):
        if not s:
            continue
        if j + 1 in plan["missing"]:
            absent |= set(s)
            continue
        hd = io.HERAData(fns)
        hd.read(bls=s, frequencies=FREQ(np.array(bfs)), polarizations=bpols, axis="blt")
        bf = os.path.join(d, f"bl.{j}.uvh5")
        hd.write_uvh5(bf, clobber=True)
        bfns.append(bf)
    if bfns and len(allt) > 1:
        order = list(bfns)
        rng.shuffle(order)
        for j, fn in enumerate(fns):
            o = os.path.join(d, f"re.{j}.uvh5")
            r = run_isolated(vis_clean.time_chunk_from_baseline_chunks, fn, order, o)
            what = f"time_chunk_from_baseline_chunks(file {j} of {[len(x) for x in rec['times']]}, shares {shares}, missing {plan['missing']})"
            if r[0] == "err":
                return out, ("reassemble-raised", f"{what} raised {r[1:]}")
            e = compare(o, pairs, bpols, rec["times"][j], bfs, what, absent)
            if e:
                return out, ("reassemble", e)
        # by time bounds (the baseline files' own times, each in exactly one output)
        if all(len(x) > 1 for x in rec["times"]) and not absent:
            q = .25 + rng.choice([0, -.5])
            bfn2 = []
            for j, s in enumerate(s for s in shares if s):
                bf = os.path.join(d, f"avg.{j}.uvh5")
                g = dict(data=val, flags=flg, nsamples=nsm)
                synth.make_uvd(s, bpols, TIME(np.array(allt) + q), FREQ(np.array(bfs)), lambda kind, k: arr(g[kind], k, allt, bfs), pos).write_uvh5(bf, clobber=True)
                bfn2.append(bf)
            seen = []
            for j, fn in enumerate(fns):
                o = os.path.join(d, f"tb.{j}.uvh5")
                r = run_isolated(vis_clean.time_chunk_from_baseline_chunks, fn, bfn2, o, time_bounds=True)
                if r[0] == "err":
                    return out, ("bounds-raised", f"time_bounds reassembly raised {r[1:]}")
                if not os.path.exists(o):
                    return out, ("bounds", f"time_bounds reassembly of file {j} wrote nothing")
                hd = io.HERAData(o)
                dd, ff, nn = hd.read()
                ti = [int(round((t - TIME(q)) / synth.DT)) for t in hd.times]
                if ti != rec["times"][j]:
                    return out, ("bounds", f"time_bounds reassembly of file {j} (times {rec['times'][j]}) holds times {ti}")
                for k in dd:
                    if not np.allclose(dd[k], arr(val, k, ti, bfs)) or not np.array_equal(ff[k], arr(flg, k, ti, bfs)):
                        return out, ("bounds", f"time_bounds reassembly: wrong data for {k}")
                if {tuple(sorted(k[:2])) for k in dd} != assigned:
                    return out, ("bounds", f"time_bounds reassembly lacks baselines: {sorted(dd)}")
    # ---- chunking files
    gz = {(a, p): None for a in range(3) for p in ("Jnn", "Jee")}
    cfns = []
    for j, ts in enumerate(rec["times"]):
        g = {k: np.array([[complex(k[0] * 10 + t, f + 1) for f in fs] for t in ts]) for k in gz}
        fl = {k: np.array([[(k[0] + t + f) % 3 == 0 for f in fs] for t in ts]) for k in gz}
        q = {k: np.zeros((len(ts), NF)) for k in gz}
        fn = os.path.join(d, f"zen.{1000 + j}.calfits")
        synth.make_uvc([0, 1, 2], ["Jnn", "Jee"], TIME(np.array(ts)), FREQ(np.array(fs)), g, fl, q, antpos=pos).write_calfits(fn, clobber=True)
        cfns.append(fn)
    lf, lc = list(fns), list(cfns)
    rng.shuffle(lf)
    rng.shuffle(lc)
    for c in rec["chunks"]:
        o = os.path.join(d, f"chunk.{c['start']}.uvh5")
        kw = dict(spw_range=(plan["lo"] - 1, plan["hi"]), polarizations=bpols) if len(bfs) < NF or len(bpols) < len(pols) else {}
        keep = list(lf)
        r = run_isolated(chunker.chunk_files, lf, fns[c["start"] - 1], o, plan["csize"], **kw)
        what = f"chunk_files({len(fns)} files, start {c['start']}, size {plan['csize']}, {kw})"
        if r[0] == "err":
            return out, ("chunk-raised", f"{what} raised {r[1:]}")
        if lf != keep:
            return out, ("chunk-arg", f"{what} modified the list of files it was given")
        e = compare(o, pairs, bpols if kw else pols, c["times"], bfs if kw else fs, what)
        if e:
            return out, ("chunk", e)
        o = os.path.join(d, f"chunk.{c['start']}.calfits")
        r = run_isolated(chunker.chunk_files, lc, cfns[c["start"] - 1], o, plan["csize"], type="gains")
        if r[0] == "err":
            return out, ("chunk-raised", f"gains: {what} raised {r[1:]}")
        hc = io.HERACal(o)
        g, fl, _, _ = hc.read()
        if len(hc.times) != len(c["times"]) or not np.allclose(hc.times, TIME(np.array(c["times"])), rtol=0, atol=1e-8):
            return out, ("chunk", f"gains: {what}: times {hc.times}")
        for k in gz:
            if not np.allclose(g[k], [[complex(k[0] * 10 + t, f + 1) for f in fs] for t in c["times"]]) or not np.array_equal(fl[k], [[(k[0] + t + f) % 3 == 0 for f in fs] for t in c["times"]]):
                return out, ("chunk", f"gains: {what}: wrong gains or flags for {k}")
    return out, None


def group_chunks(chk):
    recs = []
    for _ in range(chk.n(400, 5000)):
        n, gs, nxt = chk.rng.randint(1, 7), [], 1
        for _ in range(n):
            k = chk.rng.randint(1, 5)
            gs.append(list(range(nxt, nxt + k)))
            nxt += k
        mx = chk.rng.randint(1, 9)
        bl = lambda i: (0, i, "nn")
        arg = [[bl(i) for i in g] for g in gs]
        r = run_isolated(utils.chunk_baselines_by_redundant_groups, arg, mx)
        if r[0] == "err":
            chk.fail("groups-raised", f"chunk_baselines_by_redundant_groups({gs}, {mx}) raised {r[1:]}")
            continue
        recs.append(dict(kind="groups", groups=gs, max=mx, chunks=[[b[1] for b in c] for c in r[1]], after=[[b[1] for b in g] for g in arg]))
    return recs


def many_jobs(chk):
    """baseline/job counts beyond what files are written for: the division only needs hd.bls"""
    recs = []
    class HD:
        def __init__(self, fn, *a, **k):
            self.bls = [tuple(p) + (q,) for p in ORD[fn] for q in ("nn", "ee")]
            self.filepaths, self.pols = [fn], ["nn", "ee"]
            self.antpairs = list(ORD[fn])
    real = io.HERAData
    for _ in range(chk.n(300, 4000)):
        n, J = chk.rng.randint(1, 40), chk.rng.randint(1, 45)
        ps = [(a, b) for a in range(12) for b in range(a, 12)]
        chk.rng.shuffle(ps)
        ps = [p if chk.rng.random() < .7 else p[::-1] for p in ps[:n]]
        ORD = {}
        names = [f"f{j}" for j in range(J)]
        for nm in names:
            o = list(ps)
            chk.rng.shuffle(o)
            ORD[nm] = o
        io.HERAData = HD
        try:
            r = run_isolated(lambda: [io.baselines_from_filelist_position(nm, list(names)) for nm in names])
        finally:
            io.HERAData = real
        if r[0] == "err":
            raise_ = r
            continue     # the stand-in lacks something the code needs; the file-based traces decide
        recs.append(dict(kind="jobs", all=[list(p) for p in ps], parts=[[[int(x) for x in p] for p in s] for s in r[1]]))
    chk.extra["many_jobs"] = len(recs)
    return recs


def check(chk):
    plans, _ = chk.tlc("WorkPartition", GEN + CONST % ("0,1,2,3", 5), mode="sim", num=chk.n(84, 1200), depth=4, env={"TRACE": "/dev/null"})
    recs = []
    for p, r in zip(plans, chk.pmap(replay, plans)):
        if r is None:
            continue
        chk.traces += 1
        chk.ran(3)
        recs += r[0]
        if r[1]:
            chk.fail(r[1][0], r[1][1], p)
    recs += group_chunks(chk) + many_jobs(chk)
    chk.ran(len(recs))
    for rec, v in chk.validate("WorkPartition", recs, consts=CONST % ("0,1", 1)):
        chk.fail(f"{rec['kind']}-{v}", f"{rec['kind']}: {v}: {rec}", rec)
    chk.sample(plans[0])
    chk.sample(recs[0])
    if not chk.viol:
        bad = [dict(kind="jobs", all=[[0, 1], [0, 2]], parts=[[[0, 1]], []]), dict(kind="groups", groups=[[1, 2], [3]], max=2, chunks=[[1], [2, 3]], after=[[1, 2], [3]])]
        assert len(chk.validate("WorkPartition", bad, consts=CONST % ("0,1", 1))) == 2
        chk.traces -= 2
        chk.binding.append("a division that loses a baseline and one that splits a group are rejected by the specification")


if __name__ == "__main__":
    main("C11", check, assumptions=["up to 5 files of 1-3 integrations, 9 baselines on disk; up to 45 jobs and 40 baselines for the division alone"])
