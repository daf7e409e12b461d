"""C06: calibrating a file chunk by chunk == in one go; iteration visits every datum with the value of a full read."""
import copy
import os
import warnings
import numpy as np
warnings.simplefilter("ignore")
from vlib import main, run_isolated
import synth
from synth import TIME, FREQ, canon, rev, ants_of
from hera_cal import apply_cal, io

NT, NF = 2, 4
CFG = """INIT Init
NEXT Next
INVARIANTS PartialEqualsFull NeverMore InputFlagsKept
CONSTANTS
 Ants = {%s}
 NT = 2
 NF = 4
 PolSets = {%s}
"""
POS = lambda ants: {a: np.array([14.6 * ((a * 3) % 7), 0., 0.]) for a in ants}


def hsh(a, b, p, t, f, s):
    return (a * 31 + b * 17 + sum(map(ord, p)) * 5 + t * 11 + f * 7 + s * 13)


def vis(k, t, f):
    c = canon(k)
    x = hsh(c[0], c[1], c[2], t, f, 1)
    v = complex(x % 13 + 1, 0 if (c[0] == c[1] and c[2] in ("nn", "ee")) else (x * 5) % 11 - 4)
    return v if c == tuple(k) else v.conjugate()


def gain(s, a, t, f):
    x = hsh(a[0], 3, a[1], t, f, s)
    return complex(x % 7 + 1, x * 3 % 5 - 2) / 4


def wf(fn):
    return np.array([[fn(t, f) for f in range(1, NF + 1)] for t in range(1, NT + 1)])


def build(rec, d):
    """the input files the behaviour describes"""
    cfg = rec["cfg"]
    fl = {(canon(x[0]), x[1], x[2]) for x in ((tuple(y[0]), y[1], y[2]) for y in rec["flags"])}
    ns = {canon(tuple(x["k"])): x["n"] for x in rec["ns"]}
    pairs, pols = [tuple(p) for p in rec["order"]], rec["polorder"]

    def w(kind, k):
        if kind == "data":
            return wf(lambda t, f: vis(k, t, f))
        if kind == "flags":
            return wf(lambda t, f: (canon(k), t, f) in fl)
        return wf(lambda t, f: float(ns[canon(k)]))
    ants = rec["ants"]
    times, freqs = [TIME(t) for t in range(NT)], FREQ(np.arange(NF))
    fn = os.path.join(d, "in.uvh5")
    if not os.path.exists(fn):
        uvd = synth.make_uvd(pairs, pols, times, freqs, w, POS(ants), time_fast=rec["tf"])
        uvd.write_uvh5(fn, clobber=True)
    cc = sorted(cfg["calchans"])
    cf = {(tuple(x[0]), x[1], x[2]) for x in cfg["cflags"]}

    def cal(name, keys, s, withflags):
        aa = sorted({k[0] for k in keys})
        g = {(a, p): wf(lambda t, f: gain(s, (a, p), t, f))[:, [c - 1 for c in cc]] for a in aa for p in ("Jnn", "Jee")}
        fg = {(a, p): wf(lambda t, f: withflags and ((a, p), t, f) in cf)[:, [c - 1 for c in cc]].astype(bool) for a in aa for p in ("Jnn", "Jee")}
        q = {k: np.zeros_like(v, float) for k, v in g.items()}
        o = synth.make_uvc(aa, ["Jnn", "Jee"], times, freqs[[c - 1 for c in cc]], g, fg, q, antpos=POS(ants), gain_convention=cfg["conv"])
        o.write_calfits(os.path.join(d, name), clobber=True)
        return os.path.join(d, name)
    new = cal("new.calfits", [tuple(a) for a in cfg["gains"]], 11, True)
    old = cal("old.calfits", [tuple(a) for a in cfg["oldgains"]], 12, False) if cfg["old"] else None
    yml = None
    if cfg["useyaml"]:
        yml = os.path.join(d, "flags.yaml")
        with open(yml, "w") as f:
            f.write("data_source: x\nex_ants: [%s]\n" % ", ".join(str(a) for a in sorted(cfg["yaml"])))
    return fn, new, old, yml


def calib(k, cfg, want):
    """calibrated waterfall of key k"""
    (a, b), sg = ants_of(k), (-1 if cfg["conv"] == "divide" else 1)
    gs, og = {tuple(x) for x in cfg["gains"]}, {tuple(x) for x in cfg["oldgains"]}

    def one(t, f):
        v = vis(k, t, f)
        new = a in gs and b in gs
        old = (not cfg["old"]) or (a in og and b in og)
        if not (new and old):
            return v           # flagged; the value is not specified
        v *= (gain(11, a, t, f) * gain(11, b, t, f).conjugate()) ** sg
        if cfg["old"]:
            v *= (gain(12, a, t, f) * gain(12, b, t, f).conjugate()) ** (-sg)
        return v
    return wf(one), (a in gs and b in gs and ((not cfg["old"]) or (a in og and b in og)))


def fetch(out, pair, pol):
    dd, ff, nn = out
    k = (pair[0], pair[1], pol)
    return dd[k], ff[k], nn[k]


def compare(rec, outfile, how):
    cfg = rec["cfg"]
    hd = io.HERAData(outfile)
    dd, ff, nn = hd.read()
    ld = [f - 1 for f in sorted(rec["loaded"])]
    # channels of the output: the ones that were loaded, or all of them with the rest fully flagged
    fo = [int(round((f - synth.FREQ0) / synth.DF)) for f in hd.freqs]
    if not set(ld) <= set(fo):
        return "freqs", f"{how}: output channels {fo} lack some of {ld}"
    col = [fo.index(f) for f in ld]
    rest = [i for i, f in enumerate(fo) if f not in ld]
    if len(hd.times) != NT or not np.allclose(hd.times, [TIME(t) for t in range(NT)], rtol=0, atol=1e-9):
        return "times", f"{how}: output times {hd.times}"
    got_pairs = set(hd.get_antpairs())
    fl = lambda x: np.array(x, bool)[:, ld]
    for r in rec["out"]:
        if not cfg["avg"]:
            k = tuple(r["k"])
            if k[:2] not in got_pairs:
                return "missing", f"{how}: baseline {k[:2]} missing from the output {sorted(got_pairs)}"
            d, f, n = dd[k], ff[k], nn[k]
            want, full = calib(k, cfg, r)
            want, wf_, wn = want[:, ld], fl(r["f"]), r["ns"]
            cmp = np.ones(want.shape, bool) if full else ~wf_
            unit = np.zeros(want.shape, bool)
        else:
            members = [tuple(p) for p in r["pairs"]]
            kept = [p for p in got_pairs if p in members]
            if len(kept) != 1:
                return "groups", f"{how}: group {members} has {kept} in the output {sorted(got_pairs)}"
            num, den, anyun = 0, 0, False
            # bring members to the orientation of the kept baseline
            sep = lambda p: (p[1] * 3) % 7 - (p[0] * 3) % 7
            s0 = sep(kept[0])
            for w in r["wts"]:
                k = tuple(w["k"])
                v, full = calib(k, cfg, r)
                anyun |= (w["w"] != 0 and not full)
                num, den = num + v * w["w"], den + w["w"]
            want = num / max(den, 1e-10)
            rep = tuple(r["wts"][0]["k"])
            k = (kept[0] + (r["pol"],))
            sp = sep(rep)
            if sp != s0:
                # the specification names the other orientation: conjugate both value and polarization
                k = (kept[0][1], kept[0][0], r["pol"])
            d, f, n = dd[k], ff[k], nn[k]
            want, wf_, wn = np.asarray(want)[:, ld], fl(r["f"]), r["ns"]
            unit = fl(r["allf"])
            cmp = np.full(want.shape, not anyun)  # a member without a solution has no specified value
            want = np.where(unit, 1.0, want)
        d, dr, f, fr, n = d[:, col], d[:, rest], f[:, col], f[:, rest], n[:, col]
        if not np.array_equal(f, wf_):
            return "flags", f"{how}: flags of {k} are {f.astype(int).tolist()}, specification says {wf_.astype(int).tolist()}"
        if not np.allclose(n, wn):
            return "nsamples", f"{how}: nsamples of {k} are {n.tolist()}, specification says {wn}"
        if not np.allclose(np.where(cmp, d, 0), np.where(cmp, want, 0), rtol=1e-5, atol=1e-6):
            return "data", f"{how}: data of {k} are {d.tolist()}, specification says {want.tolist()}"
        if rest and not fr.all():
            return "unloaded", f"{how}: channels {[fo[i] for i in rest]} were not calibrated but are unflagged in the output"
    return None


def replay(rec, rng, i, d):
    rec = copy.deepcopy(rec)
    rec["order"] = sorted(map(tuple, rec["pairs"]))
    rng.shuffle(rec["order"])
    rec["polorder"] = sorted(rec["pols"], key=lambda p: {"nn": 0, "ee": 1, "ne": 2, "en": 3}[p])
    rec["ants"], rec["tf"] = ALLANTS, rng.random() < .5
    fn, new, old, yml = build(rec, d)
    cfg = rec["cfg"]
    kw = dict(old_calibration=old, a_priori_flags_yaml=yml, flag_nchan_low=cfg["low"], flag_nchan_high=cfg["high"], gain_convention=cfg["conv"],
              redundant_average=cfg["avg"], exclude_from_redundant_mode=cfg["mode"], clobber=True)
    if cfg["spw"]:
        kw["spw_range"] = (cfg["spw"][0] - 1, cfg["spw"][1])
    nk = len(rec["pairs"]) * len(rec["pols"])
    sizes = [None, rng.choice([1, nk + 3]), rng.randint(2, max(2, nk))]
    for nb in sizes:
        o = os.path.join(d, "out.uvh5")
        if os.path.exists(o):
            os.remove(o)
        r = run_isolated(apply_cal.apply_cal, fn, o, new, nbl_per_load=nb, **kw)
        how = f"apply_cal(nbl_per_load={nb}, avg={cfg['avg']}, old={cfg['old']}, spw={kw.get('spw_range')}, calchans={cfg['calchans']}, mode={cfg['mode']}, yaml={cfg['yaml']}, low={cfg['low']}, high={cfg['high']})"
        if r[0] == "err":
            return "raised", f"{how} raised {r[1]}: {r[2]}"
        e = compare(rec, o, how)
        if e:
            return e
    e = iterate(rec, rng, fn) or partial(rec, rng, fn, d)
    if e:
        return e
    e = filtered(rec, rng, fn, d)
    if e:
        return e
    if rng.random() < .6:
        fns = split(fn, rng, d)
        e = iterate(rec, rng, fns, fn)
    return e


def filtered(rec, rng, fn, d):
    """delay filtering acts on each baseline by itself: the chunk size must not matter"""
    from hera_cal import delay_filter
    cfg = rec["cfg"]
    kw = dict(mode="dpss_leastsq", standoff=50., horizon=1.0, min_dly=200., clobber=True, apply_flag_to_nsample=rng.random() < .5, factorize_flags=rng.random() < .3, time_thresh=.6,
              skip_wgt=rng.choice([0., .3]), verbose=False)
    if cfg["spw"] and cfg["spw"][1] - cfg["spw"][0] >= 2:
        kw["spw_range"] = (cfg["spw"][0] - 1, cfg["spw"][1])
    if len(cfg["calchans"]) == NF and {tuple(a) for a in cfg["gains"]} >= {(a, p) for a in ALLANTS for p in ("Jnn", "Jee")}:
        kw["calfile_list"] = os.path.join(d, "new.calfits")
    np_ = len(rec["pairs"])
    res = {}
    for nb in (None, rng.randint(1, max(1, np_ - 1))):
        outs = {x: os.path.join(d, f"{x}.{nb}.uvh5") for x in ("res", "CLEAN", "filled")}
        r = run_isolated(delay_filter.load_delay_filter_and_write, fn, Nbls_per_load=nb, **{f"{x}_outfilename": o for x, o in outs.items()}, **kw)
        res[nb] = r if r[0] == "err" else ("ok", {x: io.HERAData(o).read() for x, o in outs.items()})
    (a, fa), (b, fb) = res.items()
    what = f"delay filtering with {kw} (Nbls_per_load={b})"
    if (fa[0] == "err") != (fb[0] == "err"):
        return "filter-raised", f"{what}: all at once {fa if fa[0] == 'err' else 'works'}, in chunks {fb if fb[0] == 'err' else 'works'}"
    if fa[0] == "err":
        return "filter-raised", f"{what}: raised {fa[1:]}"
    for x in fa[1]:
        for nm, y, z in zip(("data", "flags", "nsamples"), fa[1][x], fb[1][x]):
            if set(y.keys()) != set(z.keys()):
                return "filter-keys", f"{what}: {x} file holds {sorted(z.keys())} instead of {sorted(y.keys())}"
            for k in y:
                if y[k].shape != z[k].shape or not np.allclose(y[k], z[k], rtol=1e-5, atol=1e-6):
                    return "filter", f"{what}: {nm} of {k} in the {x} file are {z[k].tolist()} instead of {y[k].tolist()}"
    return None


def split(fn, rng, d):
    """the same data in two files, divided in time or in frequency"""
    from pyuvdata import UVData
    out = []
    bytime = rng.random() < .5
    cut = 1 if bytime else rng.randint(1, NF - 1)
    for i in range(2):
        u = UVData.from_file(fn)
        if bytime:
            u.select(times=np.unique(u.time_array)[slice(i, i + 1)])
        else:
            u.select(freq_chans=list(range(cut)) if i == 0 else list(range(cut, NF)))
        o = os.path.join(d, f"part{i}.uvh5")
        u.write_uvh5(o, clobber=True)
        out.append(o)
    return (out, bytime)


def partial(rec, rng, fn, d):
    """rewrite the file chunk by chunk with every visited datum altered"""
    full = io.HERAData(fn).read()
    o = os.path.join(d, "part.uvh5")
    h = io.HERAData(fn)
    nb, inpl = rng.randint(1, len(full[0])), rng.random() < .5
    ax = rng.choice(["bls", "freqs", "times"])
    it = dict(bls=h.iterate_over_bls, freqs=h.iterate_over_freqs, times=h.iterate_over_times)[ax](nb)
    done = set()
    for dd, ff, nn in it:
        new = {}, {}, {}
        for k in dd:
            # a chunk may repeat part of an earlier one: what is written must then be the same again
            for j, (x, y) in enumerate(zip((dd, ff, nn), (dd[k] * 2, ~ff[k], nn[k] + 1))):
                new[j][k] = y
        from hera_cal.datacontainer import DataContainer
        r = run_isolated(h.partial_write, o, data=DataContainer(new[0]), flags=DataContainer(new[1]), nsamples=DataContainer(new[2]), inplace=inpl, clobber=True)
        if r[0] == "err":
            return "partial-raised", f"partial_write by {ax} raised {r[1:]}"
    got = io.HERAData(o).read()
    for nm, x, y in zip(("data", "flags", "nsamples"), got, full):
        for k in y:
            want = y[k] * 2 if nm == "data" else ~y[k] if nm == "flags" else y[k] + 1
            if k not in x or x[k].shape != want.shape or not np.allclose(x[k], want):
                return "partial", f"{nm} of {k} written in chunks of {nb} {ax} (inplace={inpl}) reads back {x[k].tolist() if k in x else None} instead of {want.tolist()}"
    return None


def iterate(rec, rng, fn, whole=None):
    """every iteration scheme over this file (or these two), against a full read"""
    multi = whole is not None
    if multi:
        fn, bytime = fn
    hd = io.HERAData(whole or fn)
    full = hd.read()
    keys = {k for k in full[0].keys()}
    freqs = FREQ(np.arange(NF))
    nk = len(keys)

    def cmpchunk(c, tsel, fsel, what):
        for nm, x, y in zip(("data", "flags", "nsamples"), c, full):
            for k in x.keys():
                if k not in keys:
                    return f"{what}: unexpected baseline {k}"
                if not np.array_equal(x[k], y[k][np.ix_(tsel, fsel)]):
                    return f"{what}: {nm} of {k} differ from a full read"
        return None
    allt, allf = list(range(NT)), list(range(NF))
    for red in (False, True):
        nb, autos = rng.randint(1, nk + 1), rng.random() < .7
        fs = sorted(rng.sample(allf, rng.randint(1, NF))) if rng.random() < .5 and not (multi and not bytime) else allf
        h2 = io.HERAData(fn)
        what = f"iterate_over_bls(Nbls={nb}, chunk_by_redundant_group={red}, include_autos={autos})"
        bls = None
        want = {k for k in keys if autos or k[0] != k[1]}
        if rng.random() < .3:
            bls = rng.sample(sorted(want), rng.randint(1, len(want))) if want else None
        if bls:
            want = set(bls)
        seen, chunks = set(), []
        r = run_isolated(lambda: [copy.deepcopy(x) for x in h2.iterate_over_bls(Nbls=nb, bls=bls, chunk_by_redundant_group=red, include_autos=autos, frequencies=None if fs == allf else freqs[fs])])
        if r[0] == "err":
            return "iter-raised", f"{what} on {sorted(keys)} bls={bls} raised {r[1:]}"
        for c in r[1]:
            e = cmpchunk(c, allt, fs, what)
            if e:
                return "iter", e
            seen |= set(c[0].keys())
            chunks.append({k[:2] for k in c[0].keys()})
        if not want <= seen or not {k[:2] for k in seen} <= {k[:2] for k in want}:
            return "iter-cover", f"{what} over {sorted(keys)} (bls={bls}) yielded {sorted(seen)}, expected {sorted(want)}"
        if red:
            sep = lambda p: abs((p[1] * 3) % 7 - (p[0] * 3) % 7)
            # whole groups stay together (pol by pol the group is in one chunk)
            for k in want:
                grp = {q for q in want if sep(q[:2]) == sep(k[:2]) and q[2] == k[2] and sep(k[:2]) != 0}
                gp = {q[:2] for q in grp}
                if grp and not any(gp <= c for c in chunks):
                    return "iter-groups", f"{what}: redundant group {sorted(gp)} is split over chunks {chunks}"
    nf, nt = rng.randint(1, NF + 1), rng.randint(1, NT + 1)
    for what, it, ax in ((f"iterate_over_freqs(Nchans={nf})", lambda h: h.iterate_over_freqs(Nchans=nf), 1), (f"iterate_over_times(Nints={nt})", lambda h: h.iterate_over_times(Nints=nt), 0)):
        if multi and ax == (0 if bytime else 1):
            continue    # pyuvdata refuses a selection that leaves nothing of one of the files
        h2 = io.HERAData(fn)
        r = run_isolated(lambda: [copy.deepcopy(x) for x in it(h2)])
        if r[0] == "err":
            return "iter-raised", f"{what} raised {r[1:]}"
        pos = []
        for c in r[1]:
            ti = [int(round((t - TIME(0)) / synth.DT)) for t in c[0].times]
            fi = [int(round((f - synth.FREQ0) / synth.DF)) for f in c[0].freqs]
            e = cmpchunk(c, ti, fi, what)
            if e:
                return "iter", e
            if set(c[0].keys()) != keys or (ti != allt if ax else fi != allf):
                return "iter-cover", f"{what}: a chunk holds {sorted(c[0].keys())} {ti} {fi}"
            if len(fi if ax else ti) > (nf if ax else nt):
                return "iter-cover", f"{what}: chunk larger than asked: {ti} {fi}"
            pos += fi if ax else ti
        if sorted(pos) != (allf if ax else allt):
            return "iter-cover", f"{what}: visited {pos}"
    return None


ALLANTS = None


def check(chk):
    global ALLANTS
    for ants, pols, num in (("0,1,2,3", '{"nn"},{"nn","ee"}', chk.n(60, 700)), ("0,1,2,3,4,13", '{"nn"},{"nn","ee","ne","en"},{"ee","nn"}', chk.n(90, 1200))):
        ALLANTS = [int(a) for a in ants.split(",")]
        recs, _ = chk.tlc("ApplyFile", CFG % (ants, pols), mode="sim", num=num, depth=60)
        recs = [r for r in recs if r["loaded"]]
        for rec, r in zip(recs, chk.pmap(replay, recs, tag=ants)):
            chk.traces += 1
            chk.ran(5)
            if r:
                chk.fail(r[0], r[1], rec)
        chk.sample(recs[0])
    chk.extra["averaging"] = sum(r["cfg"]["avg"] for r in recs)
    if not chk.viol:
        bad = copy.deepcopy(next(r for r in recs if not r["cfg"]["avg"]))
        o = bad["out"][0]
        c = sorted(bad["loaded"])[0]
        o["f"][0][c - 1] = not o["f"][0][c - 1]
        assert chk.pmap(replay, [bad])[0] is not None
        chk.binding.append("a behaviour with one output flag altered is rejected")


if __name__ == "__main__":
    main("C06", check, assumptions=["4-6 antennas on a line, 2 times, 4 channels, up to 4 polarizations, uvh5 in and out"])
