"""C19: the stacking plan: grid, output files, matched files and integrations, plan file, execution file by file."""
import os
import warnings
import numpy as np
warnings.simplefilter("ignore")
import logging
logging.disable(logging.CRITICAL)
from pathlib import Path
from vlib import main, run_isolated
import synth
from synth import FREQ
from pyuvdata import UVFlag, UVData
from pyuvdata import utils as uvutils
from hera_cal.lst_stack import config as lcfg, binning, wrappers

N, TPB = 48, 8
DL = 2 * np.pi / N
TICK = DL / TPB
SDAY = 0.99726956633
CFG = (f"INIT Init\nNEXT Next\nINVARIANT EveryBinInOneFile\nINVARIANT NoIntegrationTwice\nINVARIANT Complete\nINVARIANT FullDayLosesNothing\n"
       f"CONSTANTS\n N = {N}\n TPB = {TPB}\n")
NF = 2
POS = {a: np.array([14.6 * (a % 3) + a * a, 9. * (a // 3) - 2 * a, .0]) for a in range(4)}
T = tuple


def lst_at(jd):
    return uvutils.get_lst_for_time(np.atleast_1d(jd), telescope_loc=synth.HERA)[0]


def first_jd(pos, i, rng, dur):
    """a night (integer JD) on which sidereal position pos occurs well inside the Julian day, and the time it does"""
    base = 2457000 + 366 * i
    f0 = rng.uniform(.08, .92 - dur)
    x = (pos + .5) * TICK
    B = base + int(((x - lst_at(base + f0)) % (2 * np.pi)) / (2 * np.pi) * 365.2422)
    jd = B + f0
    dl = (x - lst_at(jd) + np.pi) % (2 * np.pi) - np.pi
    return jd + dl / (2 * np.pi) * SDAY


def value(seed, x, p, q):
    """data, flags, nsamples, in-painted of integration x = (night, file, time), pair p, pol q"""
    rg = np.random.default_rng([seed, x[0], x[1], x[2], p[0], p[1], ["nn", "ee"].index(q)])
    d = rg.normal(size=NF) + 1j * rg.normal(size=NF)
    fl = rg.random(NF) < .25
    return (d.real + 0j if p[0] == p[1] else d), fl, rg.integers(1, 5, NF).astype(float), fl & (rg.random(NF) < .7)


def write_nights(i, rng, d, seed, usei, autos):
    step_jd = i["step"] * TICK / (2 * np.pi) * SDAY
    tint = step_jd * 86400
    prs = [(0, 1), (0, 2), (1, 2), (0, 3), (2, 3)][:rng.randint(1, 5)]
    if autos:
        prs = [(a, a) for a in range(rng.randint(1, 3))] + prs
    names, times = [], {}
    fast = rng.random() < .5
    for a, night in enumerate(i["nights"]):
        row = []
        if not night:
            continue
        dur = (night[-1] - night[0] + i["n"] * i["step"]) * TICK / (2 * np.pi)
        j0 = first_jd(night[0], a, rng, dur)
        nd = os.path.join(d, f"night{a}")
        os.makedirs(nd, exist_ok=True)
        for f, first in enumerate(night):
            tt = j0 + (first - night[0]) * TICK / (2 * np.pi) * SDAY + np.arange(i["n"]) * step_jd
            mine = list(prs)
            ks = ("data", "flags", "nsamples")
            wf = lambda kind, k: np.array([value(seed, (a, f, t), k[:2], k[2])[ks.index(kind)] for t in range(i["n"])])
            uvd = synth.make_uvd(mine, ["nn", "ee"], tt, FREQ(np.arange(NF)), wf, POS, time_fast=fast)
            uvd.integration_time[:] = tint
            uvd.telescope.antenna_diameters = np.full(uvd.telescope.Nants, 14.)
            uvd.set_uvws_from_antenna_positions(update_vis=False)
            fn = os.path.join(nd, f"zen.{tt[0]:.5f}.sum.uvh5")
            uvd.write_uvh5(fn, clobber=True, run_check=False, check_extra=False)
            if usei:
                uvf = UVFlag(uvd, mode="flag")
                for p in mine:
                    s = uvd.antpair2ind(p, ordered=True)
                    for iq, q in enumerate(["nn", "ee"]):
                        uvf.flag_array[s, :, iq] = [value(seed, (a, f, t), p, q)[3] for t in range(i["n"])]
                uvf.write(fn.replace(".sum.uvh5", ".inp.h5"), clobber=True)
            Path(fn.replace(".sum.uvh5", ".calfits")).touch()
            row.append(fn)
            for t in range(i["n"]):
                times[a, f, t] = tt[t]
        names.append((a, row))
    return prs, names, times, tint


def check_single(single, want, ident, what):
    """single: LSTConfigSingle; want: expected ids in order"""
    got = []
    for fn, ti in zip(single.matched_files, single.time_indices):
        if str(fn) not in ident:
            return f"{what} lists unknown file {fn}"
        got += [ident[str(fn)] + (int(t),) for t in ti]
    if len(set(got)) != len(got):
        return f"{what} selects an integration twice: {got}"
    if sorted(got) != sorted(want):
        return f"{what} selects integrations {got}, the specification says {want} (missing {sorted(set(want) - set(got))}, extra {sorted(set(got) - set(want))})"
    for att, ext in (("calfiles", ".calfits"), ("inpaint_files", ".inp.h5")):
        v = getattr(single, att)
        if v is not None and [str(x) for x in v] != [str(f).replace(".sum.uvh5", ext) for f in single.matched_files]:
            return f"{what}: {att} {v} do not correspond to {single.matched_files}"
    return None


def do(rec, rng, idx, d):
    i, o = rec["in"], rec["out"]
    seed = rng.randint(0, 10**9)
    usei, usec, autos = rng.random() < .3, rng.random() < .25, rng.random() < .75
    prs, names, times, tint = write_nights(i, rng, d, seed, usei, autos)
    names = [(a, n) for a, n in names if n]
    if not names:
        return None
    ident = {fn: (a, f) for a, row in names for f, fn in enumerate(row)}
    W, K = i["W"], i["K"]
    cents = (i["b0"] + np.arange(W) + .5) * DL
    start = 0. if i["b0"] == 0 and rng.random() < .5 else float(cents[0])
    kw = dict(dlst=DL * rng.uniform(.985, 1.), nlsts_per_file=K, lst_start=start)
    if W < N or rng.random() < .5:
        kw["lst_end"] = start + W * DL
    if rng.random() < .4:
        kw["jd_regex"] = rng.choice([None, ""])
    if usei:
        kw["where_inpainted_file_rules"] = [(r"\.sum\.uvh5", ".inp.h5")]
    if usec:
        kw["calfile_rules"] = [(r"\.sum\.uvh5", ".calfits")]
    files = [list(row) for _, row in names]
    for row in files:
        rng.shuffle(row)
    what = f"plan(grid of {W} bins of {N} from bin {i['b0']}, {K} per file, nights {i['nights']} ticks ({TPB} per bin), {i['n']} integrations of {i['step']} ticks per file, options { {k: v for k, v in kw.items() if k not in ('dlst',)} })"
    r = run_isolated(lcfg.LSTBinConfigurator, files, **kw)
    if r[0] == "err":
        return ("configurator-raised", f"{what}: LSTBinConfigurator raised {r[1:]}")
    conf = r[1]
    if len(conf.lst_grid) != W or not np.allclose(conf.lst_grid, cents, atol=1e-9):
        return ("grid", f"{what}: grid {conf.lst_grid} is not the {W} bins {cents}")
    if conf.nfiles != o["nf"]:
        return ("nfiles", f"{what}: {conf.nfiles} output files, expected {o['nf']}")
    e = conf.get_file_lst_edges()
    if not np.allclose(e, [cents[f["bins"][0]] - DL / 2 for f in o["files"]] + [cents[-1] + DL / 2]):
        return ("file-edges", f"{what}: output file edges {e}")
    r = run_isolated(conf.get_matched_files)
    if r[0] == "err":
        return ("match-raised", f"{what}: get_matched_files raised {r[1:]}")
    m = r[1]
    if len(m) != o["nf"] or any(len(x) != len(files) for x in m):
        return ("match-shape", f"{what}: matched files have shape {[len(x) for x in m]}")
    for k, f in enumerate(o["files"]):
        for z, (a, row) in enumerate(names):
            g = [str(x.path) for x in m[k][z]]
            if len(set(g)) != len(g) or not set(g) <= set(row):
                return ("match-files", f"{what}: output file {k} of night {a} matched {g}")
            need = {row[x[1] - 1] for x in f["ids"] if x[0] - 1 == a}
            if not need <= set(g):
                return ("match-lost", f"{what}: output file {k} needs {sorted(need - set(g))} of night {a}, which hold integrations in its bins, but they are not matched")
    have = [k for k, f in enumerate(o["files"]) if f["ids"]]
    if not have:
        return None
    r = run_isolated(conf.create_config, m)
    if r[0] == "err":
        return ("create-raised", f"{what}: create_config raised {r[1:]}")
    cfg = r[1]
    rows = {}
    for z, row in enumerate(cfg.lst_grid):
        row = row[np.isfinite(row)]
        k = next((k for k, f in enumerate(o["files"]) if len(f["bins"]) == len(row) and np.allclose(cents[f["bins"]], row, atol=1e-9)), None)
        if k is None or k in rows:
            return ("outfile-bins", f"{what}: output file {z} of the plan covers {row}, which is not one of the output files (or repeats one)")
        rows[k] = z
    if not set(have) <= set(rows):
        return ("outfile-lost", f"{what}: output files {sorted(set(have) - set(rows))} are missing from the plan although data fall in them")
    if sorted(map(T, cfg.antpairs)) != sorted(p for p in prs if p[0] != p[1]) or sorted(map(T, cfg.autopairs)) != sorted(p for p in prs if p[0] == p[1]) or sorted(cfg.pols) != ["ee", "nn"]:
        return ("antpairs", f"{what}: plan lists antpairs {cfg.antpairs}, {cfg.autopairs}, pols {cfg.pols}; files hold {prs}")
    # plan file
    pf = os.path.join(d, "plan.h5")
    r = run_isolated(cfg.write, pf)
    if r[0] == "err":
        return ("write-raised", f"{what}: writing the plan raised {r[1:]}")
    r = run_isolated(lcfg.LSTConfig.from_file, pf)
    if r[0] == "err":
        return ("read-raised", f"{what}: reading the plan raised {r[1:]}")
    cfg2 = r[1]
    for att in ("matched_files", "calfiles", "inpaint_files", "antpairs", "autopairs", "pols", "properties", "config"):
        if getattr(cfg, att) != getattr(cfg2, att):
            return ("roundtrip", f"{what}: {att} is {getattr(cfg, att)} but {getattr(cfg2, att)} after writing and reading the plan")
    if not np.array_equal(cfg.lst_grid, cfg2.lst_grid, equal_nan=True) or not cfg == cfg2:
        return ("roundtrip", f"{what}: the plan differs from itself after writing and reading (grid {cfg.lst_grid} vs {cfg2.lst_grid})")
    c = rng.choice([cfg, cfg2])
    ids0 = lambda l: [T(int(v) - (1 if z < 2 else 0) for z, v in enumerate(x)) for x in l]
    wrap = lambda x: x % (2 * np.pi)
    singles = {}
    some = set(rng.sample(have, min(2, len(have))) + rng.sample(sorted(rows), min(3, len(rows))))
    for k, z in rows.items():
        if k not in some:
            continue
        f = o["files"][k]
        r = run_isolated(c.at_single_outfile, z)
        if r[0] == "err":
            return ("outfile-raised", f"{what}: at_single_outfile({z}) raised {r[1:]}")
        x = check_single(r[1], ids0(f["ids"]), ident, f"{what}: output file {z}")
        if x:
            return ("outfile", x)
        if not np.allclose(r[1].lst_grid, cents[f["bins"]], atol=1e-9) or not np.allclose(r[1].lst_grid_edges, np.append(cents[f["bins"]] - DL / 2, cents[f["bins"][-1]] + DL / 2), atol=1e-9):
            return ("outfile-grid", f"{what}: output file {z} has bins {r[1].lst_grid} with edges {r[1].lst_grid_edges}, expected {cents[f['bins']]}")
        singles[k] = r[1]
        b = rng.choice(f["bins"])
        x = rng.choice([cents[b], wrap(cents[b])])
        r = run_isolated(c.at_single_outfile, lst=x)
        if r[0] == "err":
            return ("outfile-lst-raised", f"{what}: at_single_outfile(lst={x}) raised {r[1:]}")
        if not np.allclose(r[1].lst_grid[:1], cents[f["bins"][:1]], atol=1e-9):
            return ("outfile-lst", f"{what}: at_single_outfile(lst={x}) returns the output file of bins {r[1].lst_grid}")
        for how in ("index", "lst"):
            b = rng.choice(f["bins"])
            want = ids0(o["bins"][b])
            r = run_isolated(c.at_single_bin, z * K + b - f["bins"][0]) if how == "index" else run_isolated(c.at_single_bin, lst=rng.choice([cents[b], wrap(cents[b])]))
            if r[0] == "err":
                return (f"bin-{how}-raised", f"{what}: at_single_bin by {how} of bin {b} raised {r[1:]}")
            if not (len(r[1].lst_grid) == 1 and np.isclose(r[1].lst_grid[0], cents[b], atol=1e-9)):
                return (f"bin-{how}", f"{what}: at_single_bin by {how} for bin {b} (centre {cents[b]}) returned {r[1].lst_grid}")
            x = check_single(r[1], want, ident, f"{what}: single bin {b} (by {how})")
            if x:
                return (f"bin-{how}", x)
    if usec or rng.random() < .5:
        return None
    # execution, file by file, baseline chunk by baseline chunk
    cross = [p for p in map(T, cfg.antpairs)]
    nch = rng.randint(1, 3)
    for k in rng.sample(sorted(some & set(have)), 1 + (rng.random() < .3 and len(some & set(have)) > 1)):
        f = o["files"][k]
        seen = []
        chunks = (["autos"] if autos else []) + list(range(nch))
        for ch in chunks:
            r = run_isolated(binning.lst_bin_files_from_config, singles[k], bl_chunk_to_load=ch, nbl_chunks=nch, rephase=False)
            if r[0] == "err":
                return ("run-raised", f"{what}: stacking output file {k}, baseline chunk {ch} of {nch} ({len(cross)} baselines) raised {r[1:]}")
            st = r[1]
            if st is None or len(st) == 0:
                continue
            if len(st) != len(f["bins"]):
                return ("run-bins", f"{what}: stacking output file {k} gives {len(st)} bins, expected {len(f['bins'])}")
            aps = None
            for s, b in zip(st, f["bins"]):
                want = ids0(o["bins"][b])
                if s is None:
                    if want:
                        return ("run-lost", f"{what}: bin {b} of output file {k} is empty, expected {want}")
                    continue
                order = [next((w for w in want if abs(times[w] - t) < 1e-8), None) for t in s.times]
                if len(order) != len(want) or set(order) != set(want):
                    return ("run-times", f"{what}: bin {b} of output file {k} holds times {s.times}, expected integrations {want}")
                aps = [T(map(int, a)) for a in s.antpairs]
                for iq, q in enumerate(s.pols):
                    for ip, p in enumerate(aps):
                        for t, w in enumerate(order):
                            vd, vf, vn, vi = value(seed, w, p, q)
                            if usei:
                                vf, vn = vf & ~vi, np.where(vi, -vn, vn)
                            if not (np.allclose(s.data[t, ip, :, iq], vd, atol=1e-5) and np.array_equal(s.flags[t, ip, :, iq], vf) and np.array_equal(s.nsamples[t, ip, :, iq], vn)):
                                return ("run-data", f"{what}: {p + (q,)} of integration {w} in bin {b} is {s.data[t, ip, :, iq]}, {s.flags[t, ip, :, iq]}, {s.nsamples[t, ip, :, iq]}; its file says {vd}, {vf}, {vn}")
            seen += aps or []
        if any(o["bins"][b] for b in f["bins"]) and sorted(seen) != sorted(prs):
            return ("run-baselines", f"{what}: chunks {chunks} of output file {k} hold baselines {sorted(seen)}, expected {sorted(prs)}")
    return None


def average(seed, want, p, q, inpaint):
    D, F, S, I = (np.array(z) for z in zip(*[value(seed, w, p, q) for w in want]))
    use = ~F | I if inpaint else ~F
    with np.errstate(all="ignore"):
        if inpaint:      # an integration's weight is its mean sample count over the channels it really observed
            S = np.where(~F, S, 0).sum(1, keepdims=True) / np.maximum((~F).sum(1, keepdims=True), 1) * np.ones(NF)
        s = np.where(use, S, 0)
        n = s.sum(0)
        return (s * D).sum(0) / n, use.any(0), np.where(~F, S, 0).sum(0), (~F).sum(0), n > 0


def do_wrap(rec, rng, idx, d):
    """the whole run, written to disk"""
    i, o = rec["in"], rec["out"]
    seed = rng.randint(0, 10**9)
    usei = rng.random() < .4
    prs, names, times, tint = write_nights(i, rng, d, seed, usei, True)
    names = [(a, n) for a, n in names if n]
    have = [k for k, f in enumerate(o["files"]) if f["ids"]]
    if not names or not have:
        return None
    cents = (i["b0"] + np.arange(i["W"]) + .5) * DL
    start = float(cents[0])
    kw = {}
    if usei:
        kw["where_inpainted_file_rules"] = [(r"\.sum\.uvh5", ".inp.h5")]
    conf = lcfg.LSTBinConfigurator([list(r) for _, r in names], dlst=DL, nlsts_per_file=i["K"], lst_start=start, lst_end=start + i["W"] * DL, **kw)
    cfg = conf.create_config(conf.get_matched_files())
    pf = os.path.join(d, "plan.h5")
    cfg.write(pf)
    out = os.path.join(d, "out")
    chunk = rng.choice([None, 1, 2, 3])
    what = f"lst_bin_files(grid of {i['W']} bins from {i['b0']} of {N}, {i['K']} per file, nights {i['nights']}, {i['n']} integrations of {i['step']} ticks, bl_chunk_size {chunk}, in-painted {usei})"
    fmt = "zen.{kind}.{lst:7.5f}.{inpaint_mode}.uvh5"
    sel = None if rng.random() < .5 else list(range(len(cfg.lst_grid)))
    res = []
    if sel is None:
        r = run_isolated(wrappers.lst_bin_files, pf, outdir=out, fname_format=fmt, bl_chunk_size=chunk)
        if r[0] == "err":
            return ("write-all-raised", f"{what} raised {r[1:]}")
        res = r[1]
    else:
        rng.shuffle(sel)
        for s in sel:
            r = run_isolated(wrappers.lst_bin_files, pf, output_file_select=s, outdir=out, fname_format=fmt, bl_chunk_size=chunk)
            if r[0] == "err":
                return ("write-one-raised", f"{what} for output file {s} raised {r[1:]}")
            res += r[1]
    seen = {}
    for z in res:
        if z is None:
            continue
        for (kind, inp), fn in z.items():
            u = UVData()
            u.read_uvh5(str(fn), run_check=False)
            for t in np.unique(u.time_array):
                s = np.where(u.time_array == t)[0]
                L = u.lst_array[s[0]]
                b = int(np.argmin(np.abs(np.exp(1j * cents) - np.exp(1j * L))))
                if abs(np.angle(np.exp(1j * (cents[b] - L)))) > 1e-4:
                    return ("written-lst", f"{what}: {os.path.basename(str(fn))} has sidereal time {L}, not a bin centre")
                if (kind, inp, b) in seen:
                    return ("written-twice", f"{what}: bin {b} is in two {kind} files")
                seen[kind, inp, b] = 1
                want = [T(int(v) - (1 if y < 2 else 0) for y, v in enumerate(x)) for x in o["bins"][b]]
                got = {T(map(int, p)): k for p, k in zip(zip(u.ant_1_array[s], u.ant_2_array[s]), s)}
                if sorted(got) != sorted(prs):
                    return ("written-bls", f"{what}: bin {b} has baselines {sorted(got)}")
                for p, k in got.items():
                    for iq, pn in enumerate(u.polarization_array):
                        q = {-5: "nn", -6: "ee"}[int(pn)]      # x_orientation north
                        g = u.data_array[k, :, iq], u.flag_array[k, :, iq], u.nsample_array[k, :, iq]
                        if not want:
                            if not g[1].all() or g[2].any():
                                return ("written-empty", f"{what}: bin {b} has no data but {kind} holds flags {g[1]}, samples {g[2]}")
                            continue
                        D, any_, n, nd, has = average(seed, want, p, q, inp)
                        if kind == "LST" and not (np.allclose(g[0][has], D[has], atol=1e-5) and np.array_equal(g[1], ~any_) and np.allclose(g[2], n)):
                            return ("written-data", f"{what}: {p + (q,)} in bin {b} of the {'in-painted' if inp else 'flagged'} file is {g}, expected {D}, flags {~any_}, samples {n}")
                        if kind == "STD" and not (np.array_equal(g[1], ~any_) and np.allclose(g[2], nd)):
                            return ("written-std", f"{what}: {p + (q,)} in bin {b} of the STD file has flags {g[1]}, days {g[2]}, expected {~any_}, {nd}")
    for b in range(i["W"]):
        if o["bins"][b]:
            for kind in ("LST", "STD"):
                for inp in ([True, False] if usei else [False]):
                    if (kind, inp, b) not in seen:
                        return ("written-lost", f"{what}: bin {b} has integrations {o['bins'][b]} but no {kind} output ({'in-painted' if inp else 'flagged'})")
    return None


def check(chk):
    recs = chk.tlc("LstPlan", CFG, mode="sim", num=chk.n(200, 5000), depth=60)[0]
    nw = chk.n(24, 800)
    for fn, rs, tag in ((do, recs, "plan"), (do_wrap, [r for r in recs if any(f["ids"] for f in r["out"]["files"])][-nw:], "run")):
        for r, x in zip(rs, chk.pmap(fn, rs, tag=tag)):
            chk.ran()
            chk.traces += 1
            if x:
                chk.fail(x[0], x[1], r)
    chk.extra["full_day"] = sum(r["in"]["W"] == N for r in recs)
    chk.extra["across_wrap"] = sum(r["in"]["b0"] + r["in"]["W"] > N for r in recs)
    chk.extra["uneven"] = sum(r["in"]["W"] % r["in"]["K"] != 0 for r in recs)
    chk.sample(recs[0])
    if not chk.viol:
        import copy, random, tempfile, shutil
        bad = n = 0
        for k, r in enumerate(recs):
            if n == 12:
                break
            z = next((z for z, f in enumerate(r["out"]["files"]) if len(f["ids"]) > 1), None)
            if z is None:
                continue
            n += 1
            c = copy.deepcopy(r)
            c["out"]["files"][z]["ids"].pop()
            t = tempfile.mkdtemp(dir=chk.scratch)
            bad += do(c, random.Random(k), 0, t) is not None
            shutil.rmtree(t)
        assert bad == n, (bad, n)
        chk.binding.append(f"removing one integration from the specified plan makes {bad} of {n} replays fail")


if __name__ == "__main__":
    main("C19", check, assumptions=["days of 48 bins, grids of 2-48 bins, up to 3 nights of 4 files of 1-5 integrations, all files with the same number of integrations, every night inside one Julian day, integrations not exactly on bin edges"])
