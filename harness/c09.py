"""C09: an existing output file is replaced only when overwriting is asked for; nothing else is touched."""
import hashlib
import os
import shutil
import warnings
import numpy as np
warnings.simplefilter("ignore")
from vlib import main, run_isolated
import synth
from synth import TIME, FREQ
import h5py
from pyuvdata import UVData, UVCal
from hera_cal import io, utils, apply_cal, autos, noise, chunker, abscal, vis_clean, smooth_cal, reflections, frf, delay_filter, redcal
from hera_cal.datacontainer import DataContainer
from hera_cal.lst_stack import io as lstio

CFG = """INIT Init
NEXT Next
INVARIANT TypeOK
PROPERTIES NoLoss OthersKept
CONSTANTS
 NPath = 2
 Depth = %d
"""
ANTS = [0, 1, 2]
APOS = {a: np.array([14.6 * a, 0, 0.]) for a in ANTS}
PAIRS = [(0, 0), (0, 1), (1, 1), (1, 2), (2, 2), (0, 2)]
EXT = dict(uvh5="uvh5", calfits="calfits", h5="h5", miriad="uv")


def wfall(s, k, t0, nt):
    g = np.random.default_rng(abs(hash((s, k[0], k[1], t0))) % 2**32)
    v = g.normal(0, 1, (nt, 8)) + 1j * g.normal(0, 1, (nt, 8))
    return (np.abs(v) + 1 if k[0] == k[1] else v).astype(complex)


def inputs(d, s):
    """input set s: two consecutive visibility files, one baseline-chunk pair, two calibration files"""
    os.makedirs(d)
    fq = FREQ(np.arange(8))
    for j in range(2):
        ts = TIME(np.arange(4 * j, 4 * j + 4))
        wf = lambda kind, k: wfall(s, k, 4 * j, 4) if kind == "data" else np.zeros((4, 8), bool) if kind == "flags" else np.full((4, 8), 1. + s)
        synth.make_uvd(PAIRS, ["nn", "ee"], ts, fq, wf, APOS).write_uvh5(f"{d}/zen.{j}.uvh5")
        g = {(a, p): np.random.default_rng(100 * s + a + 10 * j).normal(1, .1, (4, 8)) + 0j for a in ANTS for p in ("Jnn", "Jee")}
        f = {k: np.zeros((4, 8), bool) for k in g}
        q = {k: np.zeros((4, 8)) for k in g}
        synth.make_uvc(ANTS, ["Jnn", "Jee"], ts, fq, g, f, q, antpos=APOS).write_calfits(f"{d}/zen.{j}.calfits")
    for j, ps in enumerate((PAIRS[:3], PAIRS[3:])):
        wf = lambda kind, k: wfall(s, k, 0, 4) if kind == "data" else np.zeros((4, 8), bool) if kind == "flags" else np.ones((4, 8))
        synth.make_uvd(ps, ["nn", "ee"], TIME(np.arange(4)), fq, wf, APOS).write_uvh5(f"{d}/blchunk.{j}.uvh5")


def vc(d):
    v = vis_clean.VisClean(f"{d}/zen.0.uvh5")
    v.read()
    v.clean_resid, v.clean_resid_flags, v.clean_model, v.clean_flags = v.data, v.flags, v.data, v.flags
    return v


def w_snap(d, o, ow):
    n = float(d[-1] == "B") + .25
    s = io.SNAPDecoherence({"s": np.full((2, 2), n)}, {"s": np.full((2, 2), n)}, {"s": np.full((2, 2), .1)}, {"s": np.ones(2, int)}, TIME(np.arange(2)), FREQ(np.arange(4)).reshape(2, 2),
                           {0: "s"}, np.ones(2, bool), [0], np.array([[1., 2.]]))
    s.write(o, clobber=ow)


def w_meta(d, o, ow):
    n = float(d[-1] == "B")
    ants = [(0, "Jnn"), (1, "Jnn")]
    io.save_redcal_meta(o, dict(dlys={a: np.full(3, n) for a in ants}, polarity_flips={a: np.zeros(3, bool) for a in ants}),
                        dict(chisq={"['nn']": np.ones((3, 2))}, iter={"['nn']": np.ones((3, 2))}, conv_crit={"['nn']": np.ones((3, 2))}), FREQ(np.arange(2)), TIME(np.arange(3)),
                        np.arange(3.), {0: np.zeros(3), 1: np.ones(3)}, "h", clobber=ow)


def w_smooth(d, o, ow):
    # CalibrationSmoother derives the output names from the inputs
    tmp = o + ".in"
    os.makedirs(tmp)
    try:
        cals = []
        for j in range(2):
            c = f"{tmp}/{j}.flagged_abs.calfits"
            shutil.copy(f"{d}/zen.{j}.calfits", c)
            cals.append(c)
        cs = smooth_cal.CalibrationSmoother(cals, load_cspa=False, load_chisq=False)
        cs.time_indices = {cals[0]: cs.time_indices[cals[0]]}
        cs.cals = cals[:1]
        cs.write_smoothed_cal(output_replace=(cals[0], o), clobber=ow)
    finally:
        shutil.rmtree(tmp)


def w_refl(d, o, ow):
    r = reflections.ReflectionFitter(f"{d}/zen.0.uvh5")
    r.read()
    n = 1. + float(d[-1] == "B")
    r.ref_gains = {(a, p): np.full((4, 8), n + 0j) for a in ANTS for p in ("Jnn", "Jee")}
    r.ref_flags = {k: np.zeros((4, 8), bool) for k in r.ref_gains}
    r.write_auto_reflections(o, overwrite=ow, verbose=False)


def w_writevis(ft):
    def f(d, o, ow):
        dd, _, _ = io.HERAData(f"{d}/zen.0.uvh5").read()
        io.write_vis(os.path.basename(o), DataContainer({k: dd[k] for k in dd}), dd.lsts, dd.freqs, APOS, time_array=dd.times, filetype=ft, outdir=os.path.dirname(o), overwrite=ow, verbose=False)
    return f


def w_partial(d, o, ow):
    h = io.HERAData(f"{d}/zen.0.uvh5")
    for dd, ff, nn in h.iterate_over_bls(Nbls=4):
        h.partial_write(o, data=dd, flags=ff, nsamples=nn, clobber=ow)


def w_lstfile(d, o, ow):
    m = io.FastUVH5Meta(f"{d}/zen.0.uvh5", blts_are_rectangular=True)
    t = lstio.create_empty_uvd(["nn"], [m], start_jd=2458116, times=TIME(np.arange(2)) + float(d[-1] == "B"), lsts=np.array([.1, .2]), antpairs=[(0, 1)])
    lstio.create_lstbin_output_file(t, os.path.dirname(o), os.path.basename(o), overwrite=ow)


def w_cal(d, o, ow):
    g = np.full((4, 8), 2. + float(d[-1] == "B") + 0j)
    io.write_cal(os.path.basename(o), {(a, "Jnn"): g for a in ANTS}, FREQ(np.arange(8)), TIME(np.arange(4)), antpos=APOS, outdir=os.path.dirname(o), overwrite=ow)


def w_hc(d, o, ow):
    h = io.HERACal(f"{d}/zen.0.calfits")
    h.read()
    h.write(o, clobber=ow)


def w_filt(part):
    def f(d, o, ow):
        v = vc(d)
        v.write_filtered_data(res_outfilename=o, partial_write=part, clobber=ow)
    return f


def w_data(part):
    def f(d, o, ow):
        v = vc(d)
        v.write_data(v.data, o, overwrite=ow, flags=v.flags, nsamples=v.nsamples, partial_write=part, verbose=False)
    return f


def w_df(nb):
    def f(d, o, ow):
        delay_filter.load_delay_filter_and_write(f"{d}/zen.0.uvh5", Nbls_per_load=nb, res_outfilename=o, clobber=ow, mode="dpss_leastsq", min_dly=100., verbose=False)
    return f


def w_redcal(which):
    """redcal_run names its four outputs itself; only one of them may pre-exist here"""
    def f(d, o, ow):
        tmp = o + ".run"
        os.makedirs(tmp)
        ext = dict(first=".first.calfits", omni=".omni.calfits", vis=".omni_vis.uvh5", meta=".redcal_meta.hdf5")
        q = f"{tmp}/zen.0{ext[which]}"
        try:
            if os.path.exists(o):
                shutil.copy(o, q)
            redcal.redcal_run(f"{d}/zen.0.uvh5", outdir=tmp, clobber=ow, solar_horizon=90., oc_maxiter=20, check_after=1, check_every=5, max_rerun=1)
        finally:
            if os.path.exists(q):
                shutil.copy(q, o)
            shutil.rmtree(tmp)
    return f


W = {
    "delay_filter": w_df(None), "delay_filter_partial": w_df(2),
    "redcal_first": w_redcal("first"), "redcal_omni": w_redcal("omni"), "redcal_vis": w_redcal("vis"), "redcal_meta_run": w_redcal("meta"),
    "partial_write": w_partial,
    "write_vis": w_writevis("uvh5"), "write_vis_miriad": w_writevis("miriad"),
    "update_vis": lambda d, o, ow: io.update_vis(f"{d}/zen.0.uvh5", o, filetype_in="uvh5", filetype_out="uvh5", clobber=ow),
    "update_vis_miriad": lambda d, o, ow: io.update_vis(f"{d}/zen.0.uvh5", o, filetype_in="uvh5", filetype_out="miriad", clobber=ow),
    "apply_cal": lambda d, o, ow: apply_cal.apply_cal(f"{d}/zen.0.uvh5", o, f"{d}/zen.0.calfits", clobber=ow),
    "apply_cal_partial": lambda d, o, ow: apply_cal.apply_cal(f"{d}/zen.0.uvh5", o, f"{d}/zen.0.calfits", nbl_per_load=5, clobber=ow),
    "apply_cal_avg": lambda d, o, ow: apply_cal.apply_cal(f"{d}/zen.0.uvh5", o, f"{d}/zen.0.calfits", redundant_average=True, clobber=ow),
    "apply_cal_avg_partial": lambda d, o, ow: apply_cal.apply_cal(f"{d}/zen.0.uvh5", o, f"{d}/zen.0.calfits", redundant_average=True, nbl_per_load=5, clobber=ow),
    "autos": lambda d, o, ow: autos.read_and_write_autocorrelations(f"{d}/zen.0.uvh5", o, clobber=ow),
    "noise": lambda d, o, ow: noise.write_per_antenna_noise_std_from_autos(f"{d}/zen.0.uvh5", o, clobber=ow),
    "chunk_data": lambda d, o, ow: chunker.chunk_files([f"{d}/zen.{j}.uvh5" for j in range(2)], f"{d}/zen.0.uvh5", o, 2, clobber=ow),
    "chunk_gains": lambda d, o, ow: chunker.chunk_files([f"{d}/zen.{j}.calfits" for j in range(2)], f"{d}/zen.0.calfits", o, 2, type="gains", clobber=ow),
    "throw_away": lambda d, o, ow: io.throw_away_flagged_ants(f"{d}/zen.0.uvh5", o, throw_away_fully_flagged_data_baselines=True, clobber=ow),
    "select_spw": lambda d, o, ow: utils.select_spw_ranges(f"{d}/zen.0.uvh5", o, [(1, 3), (5, 6)], clobber=ow),
    "vc_write_data": w_data(False), "vc_write_data_partial": w_data(True), "vc_filtered": w_filt(False), "vc_filtered_partial": w_filt(True),
    "reconstitute": lambda d, o, ow: vis_clean.time_chunk_from_baseline_chunks(f"{d}/zen.0.uvh5", [f"{d}/blchunk.{j}.uvh5" for j in range(2)], o, clobber=ow),
    "reconstitute_bounds": lambda d, o, ow: vis_clean.time_chunk_from_baseline_chunks(f"{d}/zen.0.uvh5", [f"{d}/blchunk.{j}.uvh5" for j in range(2)], o, clobber=ow, time_bounds=True),
    "lstbin_file": w_lstfile,
    "time_average": lambda d, o, ow: frf.time_avg_data_and_write([f"{d}/zen.0.uvh5"], o, 2 * synth.DT * 86400 + 1, clobber=ow),
    "write_cal": w_cal, "update_cal": lambda d, o, ow: io.update_cal(f"{d}/zen.0.calfits", o, clobber=ow), "hc_write": w_hc,
    "combine_calfits": lambda d, o, ow: utils.combine_calfits([f"{d}/zen.0.calfits", f"{d}/zen.0.calfits"], os.path.basename(o), outdir=os.path.dirname(o), overwrite=ow, verbose=False),
    "multiply_gains": lambda d, o, ow: abscal.multiply_gains(f"{d}/zen.0.calfits", f"{d}/zen.0.calfits", o, clobber=ow),
    "smooth_cal": w_smooth, "auto_reflections": w_refl, "redcal_meta": w_meta, "snap": w_snap,
}


def snapshot(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[p] = hashlib.md5(open(p, "rb").read()).hexdigest()
    return out


def content(kind, p):
    if kind in ("uvh5", "miriad"):
        u = UVData.from_file(p, run_check=False)
        return [u.data_array, u.flag_array, u.nsample_array, u.time_array, u.freq_array, u.ant_1_array, u.ant_2_array, u.polarization_array]
    if kind == "calfits":
        u = UVCal.from_file(p, run_check=False)
        return [u.gain_array, u.flag_array, u.time_array, u.freq_array, u.ant_array]
    out = {}
    with h5py.File(p) as f:
        f.visititems(lambda n, o: out.__setitem__(n, o[()]) if isinstance(o, h5py.Dataset) else None)
    return [np.asarray(out[k]) for k in sorted(out)]


def same(a, b):
    return len(a) == len(b) and all(np.shape(x) == np.shape(y) and (np.array_equal(x, y, equal_nan=True) if np.asarray(x).dtype.kind in "fc" else np.array_equal(x, y)) for x, y in zip(a, b))


def replay(t, rng, i, d):
    for s in "AB":
        inputs(f"{d}/in{s}", "AB".index(s))
    out, fresh = f"{d}/out", f"{d}/fresh"
    os.makedirs(out)
    os.makedirs(fresh)
    before = snapshot(d)
    for st in t:
        kind, j = st["p"]
        p = f"{out}/f{j}.{EXT[kind]}"
        if st["op"] == "remove" or st["op"] == "foreign":
            shutil.rmtree(p, True)
            if os.path.exists(p):
                os.remove(p)
            if st["op"] == "foreign":
                if kind == "miriad":
                    os.makedirs(p)
                    open(p + "/header", "wb").write(b"not mine %d" % st["n"])
                else:
                    open(p, "wb").write(b"not mine %d" % st["n"])
            before = snapshot(d)
            continue
        src = f"{d}/in{'AB'[st['n'] % 2]}"
        r = run_isolated(W[st["w"]], src, p, st["ow"])
        after = snapshot(d)
        mine = {q for q in set(before) | set(after) if q == p or q.startswith(p + "/")}
        other = {q for q in set(before) | set(after) if q not in mine and before.get(q) != after.get(q)}
        how = f"{st['w']}({os.path.basename(p)}, overwrite={st['ow']}) -> {r if r[0] == 'err' else 'returned'}"
        if other:
            return "others", f"{how}: other files changed: {sorted(os.path.relpath(q, d) for q in other)}"
        changed = {q for q in mine if before.get(q) != after.get(q)}
        if st["keep"]:
            if changed:
                return f"clobbered-{st['w']}", f"{how}: existing output {os.path.basename(p)} was modified although overwriting was not requested"
        else:
            if r[0] == "err":
                return f"raised-{st['w']}", f"{how}: refused to write (file {'existed' if any(q in before for q in mine) else 'did not exist'})"
            fp = f"{fresh}/x.{EXT[kind]}"
            W[st["w"]](src, fp, False)
            a = run_isolated(content, kind, p)
            b = content(kind, fp)
            shutil.rmtree(fp, True)
            if os.path.exists(fp):
                os.remove(fp)
            if a[0] == "err" or not same(a[1], b):
                return f"stale-{st['w']}", f"{how}: the file does not hold what this call writes ({a[1:] if a[0] == 'err' else 'contents differ'})"
        before = after
    return None


def check(chk):
    depth = 14
    traces, _ = chk.tlc("NoClobber", CFG % depth, mode="sim", num=chk.n(42, 500), depth=depth + 3)
    used = set()
    for t, r in zip(traces, chk.pmap(replay, traces)):
        chk.traces += 1
        chk.ran(len(t))
        used |= {(s["w"], s["ow"], s["keep"]) for s in t if s["op"] == "write"}
        if r:
            chk.fail(r[0], r[1], t)
    # every writer, systematically: new file, existing file kept, existing file replaced
    K = {}
    for t in traces:
        for s in t:
            if s["op"] == "write":
                K[s["w"]] = s["p"][0]
    tr = [[dict(op="write", w=w, p=[K[w], 1], ow=False, keep=False, n=1), dict(op="write", w=w, p=[K[w], 1], ow=False, keep=True, n=2),
           dict(op="write", w=w, p=[K[w], 1], ow=True, keep=False, n=2), dict(op="foreign", p=[K[w], 1], n=3), dict(op="write", w=w, p=[K[w], 1], ow=False, keep=True, n=4),
           dict(op="write", w=w, p=[K[w], 1], ow=True, keep=False, n=5)] for w in sorted(K)]
    assert set(K) == set(W), set(W) - set(K)
    for t, r in zip(tr, chk.pmap(replay, tr, tag="sys")):
        chk.traces += 1
        if r:
            chk.fail(r[0], r[1], t)
    chk.extra["writers"] = sorted(K)
    chk.extra["cases"] = len(used)
    chk.sample(traces[0])
    if not chk.viol:
        bad = [dict(s) for s in tr[0]]
        bad[2]["keep"] = True
        assert chk.pmap(replay, [bad])[0] is not None
        chk.binding.append("a history that expects an overwritten file to be kept is rejected")


if __name__ == "__main__":
    main("C09", check, assumptions=["uvfits is documented to be always overwritten and is not covered", "single process; concurrent writers to one path are not modelled"])
