"""Small synthetic uvh5 / calfits files for the I/O checks."""
import os
import warnings
import numpy as np
warnings.simplefilter("ignore")
from pyuvdata import UVData, UVCal, Telescope
from pyuvdata import utils as uvutils
from astropy.coordinates import EarthLocation

HERA = EarthLocation.from_geodetic(lat=-30.72152612068957, lon=21.428303826863015, height=1051.69)
JD0, DT = 2458116.25, 10.737418 / 86400
FREQ0, DF = 120e6, 122070.3125
TIME = lambda t: JD0 + np.asarray(t) * DT
FREQ = lambda f: FREQ0 + np.asarray(f) * DF
CONJ = {"nn": "nn", "ee": "ee", "ne": "en", "en": "ne"}
FEED = {"n": "Jnn", "e": "Jee"}
rev = lambda k: (k[1], k[0], CONJ[k[2]])
ants_of = lambda k: ((k[0], FEED[k[2][0]]), (k[1], FEED[k[2][1]]))
POLRANK = {"ee": 0, "en": 1, "ne": 2, "nn": 3}


def canon(k):
    k = tuple(k)
    if k[0] < k[1] or (k[0] == k[1] and POLRANK[k[2]] <= POLRANK[CONJ[k[2]]]):
        return k
    return rev(k)


def antpos_line(ants, sp=14.6, ny=3):
    return {a: np.array([sp * (i % ny), sp * (i // ny), 0.0]) for i, a in enumerate(sorted(ants))}


_TEL = {}


def telescope(antpos, x_orientation="north"):
    key = (tuple(sorted((a, tuple(np.round(p, 6))) for a, p in antpos.items())), x_orientation)
    if key not in _TEL:
        ants = sorted(antpos)
        xyz = np.array([HERA.x.value, HERA.y.value, HERA.z.value])
        ecef = uvutils.ECEF_from_ENU(np.array([antpos[a] for a in ants]), center_loc=HERA) - xyz
        tel = Telescope.new(name="HERA", location=HERA, antenna_numbers=np.array(ants), antenna_names=[f"HH{a}" for a in ants],
                            antenna_positions=ecef, instrument="HERA", update_from_known=False)
        tel.set_feeds_from_x_orientation(x_orientation, feeds=["x", "y"])
        tel.mount_type = ["fixed"] * len(ants)
        _TEL[key] = tel
    return _TEL[key].copy()


def make_uvd(pairs, pols, times, freqs, wf, antpos, time_fast=True, x_orientation="north", kinds=("data", "flags", "nsamples"),
             vis_units="uncalib", dtype=np.complex128):
    """pairs/pols: in file order.  wf(kind, (i,j,pol)) -> (Ntimes, Nfreqs)."""
    pnum = [uvutils.polstr2num(p, x_orientation=x_orientation) for p in pols]
    times = np.asarray(times, float)
    tarr = np.tile(times, len(pairs)) if time_fast else np.repeat(times, len(pairs))
    pa = np.array([tuple(p) for p in pairs])
    aarr = np.repeat(pa, len(times), axis=0) if time_fast else np.tile(pa, (len(times), 1))
    uvd = UVData.new(freq_array=np.asarray(freqs, float), channel_width=DF, polarization_array=np.array(pnum), times=tarr, integration_time=DT * 86400,
                     antpairs=aarr, do_blt_outer=False, time_axis_faster_than_bls=time_fast, telescope=telescope(antpos, x_orientation),
                     update_telescope_from_known=False, empty=True, history="synthetic", vis_units=vis_units)
    nt, nb = len(times), len(pairs)
    d = np.zeros((nt * nb, len(freqs), len(pols)), dtype)
    f = np.zeros(d.shape, bool)
    n = np.zeros(d.shape, np.float32)
    for b, pr in enumerate(pairs):
        sl = slice(b * nt, (b + 1) * nt) if time_fast else slice(b, None, nb)
        assert np.all(uvd.ant_1_array[sl] == pr[0]) and np.all(uvd.ant_2_array[sl] == pr[1])
        for ip, p in enumerate(pols):
            k = tuple(pr) + (p,)
            d[sl, :, ip], f[sl, :, ip], n[sl, :, ip] = wf("data", k), wf("flags", k), wf("nsamples", k)
    uvd.data_array, uvd.flag_array, uvd.nsample_array = d, f, n
    return uvd


def make_uvc(ants, jpols, times, freqs, gains, flags, quals=None, total_qual=None, antpos=None, gain_convention="divide", x_orientation="north", cal_style="redundant"):
    jn = [uvutils.jstr2num(p, x_orientation=x_orientation) for p in jpols]
    shp = (len(ants), len(freqs), len(times), len(jpols))
    g, f, q = np.ones(shp, complex), np.ones(shp, bool), np.zeros(shp)
    for i, a in enumerate(ants):
        for j, p in enumerate(jpols):
            g[i, :, :, j] = gains[(a, p)].T
            f[i, :, :, j] = flags[(a, p)].T
            if quals is not None:
                q[i, :, :, j] = quals[(a, p)].T
    data = dict(gain_array=g, flag_array=f, quality_array=q)
    if total_qual is not None:
        tq = np.zeros(shp[1:])
        for j, p in enumerate(jpols):
            tq[:, :, j] = total_qual[p].T
        data["total_quality_array"] = tq
    return UVCal.new(cal_style=cal_style, gain_convention=gain_convention, jones_array=np.array(jn), telescope=telescope(antpos, x_orientation),
                     time_array=np.asarray(times, float), freq_array=np.asarray(freqs, float), channel_width=DF, integration_time=DT * 86400, cal_type="gain",
                     ant_array=np.array(ants), update_telescope_from_known=False, data=data, history="synthetic")
