"""C26: absolute-calibration solvers recover the gains they may assume, from the usable data alone."""
import copy
import warnings
import numpy as np
warnings.simplefilter("ignore")
from vlib import main, run_isolated
from hera_cal import abscal
from hera_cal.datacontainer import DataContainer

CFG = "INIT Init\nNEXT Next\nINVARIANT Sound\nCONSTANTS NA = %d\n NT = 2\n NF = %d\n Regular = %s\n"
UNIT = 2 * np.pi / 720
GRID = 10.
DLY = 10e-9
NCH, DF, F0 = 128, 195312.5, 110e6
FREQS = F0 + DF * np.arange(NCH)
J = lambda f: "J" + f * 2
LN2 = np.log(2)


class Case:
    def __init__(self, r, rng):
        self.r, self.rng = r, rng
        n = len(r["pos"])
        lab = rng.choice([0, 1, 2, 3, 5, 7, 11, 12, 40, 104], n, replace=False)
        self.lab = dict(zip(range(1, n + 1), map(int, lab)))
        self.keys = {self.key(k["q"]): k for k in r["keys"]}
        self.feeds = {f["f"]: f for f in r["feeds"]}
        self.ants = {(self.lab[a["a"]], J(a["f"])): a for a in r["ants"]}
        self.ref = self.lab[r["ref"]]
        self.shape = np.array(r["keys"][0]["w"]).shape
        self.assume2d = not r["nd"] if r["nd"] else bool(rng.random() < .7)
        z = 0 if (not r["nd"] and not self.assume2d) else 1
        dims = 3 if (r["nd"] or self.assume2d) and (r["nd"] or rng.random() < .7) else 2
        if not self.assume2d and not r["nd"]:
            dims = 2
        off = rng.normal(size=dims) * 50
        self.antpos = {self.lab[a + 1]: GRID * np.array(p[:dims], float) + off for a, p in enumerate(r["pos"])}
        if rng.random() < .3:
            self.antpos[99] = off + 3.3             # an antenna without data
        self.order = list(self.keys)
        rng.shuffle(self.order)
        self.order = [tuple((int(k[0]), int(k[1]), str(k[2]))) for k in self.order]

    def key(self, q):
        return (self.lab[q[0][0]], self.lab[q[0][1]], "".join(q[1]))

    def junk(self, shape):
        return self.rng.normal(size=shape) * 1e3 + 1e3j * self.rng.normal(size=shape)

    def observe(self, ratio, model=None, extra=True):
        """data, model and weights such that usable data / model is the given ratio (key -> array)."""
        d, m, w = {}, {}, {}
        for k in self.order:
            c = np.array(self.keys[k]["cls"])
            mod = model(k) if model else (self.rng.integers(1, 4, self.shape) * np.exp(2j * np.pi * self.rng.random(self.shape)))
            dat = mod * ratio(k)
            wgt = np.array(self.keys[k]["w"], float)
            dat = np.where(c == 1, self.junk(c.shape), dat)
            wgt = np.where((c == 1) | (c == 5), 0, wgt)
            bad = self.rng.choice(np.array([np.nan, np.nan * 1j, complex(np.nan, 1)]))
            dat = np.where((c == 2) | (c == 5), bad, dat)
            dat = np.where(c == 3, complex(np.inf, 0) if self.rng.random() < .5 else complex(1, -np.inf), dat)
            mod = np.where(c == 4, 0, mod)
            d[k], m[k], w[k] = dat.astype(complex), mod.astype(complex), wgt
        if extra and self.r["extra"]:
            # a baseline only one of the two has
            k = (98, 97, self.order[0][2])
            (d if self.r["extra"] == 1 else m)[k] = self.junk(self.shape)
            w[k] = np.ones(self.shape)
        return DataContainer(d), DataContainer(m), DataContainer(w)

    def usable(self, k):
        return np.array(self.keys[k]["cls"]) == 0

    def grid(self, k, what):
        return np.array([[c[what] for c in row] for row in self.keys[k]["r"]], float)

    def feed(self, f, what):
        return np.array(self.feeds[f][what], float)


def unchanged(pairs):
    return all(set(a) == set(b) and all(np.array_equal(a[k], b[k], equal_nan=True) for k in b) for a, b in pairs)


def close(a, b, tol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    try:
        a, b = np.broadcast_arrays(a, b)
    except ValueError:
        return False
    return bool(np.all(np.abs(a - b) <= tol))           # nan is not close


def bad_ratio(c, gains, d, m, name, tol=1e-6):
    """Applying the gains must turn usable data into the model."""
    for k in c.order:
        a, b = (k[0], "J" + k[2][0] * 2), (k[1], "J" + k[2][1] * 2)
        g = gains[a] * np.conj(gains[b])
        u = c.usable(k)
        if np.shape(g) != c.shape or not close((m[k] * g)[u], d[k][u], tol * 10):
            return f"{name}-apply", f"{name}: gains times model differ from the usable data of {k}: {(m[k] * g)[u].tolist()}, data {d[k][u].tolist()}"
    return None


def call(c, f, *args, **kw):
    keep = [copy.deepcopy(dict(x.items())) for x in args[:2]]
    res = run_isolated(f, *args, **kw)
    if res[0] == "err":
        return None, (f.__name__ + "-error", f"{f.__name__} raises {res[1]}: {res[2]}")
    if not unchanged(list(zip([dict(x.items()) for x in args[:2]], keep))):
        return None, (f.__name__ + "-mutates", f"{f.__name__} changed its data or model")
    return res[1], None


def fit_is(fit, want, name, tol=1e-7, exact_keys=True):
    for k, v in want.items():
        if k not in fit:
            return f"{name}-fit", f"{name} gives {sorted(fit)}, no {k}"
        if not close(fit[k], v, tol):
            return f"{name}-fit", f"{name}: {k} is {np.asarray(fit[k]).tolist()}, specification says {np.asarray(v).tolist()}"
    return None


def amplitudes(c):
    ratio = lambda k: 2. ** c.grid(k, "abs")
    ga = list(c.ants)
    for name, f in (("log", abscal.abs_amp_logcal), ("lin", abscal.abs_amp_lincal)):
        want = {("eta_" if name == "log" else "A_") + J(p): (LN2 * c.feed(p, "eta") if name == "log" else 2. ** c.feed(p, "eta")) for p in c.feeds}
        d, m, w = c.observe(ratio)
        fit, e = call(c, f, m, d, wgts=w, verbose=False)
        e = e or fit_is({k: np.abs(v) for k, v in fit.items()} if name == "lin" else fit, want, f.__name__, 1e-6)
        if e:
            return e
        d, m, w = c.observe(ratio)
        g, e = call(c, f, m, d, wgts=w, verbose=False, return_gains=True, gain_ants=ga)
        e = e or bad_ratio(c, g, d, m, f.__name__) or fit_is(g, {a: 2. ** np.array(c.feed(a[1][1], "eta")) for a in ga}, f.__name__, 1e-6)
        if e:
            return e
        if set(g) != set(ga):
            return f.__name__ + "-ants", f"gains for {sorted(g)}, asked for {sorted(ga)}"
    return None


def least_squares(c):
    """Data that disagree: the answer is the weighted one."""
    keys = [k for k in c.order if k[2][0] == k[2][1]]
    noisy = {k: c.keys[k]["noisy"] for k in keys}
    val = lambda k, n: np.array([[x[n] if n == "y" else complex(*x[n]) for x in row] for row in noisy[k]])
    r = c.r["keys"]
    sub = copy.copy(c)
    sub.order = keys
    d, m, w = sub.observe(lambda k: 2. ** val(k, "y"))
    fit, e = call(c, abscal.abs_amp_logcal, m, d, wgts=w, verbose=False)
    if e:
        return e
    ls = {f: {n: np.array([[x[n] for x in row] for row in c.feeds[f]["ls"]], float) for n in ("num", "den", "lnum", "lden")} for f in c.feeds}
    e = fit_is(fit, {"eta_" + J(f): LN2 * ls[f]["num"] / ls[f]["den"] for f in c.feeds}, "abs_amp_logcal")
    if e:
        return e[0] + "-weighted", e[1]
    d, m, w = sub.observe(lambda k: val(k, "d") / val(k, "m"), model=lambda k: val(k, "m"))
    fit, e = call(c, abscal.abs_amp_lincal, m, d, wgts=w, verbose=False)
    e = e or fit_is(fit, {"A_" + J(f): np.sqrt(abs(ls[f]["lnum"] / ls[f]["lden"])) for f in c.feeds}, "abs_amp_lincal", 1e-6)
    return e and (e[0] + "-weighted", e[1])


def cross_phase(c):
    keys = [k for k in c.order if k[2][0] != k[2][1]]
    if not keys or not c.r["cross"]:
        return None
    noisy = {k: c.keys[k]["noisy"] for k in c.order}
    val = lambda k, n: np.array([[complex(*x[n]) for x in row] for row in noisy[k]])
    for ref in "en":
        d = {k: val(k, "d") for k in c.order}
        m = {k: val(k, "m") for k in c.order}
        w = {k: np.where(c.usable(k), np.array(c.keys[k]["w"], float), 0) for k in c.order}
        for k in c.order:
            d[k] = np.where(c.usable(k), d[k], c.junk(c.shape))
        # the model may name its baselines differently
        mk = {k: (k[0] + 1000, k[1] + 1000, k[2]) for k in c.order} if c.rng.random() < .5 else {k: k for k in c.order}
        md = DataContainer({mk[k]: m[k] for k in c.order})
        s = np.array(c.r["cross"][ref], float)
        s = s[..., 0] + 1j * s[..., 1]
        ok = abs(s) > .5
        got = run_isolated(abscal.cross_pol_phase_cal, md, DataContainer(d), [mk[k] for k in c.order], c.order, wgts=DataContainer(w) if c.rng.random() < .5 else w, refpol=J(ref))
        if got[0] == "err":
            return "xpol-error", f"{got[1]}: {got[2]}"
        if not close(np.exp(1j * got[1])[ok], np.exp(1j * np.angle(s))[ok]):
            return "xpol-delta", f"phase between feeds {got[1].tolist()}, specification says {np.angle(s).tolist()} (reference {ref})"
        ga = list(c.ants)
        got = run_isolated(abscal.cross_pol_phase_cal, md, DataContainer(d), [mk[k] for k in c.order], c.order, wgts=w, refpol=J(ref), return_gains=True, gain_ants=ga)
        if got[0] == "err":
            return "xpol-error", f"{got[1]}: {got[2]}"
        for a in ga:
            want = np.ones(c.shape) if a[1] == J(ref) else np.exp(1j * np.angle(s))
            if not close(got[1][a][ok], want[ok]):
                return "xpol-gain", f"gain of {a} {got[1][a].tolist()}, specification says {want.tolist()}"
    # applied, the gains remove a phase between the feeds
    th = c.rng.uniform(-3, 3)
    ref = "en"[c.rng.integers(2)]
    true = {f: 1. if f == ref else np.exp(1j * th) for f in "en"}
    m = {k: val(k, "m") for k in c.order}
    d = {k: m[k] * true[k[2][0]] * np.conj(true[k[2][1]]) for k in c.order}
    g = abscal.cross_pol_phase_cal(DataContainer(m), DataContainer(d), c.order, c.order, refpol=J(ref), return_gains=True, gain_ants=list(c.ants))
    for a in c.ants:
        if not close(g[a], true[a[1][1]]):
            return "xpol-recover", f"gain of {a} {g[a].tolist()}, true {true[a[1][1]]}"
    return None


def tilts(c):
    four = c.r["fourpol"]
    zero = bool(c.rng.random() < .6) or not any(k[2][0] != k[2][1] for k in c.order)
    what = "tt" if zero else "ttpsi"
    ratio = lambda k: np.exp(1j * UNIT * c.grid(k, what))
    ref = c.ref
    kw = dict(refant=ref, assume_2D=c.assume2d, zero_psi=zero, four_pol=four, verbose=False)
    if not zero:
        # cross-polarized visibilities must exist at every pixel for the phase between the feeds to be determined: checked by application only
        pass
    d, m, w = c.observe(ratio)
    fit, e = call(c, abscal.TT_phs_logcal, m, d, c.antpos, wgts=w, **kw)
    if e:
        return e
    names = ("ew", "ns") if c.assume2d else ("0", "1", "2")[:3 if c.r["nd"] else 2]
    want = {}
    for f in c.feeds:
        t = np.array(c.feeds[f]["tilt"], float)
        for n, nm in enumerate(names):
            want[f"Phi_{nm}" + ("" if four else "_" + J(f))] = t[n] * UNIT / GRID
    if zero:
        e = fit_is(fit, want, "TT_phs_logcal")
        if e:
            return e
    d, m, w = c.observe(ratio)
    g, e = call(c, abscal.TT_phs_logcal, m, d, c.antpos, wgts=w, return_gains=True, gain_ants=list(c.ants), **kw)
    e = e or bad_ratio(c, g, d, m, "TT_phs_logcal")
    if e:
        return e
    if zero:
        e = fit_is(g, {a: np.exp(1j * UNIT * np.array(v["tt"])) for a, v in c.ants.items()}, "TT_phs_logcal", 1e-6)
        if e:
            return e[0] + "-gain", e[1]
    return None


def antennas(c):
    d, m, w = c.observe(lambda k: 2. ** c.grid(k, "amp") * np.exp(1j * UNIT * c.grid(k, "phs")))
    fit, e = call(c, abscal.amp_logcal, m, d, wgts=w, verbose=False)
    e = e or fit_is(fit, {f"eta_{a}_{p}": LN2 * np.array(v["eta"]) for (a, p), v in c.ants.items()}, "amp_logcal")
    if e:
        return e
    d, m, w = c.observe(lambda k: 2. ** c.grid(k, "amp") * np.exp(1j * UNIT * c.grid(k, "phs")))
    fit, e = call(c, abscal.phs_logcal, m, d, wgts=w, refant=c.ref, verbose=False)
    return e or fit_is(fit, {f"phi_{a}_{p}": UNIT * np.array(v["phi"]) for (a, p), v in c.ants.items()}, "phs_logcal")


def spectra(c, ratio, redundant=False):
    """Data with many channels: whole integrations of a baseline may be unusable."""
    d, m, w = {}, {}, {}
    byvec = {}
    for k in c.order:
        nt = len(c.keys[k]["rt"])
        amp = c.rng.integers(1, 4, (nt, 1)) * np.exp(2j * np.pi * c.rng.random((nt, 1))) * np.ones((nt, NCH))
        if redundant:
            v = tuple(np.rint(c.antpos[k[1]] - c.antpos[k[0]]).astype(int)) + (k[2],)
            r = tuple(-np.array(v[:-1])) + (k[2][::-1],)
            amp = byvec.setdefault(v, np.conj(byvec[r]) if r in byvec else amp)
        dat = amp * ratio(k)
        wgt = np.ones((nt, NCH))
        for t in range(nt):
            if c.keys[k]["rt"][t]["dead"]:
                wgt[t] = 0
                kind = c.rng.integers(2)
                dat[t] = c.junk(NCH) if kind else np.nan
        d[k], m[k], w[k] = dat, amp.copy(), wgt
    return DataContainer(d), DataContainer(m), DataContainer(w)


def per_time(c, k, what):
    return np.array([[x[what]] for x in c.keys[k]["rt"]], float)


def edges(c, d):
    """Channels at the edges that the solver is told to leave out hold junk."""
    cut = int(c.rng.integers(0, 5))
    if cut:
        for k in c.order:
            d[k][:, :cut] = c.junk((len(d[k]), cut))
            d[k][:, -cut:] = c.junk((len(d[k]), cut))
    return cut


def delays(c):
    ratio = lambda k: np.exp(2j * np.pi * per_time(c, k, "dly") * DLY * FREQS + 1j * UNIT * per_time(c, k, "off"))
    d, m, w = spectra(c, ratio)
    cut = edges(c, d)
    fit, e = call(c, abscal.delay_lincal, m, d, wgts=w, refant=c.ref, df=DF, f0=F0, medfilt=False, edge_cut=cut, verbose=False)
    if e:
        return e
    e = fit_is({k: v / 1e-9 for k, v in fit.items() if k[:3] == "tau"}, {f"tau_{a}_{p}": 10. * np.array(v["dly"])[:, None] for (a, p), v in c.ants.items()}, "delay_lincal", .5)
    e = e or fit_is({k: v for k, v in fit.items() if k[:3] == "phi"}, {f"phi_{a}_{p}": UNIT * np.array(v["off"])[:, None] for (a, p), v in c.ants.items()}, "delay_lincal", .1)
    return e


def slopes(c):
    four = c.r["fourpol"]
    ratio = lambda k: np.exp(2j * np.pi * per_time(c, k, "dsl") * DLY * FREQS)
    d, m, w = spectra(c, ratio)
    avg = bool(c.rng.random() < .3)
    cut = edges(c, d)
    names = ("ew", "ns") if c.assume2d else ("0", "1", "2")[:3 if c.r["nd"] else 2]
    kw = dict(refant=c.ref, df=DF, f0=F0, medfilt=False, assume_2D=c.assume2d, four_pol=four, verbose=False)
    fit, e = call(c, abscal.delay_slope_lincal, m, d, c.antpos, wgts=w, time_avg=avg, edge_cut=cut, **kw)
    mid = lambda x: np.repeat(np.median(x, axis=0)[None], len(x), 0) if avg else x
    want = {f"T_{nm}" + ("" if four else "_" + J(f)): mid(np.array(v["dsl"][n], float)[:, None]) * DLY / GRID * 1e9 for f, v in c.feeds.items() for n, nm in enumerate(names)}
    e = e or fit_is({k: v * 1e9 for k, v in fit.items()}, want, "delay_slope_lincal", .02)
    if e:
        return e
    d, m, w = spectra(c, ratio)
    g, e = call(c, abscal.delay_slope_lincal, m, d, c.antpos, wgts=w, return_gains=True, gain_ants=list(c.ants), **kw)
    if e:
        return e
    e = fit_is(g, {a: np.exp(2j * np.pi * np.array(v["dsl"])[:, None] * DLY * FREQS) for a, v in c.ants.items()}, "delay_slope_lincal", .3)
    if e:
        return e[0] + "-gain", e[1]
    # slopes of phase without frequency dependence; some channels at the edges hold junk
    ratio = lambda k: np.exp(1j * UNIT * per_time(c, k, "psl")) * np.ones((1, NCH))
    # redundant averages need every polarization of a baseline, either way round, and cross-polarized ones only agree if the feeds share their slopes
    four = {"ee", "nn", "en", "ne"}
    if not c.r["fourpol"] or not all(k[:2] + (q,) in c.keys for k in c.order for q in four):
        c.order = [k for k in c.order if k[2][0] == k[2][1]]
    d, m, w = spectra(c, ratio, redundant=True)
    cut = edges(c, d)
    solver = "linfit"                                      # the others search a grid and only come near
    ap = {a: p[:2] for a, p in c.antpos.items()} if c.assume2d else c.antpos
    kw = dict(refant=c.ref, solver=solver, edge_cut=cut, assume_2D=c.assume2d, verbose=False, tol=1.0)
    if c.r["nd"]:
        return None
    fit, e = call(c, abscal.global_phase_slope_logcal, m, d, ap, wgts=w, time_avg=avg, **kw)
    want = {f"Phi_{nm}_{J(f)}": mid(np.array(v["psl"][n], float)[:, None]) * UNIT / GRID for f, v in c.feeds.items() for n, nm in enumerate(names)}
    e = e or fit_is(fit, want, "global_phase_slope_logcal")
    if e:
        return e[0] + "-" + solver, e[1]
    d, m, w = spectra(c, ratio, redundant=True)
    g, e = call(c, abscal.global_phase_slope_logcal, m, d, ap, wgts=w, return_gains=True, gain_ants=list(c.ants), **kw)
    if e:
        return e
    for k in c.order:
        p = g[(k[0], "J" + k[2][0] * 2)] * np.conj(g[(k[1], "J" + k[2][1] * 2)])
        for t in range(len(p)):
            if not c.keys[k]["rt"][t]["dead"] and not close(p[t] * m[k][t], d[k][t], 1e-6):
                return "global_phase_slope_logcal-apply-" + solver, f"gains times model differ from the data of {k}"
    return fit_is(g, {a: np.exp(1j * UNIT * np.array(v["psl"])[:, None] * np.ones((1, NCH))) for a, v in c.ants.items()}, "global_phase_slope_logcal", 1e-6)


def rigid(edges, ants):
    """Connected and with an odd cycle."""
    color = {}

    def walk(a, x):
        if a in color:
            return color[a] == x
        color[a] = x
        return all([walk(b, 1 - x) for e in edges if a in e for b in [e[1] if e[0] == a else e[0]]])
    even = walk(next(iter(ants)), 0)
    return set(color) == set(ants) and not even


def calibrator(c):
    """The AbsCal object: one solver after another, each with its gains in every form."""
    ratio = lambda k: 2. ** (c.grid(k, "amp")) * np.exp(1j * UNIT * c.grid(k, "phs"))
    nums = sorted({a for a, _ in c.ants})
    pos = {a: np.array(list(c.antpos[a]) + [0.] * (3 - len(c.antpos[a]))) for a in nums}
    length = {k: np.linalg.norm(pos[k[0]] - pos[k[1]]) for k in c.order}
    kw = dict(refant=c.ref, antpos=pos, freqs=F0 + DF * np.arange(c.shape[1]), verbose=False)
    out = set()
    lim = GRID * c.rng.uniform(.5, 4)
    for how in ("max_bl_cut", "min_bl_cut"):
        far = {k for k in c.order if (length[k] > lim if how[:3] == "max" else length[k] < lim)}
        ok = all(rigid({k[:2] for k in c.order if k not in far and k[2] == q and u}, nums)
                 for q in {f * 2 for f in c.feeds} for u in [True]) and all(
            rigid({k[:2] for k in c.order if k not in far and k[2] == q and c.usable(k)[x]}, nums) for q in {f * 2 for f in c.feeds} for x in np.ndindex(c.shape))
        if far and ok:
            out, kw[how] = far, lim
            break
    ends = [(J(f), f) for f in sorted(c.feeds)]

    def new(ratio):
        d, m, w = c.observe(ratio, extra=False)
        for k in out:
            d[k] = c.junk(c.shape)
        return run_isolated(abscal.AbsCal, m, d, wgts=w, **kw)

    def forms(ac, par, gain, want, name):
        """dict, array and gains of a parameter agree with what is specified (key -> value)."""
        got = getattr(ac, gain)
        for k, v in want.items():
            if k not in got or not close(got[k], v, 1e-6):
                return f"object-{name}", f"{gain}[{k}] is {np.asarray(got.get(k)).tolist()}, specification says {np.asarray(v).tolist()}"
        dic, arr, garr = getattr(ac, par), getattr(ac, par + "_arr"), getattr(ac, gain + "_arr")
        for i, a in enumerate(ac.ants):
            for n, p in enumerate(ac.gain_pols):
                if not close(arr[i, ..., n], dic[(a, p)]):
                    return f"object-{name}-array", f"{par}_arr does not hold {par} of {(a, p)}"
                ref = got[(a, p)] / got[(ac.ants[0], p)]
                if not close(garr[i, ..., n] / garr[0, ..., n], ref, 1e-6):
                    return f"object-{name}-array", f"{gain}_arr does not hold {gain} of {(a, p)}"
        return None
    res = new(ratio)
    if res[0] == "err":
        return "object-error", f"AbsCal raises {res[1]}: {res[2]}"
    ac = res[1]
    if set(ac.data.keys()) != set(c.order) - out:
        return "object-cut", f"after {kw.get('max_bl_cut')}, {kw.get('min_bl_cut')} the object holds {sorted(ac.data.keys())}"
    steps = [("ant_eta", "amp_logcal", {}, "amp"), ("ant_phi", "phs_logcal", {}, "phs")]
    c.rng.shuffle(steps)
    for par, meth, k2, _ in steps:
        e = run_isolated(getattr(ac, meth), verbose=False, **k2)
        if e[0] == "err":
            return "object-error", f"{meth} raises {e[1]}: {e[2]}"
        want = {a: 2. ** np.array(v["eta"]) if par == "ant_eta" else np.exp(1j * UNIT * np.array(v["phi"])) for a, v in c.ants.items()}
        e = forms(ac, par, par + "_gain", want, meth)
        if e:
            return e
    res = new(lambda k: 2. ** c.grid(k, "abs") * np.exp(1j * UNIT * c.grid(k, "tt")))
    ac = res[1]
    two = not c.r["nd"]
    four = c.r["fourpol"]
    steps = ["abs"] + (["tt"] if two else [])
    c.rng.shuffle(steps)
    spare = {(77, a[1]) for a in c.ants}
    spos = {**pos, 77: pos[nums[-1]]}
    for st in steps:
        e = run_isolated(ac.abs_amp_logcal, verbose=False) if st == "abs" else run_isolated(ac.TT_phs_logcal, verbose=False, four_pol=four)
        if e[0] == "err":
            return "object-error", f"{st} raises {e[1]}: {e[2]}"
        if st == "abs":
            e = forms(ac, "abs_eta", "abs_eta_gain", {a: 2. ** c.feed(a[1][1], "eta") for a in c.ants}, "abs_amp_logcal")
            cu = ac.custom_abs_eta_gain(sorted(spare))
            if not e and not all(k in cu and close(cu[k], 2. ** c.feed(k[1][1], "eta"), 1e-6) for k in spare):
                e = "object-custom", "custom_abs_eta_gain differs"
        else:
            e = forms(ac, "TT_Phi", "TT_Phi_gain", {a: np.exp(1j * UNIT * np.array(v["tt"])) for a, v in c.ants.items()}, "TT_phs_logcal")
            e = e or forms(ac, "abs_psi", "abs_psi_gain", {a: np.ones(c.shape) for a in c.ants}, "TT_phs_logcal")
            cu = ac.custom_TT_Phi_gain(sorted(c.ants) + sorted(spare), {a: p - pos[c.ref] for a, p in spos.items()})
            if not e and not all(close(cu[k], np.exp(1j * UNIT * np.array(c.ants[(nums[-1] if k[0] == 77 else k[0], k[1])]["tt"])), 1e-6) for k in list(c.ants) + sorted(spare)):
                e = "object-custom", "custom_TT_Phi_gain differs"
        if e:
            return e
    # delays and slopes
    c2 = copy.copy(c)
    ratio = lambda k: np.exp(2j * np.pi * per_time(c, k, "dly") * DLY * FREQS + 1j * UNIT * per_time(c, k, "off"))
    d, m, w = spectra(c2, ratio)
    ac = abscal.AbsCal(m, d, refant=c.ref, wgts=w, antpos=pos, freqs=FREQS, verbose=False)
    e = run_isolated(ac.delay_lincal, medfilt=False, verbose=False)
    if e[0] == "err":
        return "object-error", f"delay_lincal raises {e[1]}: {e[2]}"
    for k, v in c.ants.items():
        if not (close(ac.ant_dly[k] * 1e9, 10. * np.array(v["dly"])[:, None], .5) and close(ac.ant_dly_phi[k], UNIT * np.array(v["off"])[:, None], .1)
                and close(ac.ant_dly_gain[k], np.exp(2j * np.pi * FREQS * ac.ant_dly[k])) and close(ac.ant_dly_phi_gain[k], np.exp(1j * ac.ant_dly_phi[k]) * np.ones((1, NCH)))):
            return "object-delay_lincal", f"delay or offset of {k} is {ac.ant_dly[k].tolist()}, {ac.ant_dly_phi[k].tolist()}: specification says {v['dly']} in 10 ns, {(UNIT * np.array(v['off'])).tolist()}"
    if not two:
        return None
    d, m, w = spectra(c2, lambda k: np.exp(2j * np.pi * per_time(c, k, "dsl") * DLY * FREQS))
    ac = abscal.AbsCal(m, d, refant=c.ref, wgts=w, antpos=pos, freqs=FREQS, verbose=False)
    e = run_isolated(ac.delay_slope_lincal, medfilt=False, verbose=False, four_pol=four)
    if e[0] == "err":
        return "object-error", f"delay_slope_lincal raises {e[1]}: {e[2]}"
    want = {a: np.exp(2j * np.pi * np.array(v["dsl"])[:, None] * DLY * FREQS) for a, v in c.ants.items()}
    cu = ac.custom_dly_slope_gain(sorted(c.ants), {a: p - pos[c.ref] for a, p in pos.items()})
    for k in want:
        if not close(ac.dly_slope_gain[k], want[k], .3) or not close(cu[k], want[k], .3):
            return "object-delay_slope", f"dly_slope_gain of {k} differs from the specification"
        i, n = list(ac.ants).index(k[0]), list(ac.gain_pols).index(k[1])
        ga = ac.dly_slope_gain_arr
        if not close(ga[i, ..., n] / ga[0, ..., n], ac.dly_slope_gain[k] / ac.dly_slope_gain[(ac.ants[0], k[1])], 1e-6):
            return "object-delay_slope-array", f"dly_slope_gain_arr does not hold dly_slope_gain of {k}"
    return None


def pipeline(c):
    """All of absolute calibration after redundant calibration."""
    from hera_cal import apply_cal
    nch = 64
    f = F0 + DF * np.arange(nch)
    nt = c.shape[0]
    eta = {p: c.rng.integers(-2, 3, (nt, nch)) for p in c.feeds}
    c.antpos.pop(99, None)
    pos = {a: np.array(list(p)[:2] + [0.]) for a, p in c.antpos.items()}
    phase = lambda k: 2 * np.pi * per_time(c, k, "dsl") * .3 * DLY * f + UNIT * per_time(c, k, "psl")
    d, m, w, true = {}, {}, {}, {}
    byvec = {}
    for k in c.order:
        v = tuple(np.rint(pos[k[1]] - pos[k[0]]).astype(int)) + (k[2],)
        r = tuple(-np.array(v[:-1])) + (k[2],)
        new = c.rng.integers(1, 4, (nt, nch)) * np.exp(2j * np.pi * c.rng.random((nt, nch)))
        mod = byvec.setdefault(v, np.conj(byvec[r]) if r in byvec else new)
        true[k] = mod * 2. ** (eta[k[2][0]] + eta[k[2][1]]) * np.exp(1j * phase(k))
        d[k], m[k] = true[k].copy(), mod.copy()
        w[k] = c.rng.uniform(.5, 2, (nt, nch))
        # a few bad channels of one baseline
        b = (c.rng.random((nt, nch)) < .03)
        w[k][b], d[k][b] = 0, c.junk(int(b.sum()))
        for t in range(nt):
            if c.keys[k]["rt"][t]["dead"]:
                w[k][t], d[k][t] = 0, c.junk(nch)
    flags = {a: np.zeros((nt, nch), bool) for a in c.ants}
    if c.r["guest"] != "none":
        # a flagged antenna, at the next grid point or off the grid
        base = next(iter(pos.values()))
        pos[50] = pos[c.ref] * 0 + np.max([p for p in pos.values()], axis=0) + np.array([GRID, 0, 0]) if c.r["guest"] == "on" else base + np.array([3.7 * GRID, 5.3 * GRID, 0])
        for p in c.feeds:
            flags[(50, J(p))] = np.ones((nt, nch), bool)
            k = (c.ref, 50, p * 2)
            d[k], m[k], w[k] = c.junk((nt, nch)), c.junk((nt, nch)), np.zeros((nt, nch))
    data, model, wgts = DataContainer(d), DataContainer(m), DataContainer(w)
    data.antpos, data.freqs = pos, f
    got = run_isolated(abscal.post_redcal_abscal, model, data, wgts, flags, edge_cut=0, tol=1.0, kernel=(1, 3), verbose=False)
    if got[0] == "err":
        return "pipeline-error", f"post_redcal_abscal raises {got[1]}: {got[2]}"
    g = got[1]
    if set(g) != set(flags):
        return "pipeline-ants", f"gains for {sorted(g)}, specification says {sorted(flags)}"
    for k in c.order:
        gg = g[(k[0], "J" + k[2][0] * 2)] * np.conj(g[(k[1], "J" + k[2][1] * 2)])
        use = (w[k] > 0)
        if not close((true[k] / gg)[use], m[k][use], 1e-3):
            return "pipeline-apply", f"calibrated data of {k} differ from the model by up to {np.max(abs(true[k] / gg - m[k])[use])}"
    for a in g:
        if not close(abs(g[a]), 2. ** eta[a[1][1]], 1e-3):
            return "pipeline-amp", f"amplitude of {a} is wrong"
        if a[0] == 50 and c.r["guest"] == "on":
            # a flagged antenna on the grid takes part in the tilt: its gain continues the plane
            x = pos[50]
            n1 = [b for b in pos if b != 50 and np.allclose(pos[b], x - [GRID, 0, 0])]
            n2 = [b for b in pos if b != 50 and np.allclose(pos[b], x - [2 * GRID, 0, 0])]
            if n1 and n2:
                u = lambda b: np.exp(1j * np.angle(g[(b, a[1])]))
                if not close(u(50), u(n1[0]) ** 2 / u(n2[0]), 1e-2):
                    return "pipeline-flagged", f"the gain of the flagged antenna {a} does not continue the plane of the others"
    return None


def global_phase(c):
    """The solver that looks for the global optimum finds tilts of any size."""
    from hera_cal import redcal
    c.antpos.pop(99, None)
    pos = {a: np.array(list(p)[:2] + [0.]) for a, p in c.antpos.items()}
    pol = sorted({k[2] for k in c.order})[0]
    keys = [k for k in c.order if k[2] == pol]
    ph = {c.key(x["q"]): x["ph"] for x in c.r["wind"]}
    reds = redcal.get_reds(pos, pols=[pol], bl_error_tol=1.)
    byvec, m, d = {}, {}, {}
    for k in keys:
        v = tuple(np.rint(pos[k[1]] - pos[k[0]]).astype(int))
        new = c.rng.integers(1, 4, c.shape) * np.exp(2j * np.pi * c.rng.random(c.shape))
        m[k] = byvec.setdefault(v, np.conj(byvec[tuple(-np.array(v))]) if tuple(-np.array(v)) in byvec else new)
        d[k] = m[k] * np.exp(1j * UNIT * ph[k])
    use = keys[:9]
    if not rigid({k[:2] for k in use}, {a for a, _ in c.ants}) or len(use) < 9:
        use = keys
    mk = {k: (k[0] + 200, k[1] + 200, k[2]) for k in use}
    got = run_isolated(abscal.complex_phase_abscal, DataContainer({k: d[k] for k in use}), DataContainer({mk[k]: m[k] for k in use}), reds, use, [mk[k] for k in use])
    if got[0] == "err":
        return "global-error", f"complex_phase_abscal raises {got[1]}: {got[2]}"
    meta, g = got[1]
    for k in use:
        gg = g[(k[0], "J" + pol)] * np.conj(g[(k[1], "J" + pol)])
        if np.shape(gg) != c.shape or not close(gg * m[k], d[k], 1e-3):
            return "global-apply", f"gains times model differ from the data of {k}: {(gg * m[k]).tolist()}, {d[k].tolist()}"
    return None


GRID_PARTS = dict(pipeline=pipeline, global_phase=global_phase)
PARTS = dict(calibrator=calibrator, amplitudes=amplitudes, least_squares=least_squares, cross_phase=cross_phase, tilts=tilts, antennas=antennas, delays=delays, slopes=slopes)


def behave(r, rng, idx, d):
    for p in r.get("parts", list(PARTS)):
        e = {**PARTS, **GRID_PARTS}[p](Case(r, np.random.default_rng(rng.getrandbits(32))))
        if e:
            return e
    return None


def check(chk):
    recs = []
    for na, nf, num in ((5, 2, chk.n(60, 1500)), (4, 3, chk.n(30, 700)), (6, 1, chk.n(30, 700)), (6, 2, chk.n(24, 400))):
        grid = (na, nf) == (6, 2)
        rr = chk.tlc("AbscalSolve", CFG % (na, nf, "TRUE" if grid else "FALSE"), mode="sim", num=num, depth=4)[0]
        for r in rr:
            r["parts"] = list(GRID_PARTS if grid else PARTS)
        recs += rr
    for r, e in zip(recs, chk.pmap(behave, recs)):
        chk.ran(len(PARTS))
        chk.traces += 1
        if e:
            chk.fail(e[0], e[1], r)
    chk.extra["unusable data"] = sum(x > 0 for r in recs for k in r["keys"] for row in k["cls"] for x in row)
    chk.sample(recs[0])
    bad = []
    for n, part, edit in ((0, "amplitudes", lambda f: f["eta"][0].__setitem__(0, 7)), (1, "tilts", lambda f: f["tilt"][0][0].__setitem__(0, 40))):
        for r in recs[:4]:
            r = copy.deepcopy(r)
            for f in r["feeds"]:
                edit(f)
            for a in r["ants"]:
                a["tt"][0][0] += 30
            r["parts"] = [part]
            bad.append(r)
    k = sum(x is not None for x in chk.pmap(behave, bad, tag="b"))
    assert k >= len(bad) - 4 or chk.viol, (k, len(bad))
    chk.binding.append(f"perturbing expectations makes {k} of {len(bad)} replays fail")


if __name__ == "__main__":
    main("C26", check, assumptions=["linsolve's linear algebra is outside the specification; only its answers are compared",
                                    "delays are found by interpolating a spectrum: compared to half a nanosecond"])
