"""C16: chi-squared accumulation, its observation counts and its expected value per degree of freedom."""
import copy
import warnings
import numpy as np
warnings.simplefilter("ignore")
from vlib import main, run_isolated
from hera_cal import utils, redcal
from hera_cal.datacontainer import DataContainer

CFG = "INIT Init\nNEXT Next\nINVARIANT OnePass\nINVARIANT Twice\nCONSTANTS\n Ants = {0,1,2,3}\n NT = 2\n NF = 2\n"
K = lambda k: (k[0], k[1], k[2][0] + k[2][1])
A = lambda a: (a[0], "J" + a[1] * 2)


def grid(v, fn, dt):
    return np.array([[fn(c) for c in row] for row in v], dt)


def do(rec, rng, idx, d):
    D = {K(x["k"]): grid(x["v"], lambda c: complex(*c["d"]), complex) for x in rec["d"]}
    M = {K(x["k"]): grid(x["v"], lambda c: complex(*c["m"]), complex) for x in rec["d"]}
    W = {K(x["k"]): grid(x["v"], lambda c: c["w"], float) for x in rec["d"]}
    G = {A(x["a"]): grid(x["v"], lambda c: complex(*c["g"]), complex) for x in rec["g"]}
    GF = {A(x["a"]): grid(x["v"], lambda c: c["f"], bool) for x in rec["g"]}
    kw = dict(split_by_antpol=rec["split"])
    for k in rec["nomod"]:
        del M[K(k)]
    for k in rec["now"]:
        del W[K(k)]
    if rec["useR"]:
        groups = {}
        for k, r in rec["red"]:
            groups.setdefault(K(r), []).append(K(k))
        kw["reds"] = [[r] + sorted(set(g) - {r}) for r, g in groups.items()]
        for k in list(M):
            if k not in groups and rng.random() < .7:
                del M[k]
    if rec["hasg"]:
        kw["gains"] = G
    if rec["hasf"]:
        kw["gain_flags"] = GF
    cont = rng.random() < .5
    wrap = DataContainer if cont else dict
    M0, W0, D0, G0 = map(copy.deepcopy, (M, W, D, G))
    model = wrap(M) if M else M
    wg = wrap(W) if W else W
    st = dict(chisq=None, nObs=None, chisq_per_ant=None, nObs_per_ant=None)
    for ci, (call, want) in enumerate(zip(rec["calls"], rec["hist"])):
        bls = [K(k) for k in call]
        data = wrap({b: D[b].copy() for b in bls})
        what = f"call {ci + 1} of {[[K(k) for k in c] for c in rec['calls']]} (split {rec['split']}, gains {rec['hasg']}, gain_flags {rec['hasf']}, weights {rec['hasw']}, reds {kw.get('reds')})"
        r = run_isolated(utils.chisq, data, model, data_wgts=wg if rec["hasw"] else None, **kw, **st)
        if r[0] == "err":
            return "raised", f"chisq raised {r[1:]} on {what}"
        c, n, ca, na = r[1]
        st = dict(chisq=c, nObs=n, chisq_per_ant=ca, nObs_per_ant=na)
        wt = {x["k"]: (np.array(x["c"], float), np.array(x["n"])) for x in want["tot"]}
        if rec["split"]:
            wt = {"J" + k * 2: v for k, v in wt.items()}
            if set(c) != set(wt) or set(n) != set(wt):
                return "total", f"{what}: totals for {sorted(c)}, specification says {sorted(wt)}"
            tots = [(k, c[k], n[k], wt[k]) for k in wt]
        else:
            tots = [("all", c, n, wt.get("all", (np.zeros((2, 2)), np.zeros((2, 2)))))]
        for k, cc, nn, (wc, wn) in tots:
            if not np.allclose(cc, wc):
                return "total", f"{what}: chisq[{k}] is {np.asarray(cc).tolist()}, specification says {wc.tolist()}"
            if not np.array_equal(nn, wn):
                return "nobs", f"{what}: nObs[{k}] is {np.asarray(nn).tolist()}, specification says {wn.tolist()}"
        wa = {A(x["k"]): (np.array(x["c"], float), np.array(x["n"])) for x in want["ant"]}
        if set(ca) != set(wa) or set(na) != set(wa):
            return "ant", f"{what}: antennas {sorted(ca)}, specification says {sorted(wa)}"
        for k in wa:
            if not np.allclose(ca[k], wa[k][0]):
                return "ant", f"{what}: chisq_per_ant[{k}] is {ca[k].tolist()}, specification says {wa[k][0].tolist()}"
            if not np.array_equal(na[k], wa[k][1]):
                return "nobs-ant", f"{what}: nObs_per_ant[{k}] is {na[k].tolist()}, specification says {wa[k][1].tolist()}"
        for nm, x, y in (("data", data, {b: D0[b] for b in bls}), ("model", model, M0), ("weights", wg, W0), ("gains", G, G0)):
            if set(x.keys()) != set(y) or any(not np.array_equal(x[k], y[k]) for k in y):
                return "mutates", f"{what} changed its {nm}"
    return None


def dof(chk):
    """expected chi^2 (degrees of freedom): per baseline, group and antenna are the same total, which is
    baselines minus the mean rank of the amplitude and phase systems; normalized chi^2 divides by them"""
    for _ in range(chk.n(160, 1500)):
        rng = chk.rng
        pos = {}
        for a in range(rng.randint(4, 8)):
            p = (14.6 * rng.randint(0, 3), 14.6 * rng.randint(0, 2), 0.)
            if p not in pos.values():
                pos[a * rng.choice([1, 3])] = p
        pos = {a: np.array(p) for a, p in pos.items()}
        pols = rng.choice([["nn"], ["nn", "ee"], ["nn", "ee", "ne", "en"]])
        mode = {1: "1pol", 2: "2pol", 4: rng.choice(["4pol", "4pol_minV"])}[len(pols)]
        reds = redcal.get_reds(pos, pols=pols, pol_mode=mode)
        if rng.random() < .5:
            reds = [g for g in reds if rng.random() < .8]
        if rng.random() < .3:
            reds = [[b for b in g if rng.random() < .9] for g in reds]
            reds = [g for g in reds if g]
        if not reds:
            continue
        r = run_isolated(lambda: (redcal.predict_chisq_per_bl(reds), redcal.predict_chisq_per_red(reds), redcal.predict_chisq_per_ant(reds)))
        chk.ran()
        if r[0] == "err":
            chk.fail("dof-raised", f"predict_chisq raised {r[1:]} for {reds}")
            continue
        pb, pr, pa = r[1]
        bls = [b for g in reds for b in g]
        ends = {b: [(b[0], "J" + b[2][0] * 2), (b[1], "J" + b[2][1] * 2)] for b in bls}
        ants = sorted({e for b in bls for e in ends[b]})
        ranks = []
        for sign in (1, -1):
            M = np.zeros((len(bls), len(ants) + len(reds)))
            for i, b in enumerate(bls):
                M[i, ants.index(ends[b][0])] += 1
                M[i, ants.index(ends[b][1])] += sign
                M[i, len(ants) + [b in g for g in reds].index(True)] += 1
            ranks.append(np.linalg.matrix_rank(M))
        want = len(bls) - sum(ranks) / 2
        tot = sum(pb.values())
        bad = None
        if set(pb) != set(bls) or set(pr) != {g[0] for g in reds} or set(pa) != set(ants):
            bad = "keys do not match baselines, groups and antennas"
        elif abs(tot - want) > 1e-6:
            bad = f"total {tot}, expected {want}"
        elif abs(sum(pr.values()) - want) > 1e-6 or abs(sum(pa.values()) - 2 * want) > 1e-6:
            bad = f"groups sum to {sum(pr.values())}, antennas to {sum(pa.values())}, total {want}"
        elif any(abs(pr[g[0]] - sum(pb[b] for b in g)) > 1e-6 for g in reds) or any(abs(pa[a] - sum(pb[b] * ends[b].count(a) for b in bls)) > 1e-6 for a in ants):
            bad = "a group's or antenna's value is not the sum over its baselines"
        elif any(abs(pb[g[0]]) > 1e-6 for g in reds if len(g) == 1) or any(v < -1e-6 or v > 1 + 1e-6 for v in pb.values()):
            bad = "per-baseline value outside [0, 1] or nonzero for a group of one"
        if bad:
            chk.fail("dof", f"predict_chisq for {reds}: {bad}")
            continue
        # normalized chi^2
        if want < .5 or any(pa[a] < 1e-3 for a in ants):
            continue
        g_ = np.random.default_rng(rng.randint(0, 10**9))
        cx = lambda: g_.normal(size=(2, 2)) + 1j * g_.normal(size=(2, 2))
        data, w = DataContainer({b: cx() for b in bls}), DataContainer({b: g_.integers(0, 3, (2, 2)).astype(float) for b in bls})
        vis, gains = {g[0]: cx() for g in reds}, {a: cx() for a in ants}
        r = run_isolated(redcal.normalized_chisq, data, w, reds, DataContainer(copy.deepcopy(vis)), gains)
        if r[0] == "err":
            chk.fail("norm-raised", f"normalized_chisq raised {r[1:]} for {reds}")
            continue
        cs, cpa = r[1]
        term = {b: w[b] * np.abs(data[b] - gains[ends[b][0]] * gains[ends[b][1]].conj() * vis[g[0]]) ** 2 for g in reds for b in g}
        if len(pols) < 4:
            ok = set(cs) == {a[1] for a in ants} and all(np.allclose(cs[p], sum(term[b] for b in bls if ends[b][0][1] == p) / sum(pb[b] for b in bls if ends[b][0][1] == p)) for p in cs)
        else:
            ok = np.allclose(cs, sum(term.values()) / want)
        ok2 = set(cpa) == set(ants) and all(np.allclose(cpa[a], sum(term[b] * ends[b].count(a) for b in bls) / pa[a]) for a in ants)
        if not ok or not ok2:
            chk.fail("norm", f"normalized_chisq for {reds} (pol_mode {mode}): {'total' if not ok else 'per-antenna'} is not chi^2 over degrees of freedom")


def check(chk):
    recs = chk.tlc("ChiSq", CFG, mode="sim", num=chk.n(500, 6000), depth=14)[0]
    assert len(recs) > .8 * chk.n(500, 6000), len(recs)
    for r, x in zip(recs, chk.pmap(do, recs)):
        chk.ran(len(r["calls"]))
        chk.traces += 1
        if x:
            chk.fail(x[0], x[1], r)
    dof(chk)
    chk.sample({k: recs[0][k] for k in ("split", "hasg", "hasf", "hasw", "useR", "calls", "hist")})
    if not chk.viol:
        import random
        bad = 0
        for r in recs[:40]:
            c = copy.deepcopy(r)
            if c["hist"][-1]["tot"]:
                c["hist"][-1]["tot"][0]["n"][0][0] += 1
                bad += do(c, random.Random(1), 0, None) is not None
            else:
                bad += 1
        assert bad == 40, bad
        chk.binding.append("one observation more in a specified total makes every replay fail")


if __name__ == "__main__":
    main("C16", check, assumptions=["up to 9 baselines of 4 antennas, 1, 2 or 4 polarizations, no autocorrelations, 2x2 pixels, every split of a random order into calls; arrays of up to 8 antennas for degrees of freedom"])
