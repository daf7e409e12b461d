"""C15: redundant solutions reproduce the data and degeneracy moves change nothing."""
import copy
import signal
import warnings
import numpy as np
warnings.simplefilter("ignore")
from vlib import main, run_isolated
from hera_cal import redcal
from hera_cal.redcal import RedSol, RedundantCalibrator, filter_reds
from hera_cal.datacontainer import DataContainer
from hera_cal.utils import split_bl, reverse_bl

CFG = "INIT Init\nNEXT Next\nINVARIANT ModelIsData\nPROPERTY OnlyMore\nCONSTANTS Steps = %d\n Px = 2\n"
Q = 3600
TAU = 2 * np.pi
POLS = {"1pol": ["ee"], "2pol": ["ee", "nn"], "4pol": ["ee", "en", "ne", "nn"], "4pol_minV": ["ee", "en", "ne", "nn"]}
num = lambda x: 2. ** (np.array(x)[..., 0] / 8) * np.exp(TAU * 1j * np.array(x)[..., 1] / Q)
ant = lambda a: (a[0], "J" + a[1] * 2)


class Case:
    def __init__(self, rec, shape):
        self.mode, self.pos, self.shape = rec["mode"], {a: np.array(p) for a, p in rec["pos"]}, shape
        self.g = {ant(a): num(v).reshape(shape) for a, v in rec["tg"]}
        self.v = {self.gid(g): num(v).reshape(shape) for g, v in rec["tv"]}
        self.antpos = {a: np.array([14.6 * p[0], 14.6 * p[1], 0.]) for a, p in self.pos.items()}
        self.reds = redcal.get_reds(self.antpos, pols=POLS[self.mode], pol_mode=self.mode)
        self.bls = [bl for r in self.reds for bl in r]

    @staticmethod
    def gid(g):
        return tuple(g[0]), g[1]

    def group(self, bl):
        """Group of a baseline and whether it points the other way."""
        d = tuple(int(x) for x in self.pos[bl[1]] - self.pos[bl[0]])
        back = d < (0, 0)
        p = bl[2][::-1] if back else bl[2]
        return ((-d[0], -d[1]) if back else d, "x" if self.mode == "4pol_minV" and p[0] != p[1] else p), back

    def vis(self, bl, v=None):
        g, back = self.group(bl)
        return np.conj((v or self.v)[g]) if back else (v or self.v)[g]

    def data(self, g=None, v=None, noise=None, autos=False):
        g = g or self.g
        d = {bl: g[split_bl(bl)[0]] * np.conj(g[split_bl(bl)[1]]) * self.vis(bl, v) for bl in self.bls}
        if noise is not None:
            d = {k: x + .05 * (noise.normal(size=x.shape) + 1j * noise.normal(size=x.shape)) for k, x in d.items()}
        if autos:
            d.update({(a[0], a[0], a[1][1:]): 100 * np.abs(x) ** 2 + 0j for a, x in g.items()})
        return DataContainer(d)


def walk(rec, rng):
    shape = rng.choice([(1, 2), (2, 1)])
    C = Case(rec, shape)
    data = C.data(autos=True)
    data.freqs = 1.2e8 + 1e5 * np.arange(max(shape[1], 2))[:shape[1]]
    if shape[1] == 1:
        data.freqs = np.array([1.2e8, 1.201e8])
    data.times_by_bl = {bl[:2]: 2458100.2 + 1e-4 * np.arange(shape[0]) for bl in data}
    keep = {k: v.copy() for k, v in data.items()}
    first = rec["log"][0]
    start = rec["start"]
    solved, known = {ant(a) for a in start["solved"]}, {C.gid(g) for g in start["known"]}
    reds = C.reds if rec["full"] else filter_reds(C.reds, ants=solved)
    vis = {}
    for r in reds:
        if C.group(r[0])[0] in known:
            k = rng.choice([b for b in r if split_bl(b)[0] in solved and split_bl(b)[1] in solved])
            vis[k] = C.vis(k)
    sol = RedSol(copy.deepcopy(reds), gains={a: C.g[a].copy() for a in solved}, vis=vis)
    who = f"{C.mode} array at { {k: v.tolist() for k, v in C.pos.items()} }, gains of {sorted(solved)}, {'all' if rec['full'] else 'filtered'} redundancies"
    done, first_solved = [], sorted(solved)
    for e in rec["log"]:
        op = e["op"]
        done.append(op)
        now = f"{who}, after {done}"
        solved1, known1 = {ant(a) for a in e["solved"]}, {C.gid(g) for g in e["known"]}
        have = set(sol.gains)
        if op == "canon" and not rec["full"]:
            # few redundancies leave more freedom than the array at large: nothing is specified of extending such a solution
            gen = redcal.reds_to_antpos(sol.reds)
            if len(next(iter(gen.values()))) > np.linalg.matrix_rank(np.array([C.pos[a] - C.pos[next(iter(gen))] for a in gen])):
                return
        if op in ("fix", "canon"):
            target = None if op == "canon" else {ant(a): num(x).reshape(shape) for a, x in e["g"]}
            tkeep = copy.deepcopy(target)
            if rng.random() < .5:
                sol.remove_degen(**({} if target is None else {"degen_sol": target if rng.random() < .5 else RedSol(sol.reds, gains=target)}))
            else:
                old = copy.deepcopy((dict(sol.gains), dict(sol.vis.items())))
                new = sol.remove_degen(degen_sol=target, inplace=False)
                if any(not np.array_equal(old[0][k], sol.gains[k]) for k in old[0]) or any(not np.array_equal(old[1][k], sol.vis[k]) for k in old[1]):
                    return "degen-mutates", f"{now}: remove_degen(inplace=False) changed the solution it was called on"
                sol = new
            if target is not None and any(not np.array_equal(target[k], tkeep[k]) for k in tkeep):
                return "degen-mutates", f"{now}: remove_degen changed the target"
            if op == "canon":                                    # once is as good as twice
                two = sol.remove_degen(inplace=False)
                if any(not np.allclose(two[k], sol[k], rtol=1e-6) for k in sol.gains):
                    return "degen-twice", f"{now}: removing degeneracies again changes gains"
        elif op == "update_vis":
            up = [r for r in filter_reds(C.reds, ants=have) if any(b in sol.vis for b in r)]
            w = None
            if rng.random() < .6:
                w = DataContainer({b: np.array([[rng.choice([0, 1, 2, .5]) for _ in range(shape[1])] for _ in range(shape[0])]) for r in up for b in r})
            sol.update_vis_from_data(data, wgts=w, reds_to_update=up)
        elif op == "extend_vis":
            if rec["full"]:
                sol.extend_vis(data)
            else:
                sol.extend_vis(data, reds_to_solve=[r for r in filter_reds(C.reds, ants=have) if not any(b in sol.vis for b in r)])
        elif op == "extend_gains":
            sol.extend_gains(data, **({} if rec["full"] else {"extended_reds": C.reds}))
            if not rec["full"]:
                sol = RedSol(C.reds, gains=sol.gains, vis={b: sol.vis[b] for b in sol.vis})
        elif op == "expand_vis":
            redcal.expand_omni_vis(sol, C.reds, data)
        elif op == "expand_gains":
            redcal.expand_omni_gains(sol, C.reds, data)
        if set(sol.gains) != solved1:
            return "solved", f"{now}: gains of {sorted(sol.gains)}, specification says {sorted(solved1)}"
        got = {C.group(b)[0] for b in C.bls if b in sol.vis}
        if got != known1:
            return "known", f"{now}: visibilities of groups {sorted(got)}, specification says {sorted(known1)}"
        for b in C.bls:
            if b in sol.vis and split_bl(b)[0] in sol and split_bl(b)[1] in sol:
                if not np.allclose(sol.model_bl(b), keep[b], rtol=1e-5):
                    return "model", f"{now}: the solution says {sol.model_bl(b)} of {b}, the data are {keep[b]}"
                if not np.allclose(sol.calibrate_bl(b, data[b]), sol.vis[b], rtol=1e-5) or not np.allclose(sol.vis[reverse_bl(b)], np.conj(sol.vis[b])):
                    return "model-cal", f"{now}: calibrated data of {b} are not its visibility, or its reverse is not its conjugate"
        if e["canon"]:
            for p in {a[1] for a in sol.gains}:
                m = [np.abs(sol[a] * sol[b]) for a in first_solved for b in first_solved if a != b and a[1] == b[1] == p] if op == "canon" else []
                if m and not np.allclose(np.mean(m, axis=0), 1, rtol=1e-5):
                    return "canon", f"{now}: the gains' average product is {np.mean(m, axis=0)}, not 1"
            if op == "canon":
                ants = sorted(sol.gains)
                ph = np.array([np.angle(sol[a]) for a in ants])
                x = np.array([C.pos[a[0]] for a in ants])
                sets = [[i for i, a in enumerate(ants) if a[1] == p] for p in sorted({a[1] for a in ants})]
                for s in (sets if C.mode in ("1pol", "2pol") else [range(len(ants))]):
                    if np.abs(np.einsum("ik,itf->ktf", x[list(s)], ph[list(s)])).max() > 1e-4 * 10:
                        return "canon", f"{now}: phases still slope across the array"
                for s in (sets if C.mode != "4pol_minV" else [range(len(ants))]):
                    if np.abs(np.sum(ph[list(s)], axis=0)).max() > 1e-4:
                        return "canon", f"{now}: phases do not average to zero"
        else:
            for a, x in e["g"]:
                if not np.allclose(sol[ant(a)], num(x).reshape(shape), rtol=1e-5):
                    return "gains", f"{now}: gain of {ant(a)} is {sol[ant(a)]}, specification says {num(x)}"
            want = {C.gid(g): num(x).reshape(shape) for g, x in e["v"]}
            for b in C.bls:
                if b in sol.vis and not np.allclose(sol[b], C.vis(b, want), rtol=1e-5):
                    return "vis", f"{now}: visibility of {b} is {sol[b]}, specification says {C.vis(b, want)}"
        first_solved = sorted(sol.gains)
    if any(not np.array_equal(keep[k], data[k]) for k in keep):
        return "data-mutates", f"{who}: the data changed in {done}"


def solve(rec, rng):
    """The solvers on the same arrays."""
    r2 = np.random.default_rng(rng.getrandbits(32))
    C = Case(rec, (1, 2))
    rc = RedundantCalibrator(C.reds)
    data = C.data()
    keep = {k: v.copy() for k, v in data.items()}
    who = f"{C.mode} array at { {k: v.tolist() for k, v in C.pos.items()} }"
    fits = lambda sol, d, tol: max(np.max(np.abs(sol.model_bl(b) - d[b]) / np.abs(d[b])) for b in C.bls) < tol
    w = rng.choice([None, {b: r2.uniform(.5, 2, (1, 2)) for b in C.bls}])
    kw = {} if w is None else {"wgts": w}
    near = lambda s: RedSol(C.reds, gains={a: x * np.exp(r2.normal(scale=s, size=x.shape) + 1j * r2.normal(scale=s, size=x.shape)) for a, x in C.g.items()},
                            vis={r[0]: C.vis(r[0]) * np.exp(r2.normal(scale=s, size=(1, 2)) + 1j * r2.normal(scale=s, size=(1, 2))) for r in C.reds})
    chi = lambda sol, d: sum(np.abs(sol.model_bl(b) - d[b]) ** 2 * (1 if w is None else w[b]) for b in C.bls)
    s0 = near(.1)
    k0 = copy.deepcopy((dict(s0.gains), dict(s0.vis.items())))
    for how in ("plain", "from"):
        _, sol = rc.logcal(data, **({} if how == "plain" else {"sol0": s0}), **kw)
        if not fits(sol, data, 1e-5):
            return "logcal", f"{who}: logcal ({how}) does not reproduce noise-free data"
    for how, tol in (("lincal", 1e-5), ("omnical", 1e-2)):
        m, sol = getattr(rc, how)(data, s0, **kw, **({"maxiter": 2000, "gain": .4} if how == "omnical" else {"maxiter": 60}))
        if not fits(sol, data, tol) and (how == "lincal" or np.any(chi(sol, data) > .03 * chi(s0, data))):
            return how, f"{who}: {how} does not converge to noise-free data (off by {max(np.max(np.abs(sol.model_bl(b) - data[b]) / np.abs(data[b])) for b in C.bls):.2g} after {m['iter']})"
    if any(not np.array_equal(k0[0][k], s0.gains[k]) for k in k0[0]) or any(not np.array_equal(k0[1][k], s0.vis[k]) for k in k0[1]):
        return "start-mutates", f"{who}: logcal, lincal or omnical changed the starting point it was given"
    if any(not np.array_equal(keep[k], data[k]) for k in keep):
        return "data-mutates", f"{who}: a solver changed the data"
    noisy = C.data(noise=r2)
    for _ in range(3):
        s1 = near(rng.choice([.01, .05, .1]))
        before = chi(s1, noisy)
        how = rng.choice(["omnical", "omnical", "lincal"])
        opt = {"check_every": rng.choice([1, 2, 3, 4, 7]), "check_after": rng.choice([1, 3, 9]), "gain": rng.choice([.1, .3, .5, .9])} if how == "omnical" else {}
        opt["maxiter"] = rng.choice([1, 2, 3, 5, 10, 11, 40]) if how == "omnical" else rng.choice([10, 40])
        r = run_isolated(getattr(rc, how), noisy, copy.deepcopy(s1), **kw, **opt)
        if r[0] == "err":
            return "solver-raised", f"{who}: {how}({opt}) raised {r[1:]}"
        m, sol = r[1]
        after = chi(sol, noisy)
        if how == "omnical" and np.any(after > before * (1 + 1e-6)):
            return "chisq-grew", f"{who}: {how}({opt}) takes chi-squared from {before} to {after}"
        if not np.allclose(m["chisq"], after, rtol=1e-5):
            return "chisq-meta", f"{who}: {how}({opt}) reports chi-squared {m['chisq']} of a solution with {after}"


def whole(rec, rng):
    """Delays, offsets and flipped antennas through the full chain."""
    C = Case(rec, (1, 2))
    nf = 64
    freqs = np.linspace(1.2e8, 1.5e8, nf)
    if not any(len(r) > (2 if C.mode == '4pol_minV' else 1) for r in filter_reds(C.reds, max_dims=2)):
        return
    flip = set()
    tg, tv = {ant(a): v for a, v in rec["tg"]}, {C.gid(g): v for g, v in rec["tv"]}
    g = {a: 2 ** (v[0][0] / 24) * np.exp(1j * TAU * (v[1][1] / 10 * 1e-9 * freqs + v[0][1] / Q)) * (-1 if a in flip else 1) * np.ones((2, 1)) for a, v in tg.items()}
    v = {k: num(x[0]) * np.exp(1j * TAU * freqs * x[1][1] / 40 * 1e-9) * np.ones((2, 1)) for k, x in tv.items()}
    data = C.data(g=g, v=v, autos=True)
    data.freqs = freqs
    data.times_by_bl = {bl[:2]: 2458100.2 + 1e-4 * np.arange(2) for bl in data}
    keep = {k: x.copy() for k, x in data.items()}
    meta, sol = redcal.redundantly_calibrate(data, C.reds, oc_maxiter=500, check_after=rng.choice([1, 50]), check_every=rng.choice([1, 5, 10]))
    who = f"{C.mode} array at { {k: x.tolist() for k, x in C.pos.items()} }, flipped {sorted(flip)}"
    for r in meta["filtered_reds"]:
        for b in r:
            if not np.allclose(sol.model_bl(b), keep[b], rtol=2e-3):
                return "chain", f"{who}: redundantly_calibrate leaves {np.max(np.abs(sol.model_bl(b) / keep[b] - 1)):.2g} of noise-free {b}"
    fc = meta["fc_gains"]
    ants = sorted(sol.gains)
    if set(ants) != {a for r in meta["filtered_reds"] for b in r for a in split_bl(b)}:
        return "chain-ants", f"{who}: gains of {ants}"
    ph = np.array([np.angle(sol[a] / fc[a]) for a in ants])
    for pol in {a[1] for a in ants}:
        one = [i for i, a in enumerate(ants) if a[1] == pol]
        amp = [np.mean([np.abs(x[ants[i]] * x[ants[j]]) for i in one for j in one if i != j], axis=0) for x in (sol, fc)]
        if not np.allclose(*amp, rtol=1e-4):
            return "chain-degen", f"{who}: the average product of gains is {np.ravel(amp[0])[:2]}, the first calibration's {np.ravel(amp[1])[:2]}"
    if C.mode == "1pol" and max(np.abs(np.sum(ph, axis=0)).max(), np.abs(np.einsum("ik,itf->ktf", [C.pos[a[0]] for a in ants], ph)).max()) > 1e-2:
        return "chain-degen", f"{who}: phases of the solution slope against those of the first calibration"
    if max(np.max(np.abs(x)) for x in (meta["chisq"].values() if isinstance(meta["chisq"], dict) else [meta["chisq"]])) > 1:
        return "chain-chisq", f"{who}: chi-squared of noise-free data is {meta['chisq']}"
    if any(not np.array_equal(keep[k], data[k]) for k in keep):
        return "data-mutates", f"{who}: redundantly_calibrate changed the data"


def alarm(*a):
    raise TimeoutError("does not end")


def do(item, rng, idx, d):
    what, rec = item
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(60)
    r = run_isolated({"walk": walk, "solve": solve, "whole": whole}[what], rec, rng)
    signal.alarm(0)
    return (what + "-raised", f"{what} {rec['mode']} {rec['pos']} {[e['op'] for e in rec['log']]}: raised {r[1:]}") if r[0] == "err" else r[1]


def zeros(chk):
    """No information, no solution."""
    C = Case({"mode": "1pol", "pos": [[0, [0, 0]], [1, [1, 0]], [2, [2, 0]], [3, [3, 0]]], "tg": [[[a, "e"], [[a, 10 * a], [1, a]]] for a in range(4)],
              "tv": [[[[k, 0], "ee"], [[k, 7], [2, k]]] for k in (1, 2, 3)]}, (1, 2))
    data = C.data()
    for trial in range(20):
        junk = [np.full((1, 2), 7.7 + 3j) for _ in range(50)]
        del junk
        sol = RedSol(C.reds, gains={(a, "Jee"): C.g[a, "Jee"].copy() for a in (0, 1, 2)}, vis={(0, 1, "ee"): C.vis((0, 1, "ee"))})
        w = DataContainer({b: np.array([[0., 1.]]) if 3 in b else np.ones((1, 2)) for b in C.bls})
        sol.extend_gains(data, wgts=w)
        if sol[3, "Jee"][0, 0] != 0 or not np.isclose(sol[3, "Jee"][0, 1], C.g[3, "Jee"][0, 1]):
            chk.fail("extend-noinfo", f"extend_gains without weight for a sample gives {sol[3, 'Jee']}, not 0 there")
            break
        chk.ran()
        sol.gains[0, "Jee"][0, 0] = 0
        a, b = sol.calibrate_bl((0, 1, "ee"), data[0, 1, "ee"]), sol.calibrate_bl((0, 1, "ee"), data[0, 1, "ee"].copy(), copy=False)
        if not np.array_equal(a, b) or a[0, 0] != data[0, 1, "ee"][0, 0]:
            chk.fail("calibrate-zero", f"calibrate_bl with a zero gain gives {a} as a copy and {b} in place")
            break
        chk.ran()


def check(chk):
    recs, _ = chk.tlc("RedSolution", CFG % 6, mode="sim", num=chk.n(450, 4000), depth=12)
    assert len(recs) >= chk.n(400, 3500), len(recs)
    items = [("walk", r) for r in recs] + [("solve", r) for r in recs[:chk.n(60, 800)]] + [("whole", r) for r in recs[:chk.n(60, 600)]]
    items.sort(key=lambda i: i[0], reverse=True)
    for it, res in zip(items, chk.pmap(do, items)):
        chk.ran()
        chk.traces += 1
        if res:
            chk.fail(res[0], res[1], it[1])
    zeros(chk)
    chk.extra["modes"] = {m: sum(r["mode"] == m for r in recs) for m in POLS}
    chk.extra["operations"] = {}
    for r in recs:
        for e in r["log"]:
            chk.extra["operations"][e["op"]] = chk.extra["operations"].get(e["op"], 0) + 1
    chk.sample(recs[0])
    bad = []
    for r in recs[:12]:
        r = copy.deepcopy(r)
        e = r["log"][-1]
        if e["canon"]:
            e["solved"] = e["solved"][1:]
        else:
            e["g"][0][1][0][1] += 5
        bad.append(("walk", r))
    k = sum(x is not None for x in chk.pmap(do, bad, tag="b"))
    assert k >= len(bad) - 5 or chk.viol, (k, len(bad))
    chk.binding.append(f"perturbing expectations makes {k} of {len(bad)} replays fail")


if __name__ == "__main__":
    main("C15", check, assumptions=["phases of gains within half a turn of their target", "noise-free data except where chi-squared is compared"])
