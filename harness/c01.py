"""C01: baseline-keyed container == abstract map over physical baselines, for every history of calls."""
import copy
import numpy as np
from vlib import main, Check, run_isolated
from hera_cal.datacontainer import DataContainer

CFG = """INIT Init
NEXT Next
INVARIANTS TypeOK ConjSym RYW
PROPERTY Frame
CONSTANTS
 Ants = {%s}
 Pols = {%s}
 Depth = %d
 Kinds = {%s}
 Sim = %s
 OneVal = %s
 MaxBuild = %d
"""
SHAPE = (2, 3)
CONJ = {"nn": "nn", "ee": "ee", "ne": "en", "en": "ne"}


def arr(v, kind):
    x = {"cplx": complex(*v), "real": float(v[0]), "bool": bool(v[0])}[kind]
    return np.full(SHAPE, x)


def name(k, cse="lo"):
    return (k[0], k[1], k[2].upper() if cse == "up" else k[2])


def rev(k):
    return (k[1], k[0], CONJ[k[2]])


def build(items, layout, kind):
    ent = [((i, j, p), arr((re, im), kind)) for i, j, p, re, im in items]
    if layout == "flat":
        return DataContainer({k: v for k, v in ent})
    d = {}
    for (i, j, p), v in ent:
        if layout == "polfirst":
            d.setdefault(p, {})[(i, j)] = v
        else:
            d.setdefault((i, j), {})[p] = v
    return DataContainer(d)


def same(a, b):
    a = np.asarray(a)
    return a.shape == b.shape and (a.dtype == b.dtype or a.dtype == float and b.dtype == complex) and np.array_equal(a, b)


def observe(dc, st, kind, ants, pols):
    """Compare everything a client can see of dc with the abstract map st (list of [i,j,p,re,im])."""
    exp = {}
    for i, j, p, re, im in st:
        exp[(i, j, p)] = arr((re, im), kind)
    full = dict(exp)
    for k, v in exp.items():
        if rev(k) not in full:
            full[rev(k)] = np.conj(v) if kind == "cplx" else v
    if len(dc) != len(exp):
        return f"len() is {len(dc)}, abstract map has {len(exp)} baselines"
    ks = list(dc.keys())
    canon = lambda k: k if k in exp else rev(k)
    for nm, lst in (("keys()", ks), ("bls()", dc.bls()), ("iteration", list(iter(dc)))):
        if len(lst) != len(exp) or {canon(k) for k in lst} != set(exp):
            return f"{nm} lists {sorted(lst)}; abstract map has {sorted(exp)}"
    for k, v in dc.items():
        if k not in full or not same(v, full[k]):
            return f"items()[{k}] is {np.ravel(v)[0]}, expected {full.get(k, [[None]])[0][0]}"
    if len(list(dc.values())) != len(exp):
        return "values() has the wrong length"
    aps = {frozenset(k[:2]) for k in exp}
    if {frozenset(a) for a in dc.antpairs()} != aps:
        return f"antpairs() {dc.antpairs()} but baselines are {sorted(exp)}"
    pstored = set()
    for k in ks:
        pstored.add(k[2])
    if set(dc.pols()) != pstored:
        return f"pols() {dc.pols()} but keys are {ks}"
    for i in ants:
        for j in ants:
            want = any(k[:2] == (i, j) for k in full)
            if bool(dc.has_antpair((i, j))) != want:
                return f"has_antpair({(i, j)}) is {not want}"
            for p in pols:
                for cse in ("lo", "up"):
                    k = (i, j, p)
                    nk = name(k, cse)
                    want = k in full
                    if bool(nk in dc) != want or bool(dc.has_key(nk)) != want or bool(dc.has_key((i, j), nk[2])) != want:
                        return f"membership of {nk} disagrees with abstract map ({want})"
                    r = run_isolated(lambda: dc[nk])
                    r2 = run_isolated(lambda: dc.get_data(*nk))
                    if want:
                        for how, rr in (("[]", r), ("get_data", r2)):
                            if rr[0] != "ok":
                                return f"{how} {nk} raised {rr[1]}"
                            if not same(rr[1], full[k]):
                                return f"{how} {nk} -> {np.ravel(rr[1])[0]} shape {np.shape(rr[1])}, expected {full[k][0, 0]}"
                        if not same(dc.get(nk), full[k]):
                            return f"get({nk}) wrong"
                    else:
                        if r[0] != "err" or r[1] != "KeyError":
                            return f"reading absent {nk} did not raise KeyError: {r[:2]}"
                        if dc.get(nk, "dflt") != "dflt":
                            return f"get({nk}, default) did not return the default"
            # every polarisation of one antenna pair
            polsij = {p for p in pstored if (i, j, p) in full}
            if polsij:
                r = run_isolated(lambda: dc[(i, j)])
                if r[0] != "ok":
                    return f"[{(i, j)}] raised {r[1]} {r[2]} though polarizations {sorted(polsij)} are present"
                if set(r[1]) != polsij or any(not same(r[1][p], full[(i, j, p)]) for p in polsij):
                    return f"[{(i, j)}] returned polarizations {sorted(r[1])} / wrong values"
                if set(dc.pols((i, j))) != polsij:
                    return f"pols({(i, j)}) = {dc.pols((i, j))}"
    for p in pstored:
        want = {a for a in dc.antpairs() if a + (p,) in full}
        for pp in (p, p.upper()):
            r = run_isolated(lambda: dc[pp])
            if r[0] != "ok":
                return f"[{pp!r}] raised {r[1]} {r[2]} though baselines with that polarization are present"
            if set(r[1]) != want or any(not same(r[1][a], full[a + (p,)]) for a in want):
                return f"[{pp!r}] returned {sorted(r[1])}, expected {sorted(want)} / wrong values"
            if set(dc.antpairs(pp)) != want:
                return f"antpairs({pp!r}) = {dc.antpairs(pp)}, expected {want}"
            if not dc.has_pol(pp):
                return f"has_pol({pp}) False"
    for p in ("nn", "ne", "en", "ee"):
        if bool(dc.has_pol(p)) != (p in pstored):
            return f"has_pol({p}) wrong"
        if exp and p not in pstored and CONJ[p] not in pstored:
            r = run_isolated(lambda: dc[p])
            if r[:2] != ("err", "KeyError"):
                return f"[{p!r}] on a container without that polarization: {r[:2]}"
    return None


def replay(trace, ants, pols):
    """Drive the real class through one behaviour of the specification."""
    S = {}
    kind = trace[0]["e"]["kind"]
    realok = kind == "cplx"
    for n, step in enumerate(trace):
        e = step["e"]
        op = e["op"]
        try:
            if realok and op in ("fdiv", "sfdiv"):      # // truncates complex values, floors real ones
                for x in {e["a"], e.get("b", e["a"])}:
                    for k in list(S[x].keys()):
                        S[x][k] = S[x][k].astype(complex)
            if op == "build":
                S[e["s"]] = build(e["items"], e["layout"], kind)
            elif op == "set":
                # real values are also stored as real arrays in a container of complex ones
                S[e["s"]][name(e["k"], e["cse"])] = arr(e["v"], "real" if realok and e["v"][1] == 0 and e["v"][0] != 2 else kind)
            elif op == "del":
                ks = [name(k, e["cse"]) for k in e["ks"]]
                if len(ks) == 1:
                    del S[e["s"]][ks[0]]
                else:
                    del S[e["s"]][ks]
            elif op == "copy":
                S[e["d"]] = copy.deepcopy(S[e["a"]])
            elif op == "neg":
                S[e["d"]] = -S[e["a"]]
            elif op == "inv":
                S[e["d"]] = ~S[e["a"]]
            elif op.startswith("s") and op != "sub":
                v = float(e["v"][0])
                a = S[e["a"]]
                S[e["d"]] = {"sadd": lambda: a + v, "ssub": lambda: a - v, "smul": lambda: a * v, "sdiv": lambda: a / v, "sfdiv": lambda: a // v}[op]()
            else:
                a, b = S[e["a"]], S[e["b"]]
                S[e["d"]] = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a / b, "fdiv": lambda: a // b}[op]()
        except Exception as ex:
            return n, op, f"{op} raised {type(ex).__name__}: {ex}"
        for s in S:
            if not isinstance(S[s], DataContainer):
                return n, op, f"{op} produced a {type(S[s]).__name__}"
            msg = observe(S[s], step["st"][s - 1], kind, ants, pols)
            if msg:
                return n, op, f"after {op}: slot {s}: {msg}"
    return None


def check(chk):
    plist = ["nn", "ne", "en", "ee"]
    q = lambda xs: ",".join(f'"{x}"' for x in xs)
    runs = []
    # exhaustive short histories (every op, every orientation) ...
    for kd, pols in (("cplx", ["ne", "en"]), ("real", ["ne", "en"]), ("bool", ["nn"])):
        runs.append(("bfs", [0, 1], pols, chk.n(3, 3), [kd], "FALSE", "TRUE", 1, 0))
    # ... and long random ones
    runs.append(("sim", [0, 1, 2], plist, 12, ["cplx", "real", "bool"], "TRUE", "FALSE", 2, chk.n(200, 4000)))
    runs.append(("sim", [0, 1], ["ne", "en", "nn"], 25, ["cplx"], "TRUE", "FALSE", 2, chk.n(100, 1500)))
    for mode, ants, pols, depth, kinds, sim, one, mb, num in runs:
        cfg = CFG % (",".join(map(str, ants)), q(pols), depth, q(kinds), sim, one, mb)
        traces, _ = chk.tlc("BlContainer", cfg, mode=mode, num=num, depth=depth + 2)
        if mode == "bfs" and chk.quick and len(traces) > 700:
            traces = chk.rng.sample(traces, 700)
        for t in traces:
            r = replay(t, ants, pols)
            chk.traces += 1
            chk.ran(len(t))
            if r:
                chk.fail(f"{r[1]}", f"history step {r[0]}: {r[2]}", t[:r[0] + 1])
        if traces:
            chk.sample(traces[0][:4])
            if not chk.viol:
                # binding control: a corrupted expectation must be rejected by the replay
                t = copy.deepcopy(traces[-1])
                for row in t[-1]["st"]:
                    if row:
                        row[0][3] = 0 if row[0][3] else 1
                        break
                assert replay(t, ants, pols) is not None, "corrupted trace accepted"
                chk.binding.append("corrupted expectation rejected")


if __name__ == "__main__":
    main("C01", check, assumptions=["value arrays constant over time and frequency; 2-3 antennas, 4 polarizations"])
