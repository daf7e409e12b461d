"""C02: time / frequency selection histories keep data and metadata aligned."""
import copy
import numpy as np
from vlib import main
from hera_cal.datacontainer import DataContainer

CFG = """INIT Init
NEXT Next
INVARIANT TypeOK
PROPERTY Frame
CONSTANTS
 NT = %d
 NF = %d
 Depth = %d
 MaxLen = %d
 Sim = %s
"""
BLS = [(0, 1, "ee"), (1, 2, "ee"), (0, 1, "en")]
TIME = lambda t: 2458000.0 + np.asarray(t) / 64.0
LST = lambda t: np.asarray(t) / 32.0
FREQ = lambda f: 1e8 + 1e5 * np.asarray(f)


def cell(b, rows, cols, kind):
    rows, cols = np.asarray(rows), np.asarray(cols)
    v = (b + 1) * 1000 + rows[:, None] * 30 + cols[None, :]
    if kind == "flags":
        return (v * 7919 // 3) % 2 == 0
    if kind == "data":
        return v + 1j * (v % 17)
    return v.astype(float)


REV = {"ee": "ee", "en": "ne"}


def make(rows, cols, kind, with_bybl, rev=0):
    """rev: which baselines are stored the other way round (bit mask)"""
    dc = DataContainer({(bl[1], bl[0], REV[bl[2]]) if rev >> b & 1 else bl:
                        np.conj(cell(b, rows, cols, kind)) if rev >> b & 1 and kind == "data" else cell(b, rows, cols, kind)
                        for b, bl in enumerate(BLS)})
    dc.times, dc.lsts, dc.freqs = TIME(rows), LST(rows), FREQ(cols)
    if with_bybl:
        dc.times_by_bl = {bl[:2]: TIME(rows) for bl in BLS}
        dc.lsts_by_bl = {bl[:2]: LST(rows) for bl in BLS}
    return dc


def observe(dc, st, kind, with_bybl):
    rows, cols = st["rows"], st["cols"]
    if len(dc) != len(BLS):
        return f"{len(dc)} baselines instead of {len(BLS)}"
    for b, bl in enumerate(BLS):
        want = cell(b, rows, cols, kind)
        want = want.T if st["tr"] else want
        for k, w in ((bl, want), ((bl[1], bl[0], REV[bl[2]]), np.conj(want) if kind == "data" else want)):
            got = np.asarray(dc[k])
            if got.shape != w.shape or not np.array_equal(got, w):
                return f"data of {k}: shape {got.shape} / values differ from rows {rows} cols {cols}"
    if not st["meta"]:
        return None
    for nm, want in (("times", TIME(rows)), ("lsts", LST(rows)), ("freqs", FREQ(cols))):
        got = np.asarray(getattr(dc, nm))
        if got.shape != want.shape or not np.array_equal(got, want):
            return f"{nm} = {got.tolist()} do not match rows {rows} / cols {cols}"
    if with_bybl:
        for nm, want in (("times_by_bl", TIME(rows)), ("lsts_by_bl", LST(rows))):
            for ap, got in getattr(dc, nm).items():
                if len(got) != len(want) or not np.array_equal(np.asarray(got), want):
                    return f"{nm}[{ap}] does not match rows {rows}"
    return None


def pyslice(e, n):
    """1-based inclusive-exclusive bounds of the specification as a Python slice of an axis of length n"""
    lo, hi, st = e["lo"] - 1, e["hi"] - 1, e["stp"]
    if e["rev"]:
        return slice(None if hi == n else hi - 1, None if lo == 0 else lo - 1, -st)
    return slice(None if lo == 0 else lo, None if hi == n else hi, None if st == 1 else st)


def replay(trace, kind, with_bybl, rev=(0, 0)):
    e0 = trace[0]["e"]
    S = {s: make(e0["rows"], e0["cols"], kind, with_bybl, rev[s - 1]) for s in (1, 2)}
    for n, step in enumerate(trace[1:], 1):
        e, op = step["e"], step["e"]["op"]
        try:
            a, d = S.get(e.get("a")), e["d"]
            inp = e.get("a") == d
            if op in ("seltimes", "selidx"):
                if op == "seltimes":
                    kw = dict(new_times=list(TIME(e["ts"])) if n % 2 else TIME(e["ts"]))
                else:
                    kw = dict(indices=np.array(e["idx"]) - 1)
                if inp:
                    a.select_or_expand_times(in_place=True, **kw)
                else:
                    S[d] = a.select_or_expand_times(in_place=False, **kw)
            elif op in ("selfreqs", "selchans", "selslice"):
                if op == "selfreqs":
                    kw = dict(freqs=FREQ(e["fs"]))
                elif op == "selchans":
                    kw = dict(channels=np.array(e["idx"]) - 1)
                else:
                    kw = dict(channels=pyslice(e, len(a.freqs)))
                r = a.select_freqs(in_place=inp, **kw)
                if r is None:
                    return n, op, "select_freqs did not return a container"
                S[d] = r
            elif op == "deint":
                parts = a.deinterleave(e["n"], tslice=pyslice(dict(e, hi=e["hi"] + 1), len(a.times)))
                if len(parts) != e["n"]:
                    return n, op, f"deinterleave({e['n']}) returned {len(parts)} containers"
                S[d] = parts[e["i"] - 1]
            elif op == "cat":
                S[d] = S[1].concatenate(S[2] if n % 2 else [S[2]], axis=e["ax"])
            elif op == "trans":
                S[d] = a.T
            elif op == "copy":
                S[d] = copy.deepcopy(a)
        except Exception as ex:
            return n, op, f"{op} raised {type(ex).__name__}: {ex}"
        for s in S:
            msg = observe(S[s], step["st"][s - 1], kind, with_bybl)
            if msg:
                return n, op, f"after {op}: container {s}: {msg}"
    return None


def check(chk):
    runs = [("bfs", 2, 2, 3, 2, "FALSE", 0), ("bfs", 3, 2, 2, 3, "FALSE", 0), ("bfs", 2, 3, 2, 3, "FALSE", 0),
            ("sim", 5, 4, 10, 6, "TRUE", chk.n(250, 4000)), ("sim", 4, 4, 14, 5, "TRUE", chk.n(200, 3000)),
            ("sim", 7, 3, 6, 9, "TRUE", chk.n(200, 3000))]
    for mode, nt, nf, depth, ml, sim, num in runs:
        traces, _ = chk.tlc("TFContainer", CFG % (nt, nf, depth, ml, sim), mode=mode, num=num, depth=depth + 2)
        if mode == "bfs" and len(traces) > chk.n(3000, 40000):
            traces = chk.rng.sample(traces, chk.n(3000, 40000))
        for i, t in enumerate(traces):
            kind = ("data", "flags", "nsamples")[i % 3]
            r = replay(t, kind, i % 2 == 0, (0, 0) if i % 5 == 0 else (chk.rng.randrange(8), chk.rng.randrange(8)))
            chk.traces += 1
            chk.ran(len(t))
            if r:
                chk.fail(r[1], f"history step {r[0]}: {r[2]}", t[:r[0] + 1])
        chk.sample(traces[0])
        if not chk.viol:
            t = copy.deepcopy(traces[-1])
            st = t[-1]["st"][0]
            st["rows"][0] = st["rows"][0] % nt + 1
            assert replay(t, "data", True) is not None, "corrupted trace accepted"
            chk.binding.append("corrupted row identity rejected")


if __name__ == "__main__":
    main("C02", check, assumptions=["2-7 integrations, 2-4 channels, 3 baselines; every datum identifiable by its value"])
