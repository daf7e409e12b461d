"""C03: redundant-group collections under arbitrary edit histories; one-visibility-per-group container."""
import copy
import numpy as np
from vlib import main, run_isolated
from hera_cal.red_groups import RedundantGroups
from hera_cal.datacontainer import RedDataContainer, DataContainer

CFG = """INIT Init
NEXT Next
INVARIANTS %s
PROPERTY Frame
CONSTANTS
 Ants = {%s}
 Pols = {%s}
 Depth = %d
 Sim = %s
 Autos = %s
"""
CONJ = {"nn": "nn", "ee": "ee", "ne": "en", "en": "ne"}
q = lambda xs: ",".join(f'"{x}"' for x in xs)


class Enc:
    """Keys of the specification as (i,j,pol) or, in antenna-pair mode, (i,j)."""
    def __init__(self, pair):
        self.pair = pair

    def k(self, t):
        return (t[0], t[1]) if self.pair else (t[0], t[1], t[2])

    def rev(self, k):
        return (k[1], k[0]) if self.pair else (k[1], k[0], CONJ[k[2]])


def modrev(g, E):
    f, r = frozenset(g), frozenset(E.rev(k) for k in g)
    return frozenset([f, r])


def universe(E, ants, pols):
    return sorted({E.k((i, j, p)) for i in ants for j in ants for p in pols})


def observe(rg, st, E, uni, check_first):
    exp = [{E.k(k) for k in g} for g in st["gs"]]
    got = list(rg)
    if len(rg) != len(exp) or len(got) != len(exp):
        return f"{len(got)} groups (len() {len(rg)}), expected {len(exp)}: {got}"
    if any(len(set(g)) != len(g) for g in got):
        return f"a group lists a baseline twice: {got}"
    if {modrev(g, E) for g in got} != {modrev(g, E) for g in exp}:
        return f"groups {got}, expected (up to orientation) {exp}"
    member = {}
    for g in exp:
        for k in g:
            member[k] = g
            member.setdefault(E.rev(k), {E.rev(x) for x in g})
    if {frozenset((b, E.rev(b))) for b in rg.data_bls} != {frozenset((b, E.rev(b))) for b in member} or \
            len(rg.data_bls) != sum(len(g) for g in exp):
        return f"data_bls {sorted(rg.data_bls)} do not match groups {got}"
    if set(rg.data_ants) != {a for k in member for a in k[:2]}:
        return f"data_ants {sorted(rg.data_ants)} but groups are {got}"
    keyed = {E.k(k) for k in st["keyed"]}
    for b in uni:
        if (b in rg) != (b in member):
            return f"membership of {b} is {b in rg}, groups {got}"
        if b not in member:
            r = run_isolated(lambda: rg.get_ubl_key(b))
            if r[:2] != ("err", "KeyError"):
                return f"get_ubl_key of absent {b}: {r}"
            continue
        for how, f in (("[]", lambda: rg[b]), ("get_red", lambda: rg.get_red(b))):
            r = run_isolated(f)
            if r[0] != "ok":
                return f"{how} {b} raised {r[1:]}, groups {got}"
            if set(r[1]) != member[b] or len(r[1]) != len(member[b]):
                return f"{how} {b} -> {r[1]}, expected {member[b]}"
        u = run_isolated(lambda: rg.get_ubl_key(b))
        if u[0] != "ok":
            return f"get_ubl_key({b}) raised {u[1:]}"
        u = u[1]
        if u not in member[b]:
            return f"key {u} of {b} is not in its group {member[b]}"
        if rg.get_ubl_key(u) != u:
            return f"key of {b} is {u} but key of {u} is {rg.get_ubl_key(u)}"
        if rg.get_ubl_key(E.rev(b)) != E.rev(u):
            return f"key of {b} is {u} but key of reversed {E.rev(b)} is {rg.get_ubl_key(E.rev(b))}"
        if any(rg.get_ubl_key(m) != u for m in member[b]):
            return f"members of {member[b]} have different keys"
        if keyed and (keyed & (member[b] | {E.rev(x) for x in member[b]})) and not ({u, E.rev(u)} & keyed):
            return f"key {u} of {b} not drawn from the preferred baselines {keyed}"
        i = run_isolated(lambda: rg.index(b))
        if i[0] != "ok" or not (set(got[i[1]]) == member[b] or set(got[i[1]]) == {E.rev(x) for x in member[b]}
                                if i[0] == "ok" and i[1] < len(got) else False):
            return f"index({b}) = {i}, groups {got}"
        if not keyed and check_first:
            g = got[i[1]]
            if rg.get_ubl_key(g[0]) != g[0]:
                return f"key of group {g} is {rg.get_ubl_key(g[0])}, not its first baseline"
    for n, g in enumerate(got):
        if rg[n] != g:
            return f"[{n}] differs from iteration"
    # queries restricted to a set of baselines
    some = set(uni[::2])
    for b in list(member)[:4]:
        g, r = member[b], {E.rev(x) for x in member[b]}
        for kw, want in ((dict(), g & some), (dict(include_conj=True), (g & some) | {E.rev(x) for x in r & some}),
                         (dict(include_conj=True, match_conj_to_set=True), (g & some) | (r & some)),
                         (dict(include_conj=True, match_conj_to_set=True, include_conj_only_if_missing=True),
                          (g & some) | {x for x in r & some if E.rev(x) not in (g & some)})):
            if rg.get_reds_in_bl_set(b, some, **kw) != want:
                return f"get_reds_in_bl_set({b}, {kw}) = {rg.get_reds_in_bl_set(b, some, **kw)}, expected {want}"
    return None


def replay(trace, E, ants, pols, with_antpos):
    uni = universe(E, ants, pols)
    antpos = {a: np.array([a * 10.0, a * a, 0]) for a in ants} if with_antpos else None
    S = {}
    for n, step in enumerate(trace):
        e, op = step["e"], step["e"]["op"]
        d = e["d"]
        red = None
        if op not in ("build",) and "red" in e:
            red = [E.k(k) for k in e["red"]]
        rg = S.get(e.get("a"))
        inp = e.get("a") == d
        try:
            if op == "build":
                arg = [[E.k(k) for k in g] for g in e["red"]]
                keep = copy.deepcopy(arg)
                S[d] = RedundantGroups(arg, antpos=antpos)
                if arg != keep:
                    return n, op, "constructor modified its argument"
            elif op == "append":
                before = list(rg)
                keep = list(red)
                if e["pos"] < 0 or not e["new"]:
                    out = rg.append(red, inplace=inp)
                else:
                    out = rg.insert(e["pos"], red, inplace=inp)
                if red != keep:
                    return n, op, "append modified its argument"
                if not inp:
                    S[d] = copy.deepcopy(out)
                if e["new"]:
                    now = list(S[d])
                    pos = len(before) if e["pos"] < 0 else e["pos"]
                    if now != before[:pos] + [red] + before[pos:]:
                        return n, op, f"new group {red} not at position {pos}: {now}"
            elif op == "appendbad":
                r = run_isolated(lambda: rg.append(red))
                if r[:2] != ("err", "ValueError"):
                    return n, op, f"append({red}) overlapping several groups was not refused: {r}"
            elif op == "replace":
                at = E.k(e["at"])
                if e["how"] == "int":
                    i = [j for j, g in enumerate(rg) if at in g or E.rev(at) in g][0]
                    rg[i] = red
                else:
                    rg[at if e["how"] == "bl" else E.rev(at)] = red
            elif op == "delete":
                at = E.k(e["at"])
                if e["how"] == "int":
                    i = [j for j, g in enumerate(rg) if at in g or E.rev(at) in g][0]
                    del rg[i]
                else:
                    del rg[at if e["how"] == "bl" else E.rev(at)]
            elif op == "extend":
                other = S[e["b"]]
                if e["how"] == "add":
                    S[d] = rg + other
                elif inp:
                    rg.extend(list(other))
                else:
                    S[d] = copy.deepcopy(rg.extend(list(other), inplace=False))
            elif op in ("exants", "keepbls"):
                kw = dict(ex_ants=list(e["x"])) if op == "exants" else dict(bls=[E.k(k) for k in e["bls"]])
                out = rg.filter_reds(inplace=inp, **kw)
                if not inp:
                    S[d] = out
            elif op == "keyon":
                out = rg.keyed_on_bls([E.k(k) for k in e["bls"]], inplace=inp)
                if not inp:
                    S[d] = out
            elif op == "sort":
                rg.sort()
            elif op == "copy":
                S[d] = copy.deepcopy(rg)
        except Exception as ex:
            return n, op, f"{op} {'in place' if inp else ''} raised {type(ex).__name__}: {ex}"
        for s in S:
            r = run_isolated(observe, S[s], step["st"][s - 1], E, uni, True)
            msg = r[1] if r[0] == "ok" else f"observation raised {r[1:]}"
            if msg:
                return n, op, f"after {op}({ {k: v for k, v in e.items() if k not in ('op',)} }): collection {s}: {msg}"
    return None


# ---------------------------------------------------------------- one visibility per group
RCFG = """INIT Init
NEXT Next
INVARIANTS TypeOK
CONSTANTS
 Ants = {%s}
 Pols = {%s}
 Depth = %d
 Sim = TRUE
"""


def rarr(v):
    return np.full((2, 2), complex(*v))


def replay_dc(trace, E, ants, pols):
    uni = universe(E, ants, pols)
    dc = None
    for n, step in enumerate(trace):
        e, op = step["e"], step["e"]["op"]
        try:
            if op == "build":
                reds = [[E.k(k) for k in g] for g in e["groups"]]
                data = {E.k(k): rarr(v) for k, v in e["data"]}
                dc = RedDataContainer(DataContainer(data) if n % 2 else data, reds=reds)
            elif op == "set":
                dc[E.k(e["k"])] = rarr(e["v"])
        except Exception as ex:
            return n, op, f"{op} raised {type(ex).__name__}: {ex}"
        full = {}
        for row in step["st"]:
            for k in row["g"]:
                full[E.k(k)] = rarr(row["v"])
                if E.rev(E.k(k)) not in full:
                    full[E.rev(E.k(k))] = np.conj(rarr(row["v"]))
        if len(dc) != len(step["st"]):
            return n, op, f"container has {len(dc)} entries, {len(step['st'])} groups hold data (after {e})"
        for b in uni:
            if (b in dc) != (b in full):
                return n, op, f"membership of {b} is {b in dc} after {e}"
            r = run_isolated(lambda: dc[b])
            if b in full:
                if r[0] != "ok":
                    return n, op, f"reading {b} raised {r[1:]} after {e}"
                if not np.array_equal(r[1], full[b]):
                    return n, op, f"reading {b} gives {r[1][0, 0]}, expected {full[b][0, 0]} after {e}"
            elif r[0] == "ok":
                return n, op, f"reading {b}, whose group has no data, returned something after {e}"
    return None


def check(chk):
    A = lambda n: list(range(n))
    runs = [(A(4), ["nn"], 9, "FALSE", True, chk.n(200, 3000)), (A(4), ["nn", "ee"], 9, "FALSE", False, chk.n(150, 3000)),
            (A(3), ["ne", "en", "nn"], 12, "FALSE", False, chk.n(150, 3000)), (A(5), ["ee"], 16, "FALSE", False, chk.n(100, 2000)),
            (A(4), ["nn", "ee"], 8, "TRUE", False, chk.n(60, 1000)), (A(4), ["ne", "en"], 10, "TRUE", False, chk.n(60, 1000))]
    tr = None
    for ants, pols, depth, autos, pair, num in runs:
        invs = "Partition OnePol"
        traces, _ = chk.tlc("RedGroups", CFG % (invs, ",".join(map(str, ants)), q(pols), depth, "TRUE", autos), mode="sim", num=num, depth=depth + 2)
        E = Enc(pair)
        for i, t in enumerate(traces):
            if pair:
                t = [s for s in t]
                cut = [j for j, s in enumerate(t) if s["e"]["op"] in ("exants", "keepbls")]
                t = t[:cut[0]] if cut else t     # filtering is defined for (i,j,pol) keys only
            r = replay(t, E, ants, pols, i % 2 == 0)
            chk.traces += 1
            chk.ran(len(t))
            if r:
                chk.fail(f"groups/{r[1]}", f"history step {r[0]}: {r[2]}", t[:r[0] + 1])
        chk.sample(traces[0][:3])
        tr = (traces[-1], E, ants, pols)
    for ants, pols, depth, num in ((A(4), ["nn"], 8, chk.n(150, 2000)), (A(3), ["ne", "en", "nn"], 8, chk.n(150, 2000))):
        traces, _ = chk.tlc("RedDC", RCFG % (",".join(map(str, ants)), q(pols), depth), mode="sim", num=num, depth=depth + 2)
        for i, t in enumerate(traces):
            r = replay_dc(t, Enc(False), ants, pols)
            chk.traces += 1
            chk.ran(len(t))
            if r:
                chk.fail(f"reddata/{r[1]}", f"history step {r[0]}: {r[2]}", t[:r[0] + 1])
        chk.sample(traces[0][:3])
    if not chk.viol:
        t, E, ants, pols = tr
        t = copy.deepcopy(t[:2])
        t[-1]["st"][1]["gs"] = t[-1]["st"][1]["gs"][1:]
        assert replay(t, E, ants, pols, False) is not None
        chk.binding.append("collection with a group removed from the expectation rejected")


if __name__ == "__main__":
    main("C03", check, assumptions=["3-5 antennas; a replacement group never contains baselines of another group"])
