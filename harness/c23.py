"""C23: keys, polarizations, sidereal clock and sidereal grids."""
import copy
import json
import logging
import os
import warnings
import numpy as np
warnings.simplefilter("ignore")
logging.disable(logging.WARNING)
from vlib import main, run_isolated
from hera_cal import utils, lstbin
from hera_cal.lst_stack import config as lconf

DAY, SDAY = 100000000, 99726957
CFG = ("INIT Init\nNEXT Next\nINVARIANT ReverseIsInvolution\nINVARIANT ReverseSwapsAntennas\nINVARIANT NamesDistinct\nINVARIANT OnceADay\nINVARIANT CutIsTight\n"
       "CONSTANTS\n Steps = %d\n Day = " + str(DAY) + "\n Sday = " + str(SDAY) + "\n Guard = 20000\n")
TAU = 2 * np.pi
DAYS = list(range(2457700, 2460500, 7))
TOL = 7.3e-8                                                    # 1 ms


def keys(rec, rng):
    o = rec["log"]
    cur = None
    for n, e in enumerate(o):
        k = (e["i"], e["j"], e["spell"])
        clean = (e["i"], e["j"], e["name"])
        if cur is not None and cur != clean:
            return "keys", f"after {o[n - 1]['op']} the key is {cur}, specification says {clean}"
        got = {}
        if utils.comply_bl(k) != clean or utils.comply_pol(e["spell"]) != e["name"] or utils.comply_bl(k[:2]) != k[:2]:
            return "comply", f"comply_bl({k}) is {utils.comply_bl(k)}, specification says {clean}"
        if utils.split_pol(e["spell"]) != (e["ai"], e["aj"]):
            return "split", f"split_pol({e['spell']!r}) is {utils.split_pol(e['spell'])}, specification says {(e['ai'], e['aj'])}"
        if utils.join_pol(e["a"], e["b"]) != e["name"]:
            return "join", f"join_pol({e['a']!r}, {e['b']!r}) is {utils.join_pol(e['a'], e['b'])}, specification says {e['name']}"
        if utils.comply_pol(e["a"]) != e["ai"] or utils.comply_pol(e["b"]) != e["aj"]:
            return "comply-ant", f"comply_pol({e['a']!r}) is {utils.comply_pol(e['a'])}, specification says {e['ai']}"
        if utils.reverse_bl(k[:2]) != (e["j"], e["i"]) or utils.reverse_bl(utils.reverse_bl(k)) != clean:
            return "reverse", f"reversing {k} twice gives {utils.reverse_bl(utils.reverse_bl(k))}"
        a, b = utils.split_bl(k)
        if utils.join_bl(b, a) != utils.reverse_bl(k) or (a, b) != ((e["i"], e["ai"]), (e["j"], e["aj"])):
            return "split-bl", f"split_bl({k}) is {(a, b)}, specification says antennas {(e['i'], e['ai'])} and {(e['j'], e['aj'])}"
        for o_ in ("north", "east"):
            if e["name"][0] in "enrl" and utils.polnum2str(utils.polstr2num(e["name"], x_orientation=o_), x_orientation=o_) != e["name"]:
                return "num", f"{e['name']} does not survive conversion to a number and back ({o_})"
            if e["name"][0] in "enrl" and utils.jnum2str(utils.jstr2num(e["ai"], x_orientation=o_), x_orientation=o_) != e["ai"]:
                return "num", f"{e['ai']} does not survive conversion to a number and back ({o_})"
        cur = {"reverse": lambda: utils.reverse_bl(k), "split_join": lambda: utils.join_bl(*utils.split_bl(k)), "comply": lambda: utils.comply_bl(k),
               "make3": lambda: utils.make_bl(k) if n % 2 else utils.make_bl(*k), "make2": lambda: utils.make_bl((k[:2], k[2])) if n % 2 else utils.make_bl(k[:2], k[2]),
               "conj": lambda: (e["i"], e["j"], utils.conj_pol(e["name"]))}[e["op"]]()
    i, j, (fam, f, g) = rec["key"]
    if cur != (i, j, f + g):
        return "keys", f"the walk ends at {cur}, specification says {(i, j, f + g)}"


def clock(rec, rng):
    o = rec["log"]
    day = DAYS[o["day"] - 1]
    l, c = o["lst"] / SDAY * TAU, o["cut"] / SDAY * TAU
    for allow, want in ((False, o["same"]), (True, o["other"])):
        form = rng.choice(["float", "list", "array", "array"])
        turn = rng.choice([0, 0, -1] + [1] * (not allow)) * TAU
        arg = {"float": l + turn, "list": [l + turn, l], "array": np.array([l, l + turn, l])}[form]
        keep = copy.deepcopy(arg)
        sd = rng.choice([day, day + rng.uniform(.05, .95), np.int64(day)])
        got = utils.LST2JD(arg, sd, allow_other_jd=allow, lst_branch_cut=c)
        if np.any(np.asarray(arg) != np.asarray(keep)):
            return "clock-mutates", "LST2JD changed its input"
        if (form == "float") != np.isscalar(got) or (form != "float" and np.shape(got) != np.shape(arg)):
            return "clock-shape", f"LST2JD of {form} gives {type(got)} {np.shape(got)}"
        for v in np.atleast_1d(got):
            t = (v - day) * DAY
            if min(abs(t - w) for w in want) > 400:
                return "clock-day", (f"LST2JD({l:.6f}, {sd}, allow_other_jd={allow}, lst_branch_cut={c:.6f}) is {v:.6f}, "
                                     f"specification says {[day + w / DAY for w in want]}")
            back = utils.JD2LST(float(v))
            if abs((back - l + np.pi) % TAU - np.pi) > TOL:
                return "clock-back", f"LST2JD({l}) is {v}, at which the sidereal time is {back}"
    # anywhere else on Earth the sky is ahead by the longitude
    x = rng.uniform(-3, 3)
    east = dict(longitude=21.428303826863015 + np.degrees(x), latitude=rng.uniform(-60, 60), altitude=rng.uniform(0, 3000))
    v = utils.LST2JD((l + x) % TAU, day, allow_other_jd=True, lst_branch_cut=(c + x) % TAU, **east)
    if min(abs((v - day) * DAY - w) for w in o["other"]) > 400 or abs((utils.JD2LST(v, **east) - l - x + np.pi) % TAU - np.pi) > TOL:
        return "clock-longitude", f"at {east} sidereal time {(l + x) % TAU} after {(c + x) % TAU} on {day} is {v}, specification says {[day + w / DAY for w in o['other']]}"
    # a Julian date and back
    jd = day + min(o["same"]) / DAY
    lst = utils.JD2LST(jd)
    if abs(utils.LST2JD(lst, day) - jd) > TOL and len(o["same"]) == 1:
        return "clock-round", f"{jd} converts to sidereal time {lst} and back to {utils.LST2JD(lst, day)}"
    if not 0 <= lst < TAU or abs((utils.JD2RA(jd) - np.degrees(lst) + 180) % 360 - 180) > 1e-6:
        return "clock-ra", f"right ascension at zenith at {jd} is {utils.JD2RA(jd)} deg, sidereal time {np.degrees(lst)} deg"
    js = np.array([jd, jd + .01])
    if not np.array_equal(utils.JD2LST(list(js)), utils.JD2LST(js)) or utils.JD2LST(js)[0] != lst or not np.array_equal(utils.JD2RA(js)[:1], [utils.JD2RA(jd)]):
        return "clock-forms", "lists, arrays and numbers convert differently"


def circle(rec, rng):
    o = rec["log"]
    n, S = o["n"], o["times"]
    off = rng.uniform(0, 1) if rng.random() < .5 else .5
    arr = np.array([(t + off) / n * TAU + rng.choice([0, 0, TAU, -TAU]) for t in S + rng.choices(S, k=3)])
    rng2 = np.random.default_rng(rng.getrandbits(32))
    rng2.shuffle(arr)
    keep = arr.copy()
    got = utils.get_best_lst_branch_cut(arr)
    if not any(abs((got - (c + off) / n * TAU + np.pi) % TAU - np.pi) < 1e-9 for c in o["cuts"]):
        return "cut", f"branch cut {got * n / TAU - off} of times {S} on a circle of {n}, specification says {o['cuts']}"
    if not np.array_equal(arr, keep):
        return "cut-mutates", "get_best_lst_branch_cut changed its input"
    # grids of n bins: any width that rounds up to a whole division
    for mk, lo in ((lconf.make_lst_grid, True), (lstbin.make_lst_grid, True)):
        u = rng.choice([0, 1e-9, -1e-9, rng.uniform(.05, .9)])
        d = TAU / (n + u)
        begin, M = o["begin"] / 10 / n * TAU, o["bins"]
        kw = dict(begin_lst=begin, lst_width=(M + rng.uniform(-.3, .3)) / n * TAU if M < n else TAU)
        if M < 2:
            continue
        r = run_isolated(mk, d, **kw)
        if r[0] == "err":
            return "grid-raised", f"make_lst_grid({d}, {kw}) raised {r[1:]}"
        g = r[1]
        if len(g) != M or not np.allclose(np.diff(g), TAU / n, atol=1e-9):
            return "grid", f"make_lst_grid({d}, {kw}) gives {len(g)} bins of {np.diff(g)[:2]}, specification says {M} bins of {TAU / n}"
        if not any(abs((g[0] - (q + .5) / n * TAU + np.pi) % TAU - np.pi) < 1e-8 for q in o["first"]):
            return "grid-begin", f"make_lst_grid({d}, {kw}) starts in bin {g[0] * n / TAU - .5}, specification says {o['first']}"
        if M == n and not np.allclose(np.sort((g % TAU) * n / TAU), np.arange(n) + .5, atol=1e-6):
            return "grid-cover", f"the grid of {n} bins does not cover the circle evenly"


def pick(rec, rng):
    o = rec["log"]
    bls = [(i, j, f + g) for i, j, f, g in o["bls"]]
    antpos = {a + 1: 14.6 * np.array([x, y, 0.]) for a, (x, y) in enumerate(o["xy"])}
    kw = {}
    for k, v in (("ants", o["ants"]), ("ex_ants", o["ex"])):
        if v:
            a = v[0]["num"] + [(n, "J" + f * 2) for n, f in v[0]["prs"]]
            rng.shuffle(a)
            kw[k] = rng.choice([list, set])(a)
    if o["pols"]:
        kw["pols"] = o["pols"][0]
    if o["lo"] or o["hi"] or rng.random() < .3:
        kw["antpos"] = antpos
    if o["lo"]:
        kw["min_bl_cut"] = 14.6 * np.sqrt(o["lo"][0] + .5)
    if o["hi"]:
        kw["max_bl_cut"] = 14.6 * np.sqrt(o["hi"][0] + .5)
    keep = copy.deepcopy((bls, kw))
    got, want = utils.filter_bls(bls, **kw), [(i, j, f + g) for i, j, f, g in o["keep"]]
    if got != want:
        return "filter", f"filter_bls({bls}, {kw}) keeps {got}, specification says {want}"
    if bls != keep[0]:
        return "filter-mutates", "filter_bls changed its input"


def do(rec, rng, idx, d):
    r = run_isolated({"keys": keys, "clock": clock, "circle": circle, "filter": pick}[rec["what"]], rec, rng)
    return (rec["what"] + "-raised", f"{rec['what']}: raised {r[1:]}") if r[0] == "err" else r[1]


def check(chk):
    l0 = [int(round(v / TAU * SDAY)) % SDAY for v in utils.JD2LST(np.array(DAYS, float))]
    fn = os.path.join(chk.scratch, "days.json")
    json.dump(l0, open(fn, "w"))
    recs, _ = chk.tlc("Conversions", CFG % 6, mode="sim", num=chk.n(2500, 30000), depth=12, env={"DAYS": fn})
    assert len(recs) > chk.n(1200, 15000), len(recs)
    for r, res in zip(recs, chk.pmap(do, recs)):
        chk.ran()
        chk.traces += 1
        if res:
            chk.fail(res[0], res[1], r)
    # whole numbers are sidereal times like any other
    for n in range(7):
        for cut in (0, n / 7 * TAU):
            for allow in (True, False):
                r = run_isolated(lambda: (utils.LST2JD(n, DAYS[5 * n], allow_other_jd=allow, lst_branch_cut=cut), utils.LST2JD([n, n], DAYS[5 * n], allow_other_jd=allow, lst_branch_cut=cut),
                                          utils.LST2JD(float(n), DAYS[5 * n], allow_other_jd=allow, lst_branch_cut=cut)))
                if r[0] == "err" or r[1][0] != r[1][2] or list(r[1][1]) != [r[1][2]] * 2:
                    chk.fail("clock-int", f"LST2JD({n}, {DAYS[5 * n]}) of a whole number: {r[1:]}")
                chk.ran()
    # every polarization in every spelling is exercised
    chk.extra["kinds"] = {w: sum(r["what"] == w for r in recs) for w in ("keys", "clock", "circle", "filter")}
    chk.extra["spellings"] = len({e["spell"] for r in recs if r["what"] == "keys" for e in r["log"]})
    chk.extra["two passes in a day"] = sum(r["what"] == "clock" and len(r["log"]["same"]) == 2 for r in recs)
    # feeds of different kinds do not make a baseline
    for a in ("x", "Jyy", "e", "Jrr"):
        for b in ("Jxx", "n", "l"):
            same = {frozenset("xy"), frozenset("en"), frozenset("rl")}
            ok = any(set(x.replace("J", "")) <= s for s in same for x in [a + b])
            r = run_isolated(utils.join_pol, a, b)
            if (r[0] == "ok") != ok:
                chk.fail("mixed", f"join_pol({a!r}, {b!r}) gives {r[1:]}")
            chk.ran()
    for w in ("keys", "clock", "circle", "filter"):
        chk.sample(next(r for r in recs if r["what"] == w))
    bad = []
    for w in ("keys", "clock", "circle", "filter"):
        for r in [r for r in recs if r["what"] == w][:15]:
            r = copy.deepcopy(r)
            if w == "keys":
                r["key"][0] += 1
            elif w == "filter":
                r["log"]["keep"].append([1, 1, "e", "e"])
            elif w == "clock":
                r["log"]["same"] = [t + 1000 for t in r["log"]["same"]]
            else:
                r["log"]["cuts"] = [(c + 1 / 3) for c in r["log"]["cuts"]]
            bad.append(r)
    k = sum(x is not None for x in chk.pmap(do, bad, tag="b"))
    assert k == len(bad) or chk.viol, (k, len(bad))
    chk.binding.append(f"perturbing expectations makes {k} of {len(bad)} replays fail")


if __name__ == "__main__":
    main("C23", check, assumptions=["sidereal times more than 17 s away from midnight and branch cut"])
