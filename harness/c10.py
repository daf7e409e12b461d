"""C10: filter cache shared by concurrent and crashing processes."""
import glob
import hashlib
import os
import pickle
import sys
import warnings
import numpy as np
warnings.simplefilter("ignore")
from vlib import main, run_isolated, Infra
import synth
from hera_cal import io

CFG = """INIT Init
NEXT Next
INVARIANTS ReadersNeverFail NothingLost NothingInvented AllOrNothing CrashLeavesNothing
CONSTANTS
 Writers = {%s}
 Readers = {%s}
 Keys = {1, 2%s}
 Blocks = %d
 Atomic = %s
"""
SIM = """INIT Init
NEXT Next
PROPERTY Monotone
CONSTANTS
 Keys = {1, 2, 3, 4}
 MaxPoint = 9
 Depth = %d
"""
POINT = None       # callback run at every low-level point of the operation under observation
_busy = False


def point(name):
    global _busy
    if POINT is not None and not _busy:
        _busy = True
        try:
            POINT(name)
        finally:
            _busy = False


def audit(ev, args):
    if ev in ("open", "os.rename", "os.remove", "os.link", "os.truncate", "shutil.move", "tempfile.mkstemp"):
        point(ev)


sys.addaudithook(audit)


def _mk(a):
    return a


class Val:
    """a filter 'matrix' big enough to reach the disk in several writes; storing it passes two observation points"""
    def __init__(self, k):
        self.k = k

    def __reduce__(self):
        point("in")
        return (_mk, (Tail(self.k),))


class Tail:
    def __init__(self, k):
        self.k = k

    def __reduce__(self):
        return (_mk2, (matrix(self.k), End()))


class End:
    def __reduce__(self):
        point("out")
        return (str, ())


def _mk2(m, _):
    return m


def matrix(k):
    return np.random.default_rng(k).normal(0, 1, (130, 130))


def key(k):
    return ("filter", k, 1.5 * k, "dayenu")


def entries(K):
    return {key(k): Val(k) for k in sorted(K)}


def load(d):
    """a reader process; returns the set of keys or the failure"""
    r = run_isolated(io.read_filter_cache_scratch, d)
    if r[0] == "err":
        return f"reader failed with {r[1]}: {r[2]}"
    out = set()
    for q, v in r[1].items():
        k = [x for x in range(1, 9) if key(x) == q]
        if not k or not np.array_equal(v, matrix(k[0])):
            return f"reader obtained something that was never stored under {q}"
        out.add(k[0])
    return out


def judge(got, floor, loose):
    """loose: groups of keys that may be visible, all of a group or (beyond what else is stored) none"""
    if isinstance(got, str):
        return got
    if not floor <= got:
        return f"reader sees {sorted(got)}, but {sorted(floor)} had been stored"
    extra = got - floor
    vis = set().union(*[g for g in loose if g <= got]) if loose else set()
    if not extra <= vis:
        return f"reader sees {sorted(extra - vis)}, which no process stored completely"
    return None


def replay(t, rng, i, d):
    global POINT
    loose = []
    for n, st in enumerate(t):
        if st["op"] == "junk":
            open(os.path.join(d, st["name"]), "wb").write(b"\\x00garbage")
            continue
        if st["op"] == "read":
            e = judge(load(d), set(st["floor"]), loose)
            if e:
                return "read", f"step {n}: {e}"
            continue
        before = set(st["before"])
        nfiles = len(glob.glob(d + "/*.filter_cache"))
        if st["op"] == "write":
            fresh = set(st["keys"]) - set(st["skip"])
            bad = []
            if st["obs"]:
                def POINT(name):
                    e = judge(load(d), before, loose + [fresh])
                    if e:
                        bad.append(f"while a writer is at '{name}': {e}")
            try:
                c = entries(st["keys"])
                io.write_filter_cache_scratch(c, d, skip_keys=[key(k) for k in st["skip"]])
            finally:
                POINT = None
            if set(c) != {key(k) for k in st["keys"]}:
                return "arg", f"step {n}: the cache passed in was modified"
            if bad:
                return "concurrent", f"step {n}: {bad[0]}"
            e = judge(load(d), set(st["after"]), loose)
            if e:
                return "write", f"step {n} after writing {sorted(fresh)}: {e}"
            if not st["wrote"] and len(glob.glob(d + "/*.filter_cache")) != nfiles:
                return "empty", f"step {n}: a cache file was written although there was nothing new"
        else:
            cnt = [0]
            pid = os.fork()
            if pid == 0:
                def die(name):
                    cnt[0] += 1
                    if cnt[0] > st["at"]:
                        os._exit(9)      # no flushing, no clean-up: the process is gone
                POINT = die
                try:
                    io.write_filter_cache_scratch(entries(st["keys"]), d)
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)
            loose.append(set(st["keys"]))
            e = judge(load(d), before, loose)
            if e:
                return "crash", f"step {n}, after a writer died at point {st['at']}: {e}"
    return None


def cached_filters(chk):
    """filtering with a shared cache gives the result of filtering without one"""
    from hera_cal import delay_filter
    import tempfile
    for trial in range(chk.n(4, 25)):
        rng = np.random.default_rng([chk.seed, trial])
        d = tempfile.mkdtemp(dir=chk.scratch)
        nf, nt = 32, 3
        pos = {a: np.array([14.6 * a, 0, 0.]) for a in range(3)}
        fns = []
        for j in range(3):
            fl = rng.random((nt, nf)) < .15
            fl[:, :] = fl[:1] if rng.random() < .6 else fl
            wf = lambda kind, k: (rng.normal(0, 1, (nt, nf)) + (0 if k[0] == k[1] else 1j) * rng.normal(0, 1, (nt, nf))) if kind == "data" else fl if kind == "flags" else np.ones((nt, nf))
            fn = f"{d}/{j}.uvh5"
            synth.make_uvd([(0, 1), (0, 2), (1, 2)], ["nn"], synth.TIME(np.arange(nt)), synth.FREQ(np.arange(nf)), wf, pos).write_uvh5(fn)
            fns.append(fn)
        cdir = f"{d}/cache"
        os.makedirs(cdir)
        for step in range(4):
            fn = fns[int(rng.integers(3))]
            kw = dict(mode=["dayenu", "dpss_leastsq", "dpss_solve"][int(rng.integers(3))], tol=float(10. ** -rng.integers(5, 10)), standoff=float(rng.choice([0., 30.])), min_dly=float(rng.choice([50., 150.])), skip_wgt=.1)
            res = {}
            for cache in (False, True):
                v = delay_filter.DelayFilter(fn)
                v.read()
                v.run_delay_filter(cache_dir=cdir, read_cache=cache, write_cache=cache, verbose=False, **kw)
                res[cache] = v
            chk.ran()
            for nm in ("clean_resid", "clean_model", "clean_flags"):
                for k in getattr(res[False], nm):
                    if not np.allclose(getattr(res[False], nm)[k], getattr(res[True], nm)[k], rtol=1e-6, atol=1e-8):
                        chk.fail("cached-filter", f"{nm}[{k}] with a shared cache differs from the uncached result ({kw}, step {step})")
                        return


def check(chk):
    big = not chk.quick
    chk.tlc("FilterCache", CFG % ('"w1", "w2"' + (', "w3"' if big else ''), '"r1", "r2"', ", 3" if big else "", 2, "TRUE"), mode="bfs", workers=8)
    chk.tlc("FilterCache", CFG % ('"w1", "w2"', '"r1"', "", 2, "FALSE"), mode="bfs", workers=4, expect_error=True)
    chk.binding.append("the non-atomic variant of the specification violates the invariants (TLC counterexample found)")
    traces, _ = chk.tlc("FilterCacheSim", SIM % 9, mode="sim", num=chk.n(120, 2500), depth=14)
    for t, r in zip(traces, chk.pmap(replay, traces)):
        chk.traces += 1
        chk.ran(len(t))
        if r:
            chk.fail(r[0], r[1], t)
    chk.sample(traces[0])
    cached_filters(chk)
    if not chk.viol:
        bad = [dict(op="write", keys=[1], skip=[], obs=False, before=[], maybe=[], after=[1, 2], wrote=True)]
        assert chk.pmap(replay, [bad])[0] is not None
        chk.binding.append("a history whose reader must see a filter nobody stored is rejected")


if __name__ == "__main__":
    main("C10", check, assumptions=["crash = process death (no power loss); POSIX rename semantics; the cache directory is on one file system"])
