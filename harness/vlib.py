"""Shared machinery: run TLC (generate behaviours / validate recorded traces), report, write evidence.

Every check script does:   chk = Check("C01", level=...); ...; chk.finish()
Randomness comes only from VERIF_SEED.  Exit 0 = held on everything explored, 1 = VIOLATION printed.
"""
import contextlib, os, sys, json, time, random, shutil, subprocess, tempfile, traceback, re, atexit, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def tier_from_argv():
    if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
        return sys.argv[1]
    return os.environ.get("VERIF_TIER", "quick")


class Infra(Exception):
    """The machinery itself failed (not the code under test)."""


class Check:
    def __init__(self, pid, level="model_checking", assumptions=()):
        self.pid, self.level, self.assumptions = pid, level, list(assumptions)
        self.tier = tier_from_argv()
        self.quick = self.tier != "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.evals = 0
        self.samples = []
        self.notes, self.viol, self.extra = [], [], {}
        self.seed = SEED
        self.rng = random.Random(SEED * 7919 + int(hashlib.md5(pid.encode()).hexdigest()[:6], 16))
        self.scratch = tempfile.mkdtemp(prefix=f"verif_{pid}_")
        self._pid0 = os.getpid()
        atexit.register(lambda: os.getpid() == self._pid0 and shutil.rmtree(self.scratch, True))
        self.known = self._load_known()
        self.known_hit = {}
        self.binding = []

    # ---------------------------------------------------------------- known findings
    def _load_known(self):
        out = {}
        fn = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(fn):
            for line in open(fn):
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get("status") == "known" and d["property"] == self.pid:
                        out[d["key"]] = d
        return out

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg_text, mode="bfs", num=200, depth=12, seed=None, workers=4,
            env=None, timeout=800, expect_error=False, heap="4g"):
        """Run TLC on spec/<module>.tla with the given cfg text.  Returns (output lines written via
        Emit as parsed JSON, raw stdout)."""
        d = tempfile.mkdtemp(dir=self.scratch)
        cfg = os.path.join(d, module + ".cfg")
        open(cfg, "w").write(cfg_text)
        out = os.path.join(d, "out.ndjson")
        open(out, "w").close()
        cmd = ["java", "-Djava.io.tmpdir=" + d, "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss16m", "-cp", CP, "tlc2.TLC", "-config", cfg,
               "-metadir", os.path.join(d, "meta"), "-deadlock", "-noGenerateSpecTE"]
        if mode == "sim":
            cmd += ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(SEED if seed is None else seed),
                    "-workers", "1"]
        else:
            cmd += ["-workers", str(workers)]
        cmd.append(os.path.join(SPEC, module + ".tla"))
        e = dict(os.environ)
        e["OUT"] = out
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            p = subprocess.run(cmd, env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Infra(f"TLC timeout on {module}")
        txt = p.stdout
        lines = []
        for l in open(out):
            if l.strip():
                v = json.loads(l)
                lines.append(json.loads(v) if isinstance(v, str) else v)
        if mode == "sim":
            m = re.findall(r"The number of states generated: ([\d,]+)", txt)
            ns = int(m[-1].replace(",", "")) if m else 0
            self.states += ns
            self.transitions += max(0, ns - num)
        else:
            m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", txt)
            if m:
                self.transitions += int(m[-1][0].replace(",", ""))
                self.states += int(m[-1][1].replace(",", ""))
        bad = p.returncode != 0
        if bad and not expect_error:
            raise Infra(f"TLC failed on {module} (rc={p.returncode}):\n" + "\n".join(l for l in txt.split("\n") if not l.startswith(("Parsing","Semantic","Linting")))[:5000] + "\n...\n" + txt[-1500:])
        if expect_error and not bad:
            raise Infra(f"TLC on {module} was expected to find a counterexample (non-vacuity) but did not")
        shutil.rmtree(d, True)
        return lines, txt

    def validate(self, module, records, consts="", timeout=800, extra_cfg="", chunk=None, workers=1, heap="6g"):
        """Validate recorded observations against spec/<module>.tla.  The module reads IOEnv.TRACE
        (ndjson), evaluates its operator `Verdict(rec)` on every record and writes {"i":..,"v":..} for
        each record whose verdict is not "ok".  Returns list of (record, verdict) failures."""
        if not records:
            return []
        if chunk and len(records) > chunk:
            out = []
            for k in range(0, len(records), chunk):
                out += self.validate(module, records[k:k + chunk], consts, timeout, extra_cfg, heap=heap)
            return out
        fn = os.path.join(self.scratch, f"{module}_{time.time_ns()}.ndjson")
        with open(fn, "w") as f:
            for r in records:
                f.write(json.dumps(r) + "\n")
        cfg = "INIT TInit\nNEXT TNext\nINVARIANT TInv\nPOSTCONDITION TAll\n" + consts + extra_cfg
        lines, txt = self.tlc(module, cfg, mode="bfs", workers=workers, env={"TRACE": fn, "NREC": len(records)}, timeout=timeout, heap=heap)
        os.unlink(fn)
        done = [l for l in lines if l.get("k") == "done"]
        if not done or done[-1]["n"] != len(records):
            raise Infra(f"{module}: TLC consumed {done} of {len(records)} records\n" + txt[-2000:])
        self.traces += len(records)
        return [(records[l["i"] - 1], l["v"]) for l in lines if l.get("k") == "bad"]

    # ---------------------------------------------------------------- reporting
    def fail(self, key, what, data=None):
        """key: short stable identifier of the failing input class (matched against known findings)."""
        for k, d in self.known.items():
            if key == k or (k.endswith("*") and key.startswith(k[:-1])):
                self.known_hit.setdefault(k, what)
                return
        if len(self.viol) < 200:
            self.viol.append({"key": key, "what": what, "data": data})
        else:
            self.extra["more_violations"] = self.extra.get("more_violations", 0) + 1

    def pmap(self, fn, items, procs=7, tag=""):
        """fn(item, rng, index, scratchdir) over items in forked workers; every item has its own random generator, so the
        result does not depend on the number of workers.  Returns results in order."""
        import multiprocessing as mp
        global _PFN
        items = list(items)
        if not items:
            return []
        base = os.path.join(self.scratch, f"p{time.time_ns()}")
        os.makedirs(base)
        _PFN = (fn, items, self.seed, self.pid + tag, base)
        ctx = mp.get_context("fork")
        with ctx.Pool(min(procs, len(items), os.cpu_count() or 1)) as pool:
            out = pool.map(_pwork, range(len(items)), chunksize=max(1, min(8, len(items) // 28)))
        shutil.rmtree(base, True)
        res = []
        for ok, r in out:
            if ok == "infra":
                raise Infra(r)
            if ok == "repo":
                self.fail("unexpected-exception", r)
                res.append(None)
            else:
                res.append(r)
        return res

    def ran(self, n=1):
        self.evals += n

    def sample(self, x, cap=6):
        if len(self.samples) < cap:
            self.samples.append(x)

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": dict(states=self.states, transitions=self.transitions,
                               traces_validated_against_impl=self.traces, samples=self.samples, evaluations=self.evals,
                               notes=self.notes, binding_controls=self.binding, **self.extra),
              "wall_s": round(time.time() - self.t0, 2), "assumptions": self.assumptions,
              "violations": [f'{v["key"]}: {v["what"]}' for v in self.viol[:20]]}
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, d in self.known.items():
            print(f"KNOWN-FINDING: property={self.pid} {d['what']}" + ("" if k in self.known_hit else " (not re-triggered in this run)"))
        if self.viol:
            rp = os.path.join(VERIF, "replay", f"{self.pid}.json")
            with open(rp, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, "violations": self.viol[:50]}, f, indent=1, default=str)
            for v in self.viol[:10]:
                print(f"  - {v['key']}: {v['what']}"[:600])
            print(f"VIOLATION property={self.pid} replay={rp}")
            sys.stdout.flush()
            sys.exit(1)
        print(f"OK property={self.pid} tier={self.tier} states={self.states} transitions={self.transitions} "
              f"traces={self.traces} evals={self.evals} wall={time.time() - self.t0:.1f}s")
        sys.stdout.flush()
        sys.exit(0)


_PFN = None


def misfit(e):
    """Results of the code under test that the harness cannot even look at (missing keys, other shapes or types) are violations:
    on a tree that keeps its behaviour they do not occur.  Missing names of the program are not: that is a harness out of step."""
    return isinstance(e, (TypeError, KeyError, IndexError, ValueError, ZeroDivisionError)) or isinstance(e, AttributeError) and "module '" not in str(e)


def _pwork(i):
    fn, items, seed, tag, base = _PFN
    d = os.path.join(base, str(i))
    os.makedirs(d)
    cwd = os.getcwd()
    try:
        with open(os.devnull, "w") as dn, contextlib.redirect_stdout(dn):
            return "ok", fn(items[i], random.Random(f"{seed}/{tag}/{i}"), i, d)
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(REPO + "/")]
        if inrepo:
            return "repo", f"{type(e).__name__}: {e} at {inrepo[-1].filename}:{inrepo[-1].lineno} ({''.join(traceback.format_exc(limit=-3))[-600:]})"
        if misfit(e):
            return "repo", f"the result cannot be interpreted: {''.join(traceback.format_exc(limit=-2))[-600:]}"
        return "infra", traceback.format_exc()
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, True)


def main(pid, fn, level="model_checking", assumptions=()):
    """Run fn(chk); anything the code under test raises must be handled in fn (as a violation).  An
    exception that escapes from a frame inside the repository is a violation too (the harness only
    performs calls the specification says must succeed); anything else is an infrastructure failure."""
    chk = Check(pid, level, assumptions)
    try:
        fn(chk)
    except Infra as e:
        print("INFRASTRUCTURE:", e, file=sys.stderr)
        if not chk.viol:
            sys.exit(3)
    except SystemExit:
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(REPO + "/")]
        if inrepo:
            traceback.print_exc()
            chk.fail("unexpected-exception", f"{type(e).__name__}: {e} at {inrepo[-1].filename}:{inrepo[-1].lineno}")
        else:
            traceback.print_exc()
            if misfit(e):
                chk.fail("unexpected-result", f"the result cannot be interpreted: {''.join(traceback.format_exc(limit=-2))[-600:]}")
            elif not chk.viol:
                sys.exit(3)
    chk.finish()


# ------------------------------------------------------------------ misc helpers
def run_isolated(f, *a, **k):
    """Call code under test; return ('ok', value) or ('err', ExceptionName, message)."""
    try:
        return ("ok", f(*a, **k))
    except Exception as e:
        return ("err", type(e).__name__, str(e)[:300])
