#!/usr/bin/env python3
"""Create / verify a planted bug.  usage: seed.py make <id> <spec.py> | verify <id> [--tests] | all [--tests]
spec.py defines PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python text; exits non-zero on the bug)."""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
WT = "/tmp/seedwt"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", JAX_PLATFORMS="cpu", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", XDG_CONFIG_HOME="/opt/vp/astropy-config")


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def fresh():
    sh(f"git -C /repo worktree remove --force {WT}; git -C /repo worktree prune; rm -rf /tmp/seedwt")
    r = sh(f"git -C /repo worktree add --detach {WT} HEAD && cp -n /repo/hera_cal/_version.py {WT}/hera_cal/ 2>/dev/null; true")


def make(i, spec):
    ns = {}
    exec(open(spec).read(), ns)
    fresh()
    for f, a, b in ns["EDITS"]:
        p = os.path.join(WT, f)
        s = open(p).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, "w").write(s.replace(a, b))
    d = os.path.join(S, i)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(sh(f"git -C {WT} diff").stdout)
    open(os.path.join(d, "demo.py"), "w").write(ns["DEMO"])
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg JAX_PLATFORMS=cpu PYTHONWARNINGS=ignore OMP_NUM_THREADS=1\nexport XDG_CONFIG_HOME=/opt/vp/astropy-config PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def verify(i, tests=False, check=True):
    d = os.path.join(S, i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    fresh()
    a = sh(f"bash {d}/demo.sh", cwd=WT, env=ENV)
    r = sh(f"git -C {WT} apply {d}/patch.diff")
    b = sh(f"bash {d}/demo.sh", cwd=WT, env=ENV)
    res = {"id": i, "apply": r.returncode, "demo_clean": a.returncode, "demo_bug": b.returncode}
    if a.returncode or not b.returncode:
        print(a.stdout[-800:], "\n---\n", b.stdout[-800:])
    if check:
        c = sh(f"VERIF_REPO={WT} {V}/run.sh {prop} quick", env=ENV)
        res["check"] = c.returncode
        res["line"] = [l for l in c.stdout.split("\n") if l.startswith(("VIOLATION", "  - "))][:2]
    if tests:
        t = sh(f"{PY} -m pytest -q -p no:cacheprovider --no-cov --timeout=300 -n 8 --dist worksteal --hypothesis-seed=0 --junitxml=/tmp/seed_junit.xml hera_cal", cwd=WT, env=ENV)
        sh("/usr/bin/python3 /opt/vp/results.py /tmp/seed_res.json junit:/tmp/seed_junit.xml")
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        got = set(json.load(open("/tmp/seed_res.json"))["passed"])
        res["tests_lost"] = sorted(base - got)[:5]
    print(json.dumps(res), flush=True)
    sh(f"git -C /repo worktree remove --force {WT}; git -C /repo worktree prune")
    return res


if __name__ == "__main__":
    t = "--tests" in sys.argv
    if sys.argv[1] == "make":
        make(sys.argv[2], sys.argv[3])
        verify(sys.argv[2], t, "--nocheck" not in sys.argv)
    elif sys.argv[1] == "verify":
        for i in [x for x in sys.argv[2:] if not x.startswith("--")]:
            verify(i, t, "--nocheck" not in sys.argv)
    else:
        for i in sorted(os.listdir(S)):
            verify(i, t, "--nocheck" not in sys.argv)
