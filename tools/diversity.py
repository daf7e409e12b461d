"""Developer aid: which fields of the records TLC emits never vary (a sign of a random choice that TLC froze)?
usage: PYTHONPATH=/repo:harness python tools/diversity.py C04"""
import collections, importlib, sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib
name = sys.argv[1]
seen = collections.defaultdict(lambda: collections.defaultdict(collections.Counter))
def walk(x, path, acc):
    if isinstance(x, dict):
        acc[path + "{}"][",".join(sorted(x))[:60] if len(x) < 12 else len(x)] += 1
        for k, v in x.items():
            walk(v, path + "." + (k if not k.lstrip("-").isdigit() else "#"), acc)
    elif isinstance(x, list):
        acc[path + ".len"][len(x)] += 1
        for v in x:
            walk(v, path + "[]", acc)
    else:
        acc[path][json.dumps(x)] += 1
orig = vlib.Check.tlc
def tlc(self, module, cfg, *a, **k):
    r = orig(self, module, cfg, *a, **k)
    for rec in r[0]:
        walk(rec, "", seen[module])
    return r
vlib.Check.tlc = tlc
m = importlib.import_module(name.lower())
orig_main = vlib.main
sys.argv = ["x", "quick"]
try:
    vlib.main(name, m.check, assumptions=["diversity"])
except SystemExit:
    pass
for mod, acc in seen.items():
    print("##", mod)
    for p, c in sorted(acc.items()):
        if len(c) == 1 and sum(c.values()) > 20 and not p.endswith(("{}", "[].len")):
            print("  CONST", p, list(c.items())[0])
        elif 2 <= len(c) <= 6 and min(c.values()) / sum(c.values()) < .002:
            print("  RARE ", p, dict(c))
