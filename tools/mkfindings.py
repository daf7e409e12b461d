"""Regenerate known_findings.jsonl: fixed entries from /repo's fix: commits (property map below) + known entries."""
import subprocess, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "findings.py")).read())
log = subprocess.run("git -C /repo log --reverse --format=%h%x09%s 76dd1cd..HEAD", shell=True, text=True, capture_output=True).stdout.strip().split("\n")
with open(os.path.join(V, "known_findings.jsonl"), "w") as f:
    for l in log:
        h, s = l.split("\t")
        if not s.startswith("fix:"):
            continue
        props = next((v for k, v in FIXED.items() if k in s), None)
        assert props, f"no property recorded for {s}"
        for p in props.split(","):
            f.write(json.dumps({"status": "fixed", "property": p, "commit": h, "what": f"fixed: property={p} {h} {s[5:]}"}) + "\n")
    for k in KNOWN:
        f.write(json.dumps(dict(status="known", **k)) + "\n")
