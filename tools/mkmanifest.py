"""Writes properties.jsonl and MANIFEST.json from tools/props.py (texts) and the registry (checks)."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
import props
from vf import registry

reg = registry.table()
na = dict(props.NA)
missing = [p["id"] for p in props.PROPS if p["id"] not in reg and p["id"] not in na]
if missing:
    print("no check yet:", missing)
props.PROPS = [p for p in props.PROPS if p["id"] not in missing]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        over, text = p["q"]
        d = {"id": p["id"], "title": p["title"], "statement": p["st"], "quantifier": {"over": over, "text": text}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p.get("obs", []), "hook_needed": p.get("hook")}}
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(d) + "\n")
checks = []
for p in props.PROPS:
    if p["id"] in na:
        continue
    c = reg[p["id"]]
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s --tier thorough" % p["id"],
                   "technique": p["tech"], "level": c.level, "level_note": p["note"]})
commits = [c.split()[0] for c in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines() if c.split(" ", 1)[1].startswith("gc: ") or "PSCM_SIM" in c]
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "PSCM_SIM", "enable": "sim/build.sh compiles /repo/src/c/*.cc and /repo/src/main.cc with -DPSCM_SIM and links them with sim/*.cc", "source_commits": commits},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in props.NA]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
ids = set(p["id"] for p in props.PROPS)
assert set(reg) <= ids, set(reg) - ids
assert set(na) <= ids
