"""Writes MANIFEST.json from the checks that exist (run by hand after adding one)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run, build

cs = run.checks()
props = [json.loads(l) for l in open(os.path.join(build.VERIF, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 rig/build.py", "checks": [],
     "not_applicable": [{"property": p["id"], "reason": "no check built yet"} for p in props if p["id"] not in cs],
     "notes": "No hooks in /repo: the checks observe the unmodified shell from outside (probe programs in place of commands, /proc, pseudo-terminals, an LD_PRELOAD shim). known-findings.txt lists the repaired defects."}
for p in props:
    c = cs.get(p["id"])
    if c:
        m["checks"].append({"property": p["id"], "quick_cmd": f"python3 rig/run.py {p['id']} --tier quick", "thorough_cmd": f"python3 rig/run.py {p['id']} --tier thorough",
                            "evidence_file": f"evidence/{p['id']}.json", "technique": c.technique, "level": c.level, "level_note": c.note})
json.dump(m, open(os.path.join(build.VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
