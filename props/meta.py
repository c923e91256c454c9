#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json"""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = []          # (id, title, statement, over, qtext, why, files, mechanism[(name, where)], level_note or None, na_reason or None)
def prop(id, title, statement, over, qtext, why, files, mech, note=None, na=None, level="proof"):
    ALL.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, qtext=qtext, why=why,
                    files=files, mech=mech, note=note, na=na, level=level))
exec(open(os.path.join(HERE, "props", "list.py")).read())
import sys
sys.path.insert(0, os.path.join(HERE, "props"))
sys.dont_write_bytecode = True
from units import PROPS
ALL = [p for p in ALL if p["na"] or p["id"] in PROPS]   # planned ones appear when their check exists
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in ALL:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
try:
    commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
    hooks = [c.split()[0] for c in commits if c.split(" ", 1)[1].startswith("verify:")]
except Exception:
    hooks = []
m = {"version": 1,
     "setup_cmd": "bash /verif/setup.sh",
     "hooks": {"guard": "SM_VERIFY", "enable": "-DSM_VERIFY (set by lib/sm.h in the proof build only); adds loop contracts and ghost statements, no code",
               "source_commits": hooks},
     "checks": [], "not_applicable": []}
TECH = ("contract-based deductive verification of the real code: pre/postconditions in harness/, in-place loop contracts (SM_CUT) in /repo, "
        "obligations discharged by CBMC 6.11 (SAT), no bound; a failed obligation is searched for a failing input that is replayed on the real code")
for p in ALL:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"],
            "quick_cmd": "bash /verif/run.sh %s quick" % p["id"],
            "thorough_cmd": "bash /verif/run.sh %s thorough" % p["id"],
            "technique": TECH, "level": p["level"], "level_note": p["note"] or ""})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(ALL), "properties,", len(m["checks"]), "checks; hooks", len(hooks))
