#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and checks_config.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks_config import CHECKS
S = "source/"
IOJ, IOJP = S + "IOHaptics/src/IOJson.cpp", S + "IOHaptics/src/IOJsonPrimitives.cpp"
IOS, IOB, IOBB, IOBP = (S + "IOHaptics/src/" + n for n in ("IOStream.cpp", "IOBinary.cpp", "IOBinaryBands.cpp", "IOBinaryPrimitives.cpp"))
CONF = S + "IOHaptics/include/IOConformance.h"
T = S + "Types/src/"

P = []
def prop(id, title, statement, over, quant, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

exec(open(os.path.join(ROOT, "tools", "properties_src.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

checks, na = [], []
for p in P:
    c = CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "its check is not built yet")))
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} quick", thorough_cmd=f"python3 check.py {p['id']} thorough",
                       technique=c["technique"], level="exploration", level_note=c["level_note"]))
m = dict(version=1, setup_cmd="make -j8 all", checks=checks, not_applicable=na,
         notes="No hooks were needed in /repo: every monitor observes the public interfaces. fix: commits repair genuine defects; see known_findings.txt.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "claimed")
