#!/usr/bin/env python3
"""writes MANIFEST.json from lib/props.py and properties.jsonl"""
import json, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, "lib")
import props
checks = []
for pid, P in sorted(props.PROPS.items()):
    checks.append(dict(
        property=pid, quick_cmd=f"python3 check.py {pid} quick", thorough_cmd=f"python3 check.py {pid} thorough",
        technique="contract-based deductive verification (Verus) of functions extracted mechanically from /repo on every run",
        level=P["level"],
        level_note=P.get("note", "all obligations of the unit(s) " + ", ".join(u if isinstance(u, str) else u[0] for u in P["units"])
                         + " discharged for all inputs; assumptions and trusted functions are listed in the evidence; a bounded replay on the real code accompanies every run")))
na = [dict(property=k, reason=v) for k, v in sorted(props.NOT_APPLICABLE.items()) if k not in props.PROPS]
json.dump(dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="none", enable="no hooks: the checks read /repo's sources", source_commits=[]),
               checks=checks, not_applicable=na,
               notes="check.py decides; vx/ extracts; units/ holds the contracts; replay/ runs the real code; known_findings.txt lists findings"),
          open("MANIFEST.json", "w"), indent=1)
ids = {json.loads(l)["id"] for l in open("properties.jsonl") if l.strip()}
missing = ids - set(props.PROPS) - set(props.NOT_APPLICABLE)
if missing:
    print("not covered:", sorted(missing))
