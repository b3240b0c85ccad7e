#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE, TECH
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for i, p in list(PROPS.items()) + [(n["id"], n) for n in NOT_APPLICABLE]:
        assert len(p["title"]) <= 80, i
        f.write(json.dumps(dict(id=i, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=p["mech"], observe_at=p["observe"], hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="python3 bin/simbuild.py",
         checks=[dict(property=i, quick_cmd="python3 bin/check %s --tier quick" % i, thorough_cmd="python3 bin/check %s --tier thorough" % i,
                      technique=TECH, level="exploration",
                      level_note="seeded sampling of scenarios, schedules and faults within the bounds in DESIGN.md; " + (p["note"] or "no exhaustive coverage is claimed"))
                 for i, p in PROPS.items()],
         not_applicable=[dict(property=n["id"], reason=n["reason"]) for n in NOT_APPLICABLE])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
