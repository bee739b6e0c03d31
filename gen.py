#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, subprocess
from props import PROPS, NOT_APPLICABLE
with open("/verif/properties.jsonl", "w") as f:
    for pid in sorted(PROPS):
        p = PROPS[pid]
        assert len(p["title"]) <= 80, (pid, len(p["title"]))
        f.write(json.dumps({"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}) + "\n")
    for n in NOT_APPLICABLE:
        if "title" in n:
            f.write(json.dumps({"id": n["id"], "title": n["title"], "statement": n["statement"], "quantifier": {"over": ["inputs"], "text": n["qtext"]},
                "why_tests_cant": n["why"], "anchors": {"files": n["files"], "mechanism": [{"name": a, "where": b} for a, b in n["mech"]], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --build",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the simulator uses the library's random-number hook, its function-object interfaces, operator new and the C library's file functions as seams; the shipped sources are compiled unchanged", "source_commits": []},
     "checks": [{"property": pid, "quick_cmd": "python3 check.py %s quick" % pid, "thorough_cmd": "python3 check.py %s thorough" % pid,
                 "technique": "deterministic simulation with fault injection (seeded random search over histories, schedules and faults)", "level": "exploration",
                 "level_note": p["note"] or "seeded search, no exhaustive claim; every violation replays exactly from its file", "evidence_file": "evidence/%s.json" % pid}
                for pid, p in sorted(PROPS.items())],
     "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in NOT_APPLICABLE],
     "notes": "replay: python3 check.py --replay replay/<file>; see DESIGN.md"}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
