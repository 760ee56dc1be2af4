#!/usr/bin/env python3
"""Write MANIFEST.json from the table of checks"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, HERE)
import check

VS = ("random programs over the public API run under a controlled scheduler (random walk, PCT and stall schedules, virtual time) "
      "against an oracle over the recorded history, with shrinking")
NOTES = {
    "core": (VS, "random search of programs of up to a dozen reactions and a few threads; schedules are sampled, weak memory orders are not explored (the scheduler is sequentially consistent)"),
    "queue": ("the two work queues driven directly by generated producers, consumers and a destructor under the controlled scheduler, "
              "against a history oracle (exactly once, per producer order, no early null, elements alive)",
              "schedules are sampled; weak memory orders are not explored (the scheduler is sequentially consistent)"),
    "chrono": ("generated timers, watchdogs, delayed emissions, clock adjustments and travels run under the controlled scheduler in virtual time, "
               "against a model of when each is due", "times are compared to within about a microsecond early and a few milliseconds late of virtual time"),
}
TECH = {}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in check.PROPERTIES and pid not in check.UNCLAIMED:
        t, n = TECH.get(pid) or NOTES[check.PROPERTIES[pid]]
        checks.append(dict(property=pid, quick_cmd="python3 check.py --property %s --tier quick" % pid,
                           thorough_cmd="python3 check.py --property %s --tier thorough" % pid,
                           technique="property-based testing: " + t, level="exploration", level_note=n))
    else:
        na.append(dict(property=pid, reason=check.NA.get(pid, "no check yet (being built)")))
m = dict(version=1, setup_cmd="python3 check.py --build-all", hooks=dict(guard="NUCLEAR_VERIF", enable="not used: no hooks were needed", source_commits=[]),
         checks=checks, not_applicable=na, notes="See DESIGN.md. The checks compile /repo/src themselves into /verif/build.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
