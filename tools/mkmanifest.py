#!/usr/bin/env python3
"""Generates MANIFEST.json from harness/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from harness.props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Seeded random search over schedules, workloads and faults against the real code; it shows violations and never proves absence. "
        "Trusted: the simulation runtime (sim/), the compiler's instrumentation and the oracle written in the scenario. ")
m = dict(version=1, setup_cmd="python3 -m harness.build",
         checks=[dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s thorough" % i,
                      technique="deterministic simulation with fault injection: seeded search over schedules and fault sequences",
                      level="exploration", level_note=NOTE + PROPS[i].get("note", "")) for i in ids if i in PROPS],
         not_applicable=[dict(property=i, reason=NOT_APPLICABLE.get(i, "no check yet")) for i in ids if i not in PROPS],
         notes="See DESIGN.md. check.py --replay FILE reproduces a reported violation.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
