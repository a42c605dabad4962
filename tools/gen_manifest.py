#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
claimed = open(os.path.join(here, "claimed.txt")).read().split()
NOTE = ("Seeded search over schedules and fault sequences of the real code in one process; a pass means no violation in the runs made, "
        "not that none exists. Network, MySQL server, Sisu, clock, scheduler and randomness are simulated.")
notes = json.load(open(os.path.join(here, "notes.json"))) if os.path.exists(os.path.join(here, "notes.json")) else {}
m = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="none", enable="no hooks in /repo: the simulation is built from transformed copies of the working tree", source_commits=[]),
    checks=[dict(property=i, quick_cmd="./check.sh " + i, thorough_cmd="./check.sh " + i + " thorough",
        evidence_file="evidence/" + i + ".json", technique="deterministic simulation with fault injection (seeded schedule and fault search)",
        level="exploration", level_note=notes.get(i, "") + NOTE) for i in ids if i in claimed],
    not_applicable=[dict(property=i, reason="check not finished yet") for i in ids if i not in claimed])
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
