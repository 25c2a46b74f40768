#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the list of finished checks.
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
done = re.findall(r'id: "(C\d+)"', open(root + "/sim/host/src/props.rs").read())
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
note = "Seeded search over schedules{} of the real hydra code in the simulator; a clean result is evidence over the runs made, not proof."
faulty = {"C15","C16","C17","C18","C19","C20","C23","C24"}
checks = [dict(property=p["id"], quick_cmd="./check.sh " + p["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh " + p["id"],
    technique="deterministic simulation with fault injection: seeded random schedules" + (", network and crash faults" if p["id"] in faulty else " and stalls, kills and panics") + ", history oracle",
    level="exploration", level_note=note.format(" and fault sequences"))
    for p in props if p["id"] in done]
m = dict(version=1, setup_cmd="./sim/build.sh",
    checks=checks,
    not_applicable=[dict(property=p["id"], reason="No check yet: its scenario is being built.") for p in props if p["id"] not in done])
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print("claimed", [c["property"] for c in checks])
