#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
MC = "model_checking"; FE = "fault_enumeration"
COMMON = " The real library is executed through its public API on every case (no model of the code in between); images come from an independent builder."
CH = {
 "P01": (MC, "bounded exhaustive enumeration of extent trees against a block-map reference model", "Complete for all layouts and tree shapes within the printed bounds."),
 "P02": (MC, "bounded exhaustive enumeration of block maps against a block-map reference model", "Complete for all boundary-position subsets and one-hole files within the printed bounds."),
 "P03": (MC, "exhaustive exploration of all read/seek histories to a depth against a cursor model", "Complete for all operation sequences of the alphabet to the printed depth."),
}
import importlib.util
extra = os.path.join(os.path.dirname(os.path.abspath(__file__)), "manifest_checks.json")
if os.path.exists(extra):
    for k, v in json.load(open(extra)).items():
        CH[k] = tuple(v)
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for p in props:
    if p not in CH: continue
    level, tech, note = CH[p]
    checks.append(dict(property=p, quick_cmd=f"./run.sh {p}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {p}",
        evidence_file=f"evidence/{p}.json", technique=tech, level=level, level_note=note + COMMON))
na = [dict(property=p, reason="check not built yet") for p in props if p not in CH]
m = dict(version=1, setup_cmd="./run.sh --build-only", checks=checks, not_applicable=na,
  notes="No hooks: every check drives the public API only. Known findings and repaired defects: known-findings.txt.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
