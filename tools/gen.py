#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props_d, props_e, props_v
root = os.path.dirname(here)
props = props_d.PROPS + props_e.PROPS + props_v.PROPS
NA = {}
ENUM = {"D09", "D14", "M01"}
HARNESS = {"D": "democracy", "E": "elections", "V": "vesting", "M": "accounts"}
BMC = "explicit-state model checking of the real code: exhaustive breadth-first exploration of all operation sequences to a depth bound, in lock step with a reference model"
ENU = "exhaustive enumeration of a bounded input space of the real code against a reference"
try:
    import extra
    extra.add(props, NA, ENUM, HARNESS)
except ImportError:
    pass
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for q in props:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
checks = []
for q in props:
    i = q["id"]
    if i in NA:
        continue
    h = HARNESS[i[0]]
    enum = i in ENUM
    checks.append(dict(property=i, quick_cmd=f"./check.sh {h} {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {h} {i}",
        technique=ENU if enum else BMC, level="exploration" if enum else "model_checking",
        level_note=("Every case of the stated finite input space is run through the real code; nothing is claimed outside it."
            if enum else
            "Every operation sequence over the scenario alphabets up to the reported depth is run through the real pallet on real storage; trusts the storage backend of the explorer, the reference model and the small domains (accounts, amounts, parameters); leaf traces are re-run from genesis.")))
json.dump(dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="none", enable="no hooks: the harness crates use the public interface of the crates in /repo", source_commits=[]),
    checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()]),
    open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
