#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the list below (run after editing it)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []

def P(id, title, statement, over, quant, why, files, mechanism, observe, state=()):
    PROPS.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=observe, hook_needed=None)))

exec(open(os.path.join(HERE, "tools", "props_list.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
na = {n["property"] for n in NA}
LEVEL_NOTE = ("bounded symbolic execution of the repository's functions from their SSA form, regenerated from the working tree on "
  "every run: all values within the stated bounds are covered by solver-decided path conditions; nothing is claimed outside the bounds, "
  "library functions are partly replaced by models (listed in the evidence), and counterexamples are replayed on the natively compiled code before they are reported. ")
checks = []
for p in PROPS:
    if p["id"] in na:
        continue
    i = p["id"]
    checks.append(dict(property=i, quick_cmd=f"bin/vsym check {i}", thorough_cmd=f"bin/vsym -tier thorough check {i}",
        evidence_file=f"evidence/{i}.json", technique="symbolic execution of Go SSA with SMT (z3) deciding path conditions and assertions",
        level="model_checking", level_note=LEVEL_NOTE + NOTES.get(i, "")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=NA,
  notes="No hooks: the harnesses in /verif/harness use the exported API and are laid over /repo with a go build overlay. Known findings and repairs: known-findings.json.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
import jsonschema
