"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "checks"))
import run  # noqa: E402

NA = {}
TOOLS = ("TLA+ model of the surrounding tools (spec/Text.tla, spec/Tools.tla; TLC, exhaustive over small inputs), every transition replayed on the real code; "
         "recorded random histories of the real code checked against the same specification by TLC")
NOTES = {
    **{k: TOOLS for k in "SUMROX"},
    "J": ("TLA+ model of values, their JSON and YAML texts, and of the generators of bodies, schemas and serialised trees (spec/Values.tla; TLC, exhaustive over small inputs), "
          "every transition replayed on the real code; recorded random histories of the real code checked against the same specification by TLC"),
    "P": ("TLA+ model of API Blueprint documents, of how they are read and of the API Elements they mean (spec/Blue.tla; TLC, exhaustive over small documents), "
          "every document written out, parsed by the real parser and compared; recorded parses of random documents checked against the same specification by TLC"),
    "E": ("TLA+ model of the element library (TLC, exhaustive over a small universe), every transition replayed on the real code; "
          "recorded random histories of the real code checked against the same specification by TLC"),
}
LEVEL = ("Exhaustive within the bounds of the model (see the CONFIG line of spec/MC_%s.tla): every reachable transition of the model is executed on the library "
         "built from the working tree with ASan and UBSan and must give the specified state and result; the model itself is checked for invariants that state the "
         "property independently. Beyond the bounds: random histories, each step checked by TLC. Trusts the harness (JSON <-> elements), TLC and the compiler.")
TECH = dict()
LEVELS = dict()
exec(open(os.path.join(ROOT, "tools", "notes.py")).read())

checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    i = json.loads(line)["id"]
    if i in run.CHECKS:
        checks.append(dict(property=i, quick_cmd="python3 checks/run.py " + i, thorough_cmd="VERIF_TIER=thorough python3 checks/run.py " + i,
                           technique=TECH.get(i) or NOTES[i[0]], level="model_checking", level_note=LEVELS.get(i) or LEVEL % i))
    else:
        na.append(dict(property=i, reason=NA.get(i, "specification not built yet")))
m = dict(version=1, setup_cmd="python3 checks/build.py", checks=checks, not_applicable=na,
         notes="TLA+ specifications in spec/, harness programs in harness/, drivers in checks/. See DESIGN.md.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
