"""Writes MANIFEST.json from the registry of checks."""
import json
import sys

sys.path.insert(0, "/verif")
from pyvc import properties                        # noqa: E402

ids = [json.loads(x)["id"] for x in open("/verif/properties.jsonl")]
NA = {}
checks = []
for i in ids:
    p = properties.PROPS.get(i)
    if p is None:
        continue
    checks.append(dict(
        property=i,
        quick_cmd="python3-vt check.py %s" % i,
        thorough_cmd="python3-vt check.py %s --tier thorough" % i,
        technique="contract-based deductive verification of the real source "
                  "(symbolic execution to verification conditions, z3)",
        level="proof",
        level_note=p.note or "every obligation generated from the current source is discharged "
        "for all inputs; assumes the listed stub contracts and side-effect-free user callables"))
na = [dict(property=i, reason=NA.get(i, "no check")) for i in ids
      if i not in properties.PROPS]
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3'", checks=checks,
               not_applicable=na,
               notes="replay: falsify/falsify.py --replay FILE runs a failing input against the "
                     "real code"),
          open("/verif/MANIFEST.json", "w"), indent=1)
