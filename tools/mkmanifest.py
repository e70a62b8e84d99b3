"""Regenerate MANIFEST.json from the check table (python3 tools/mkmanifest.py)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from kfa.run import table, meta  # noqa: E402

NA = {
    "C33": "Bounds on accumulated rounding error and positive semi-definiteness of computed (not exact) matrices quantify over runtime floating-point values of unbounded recursions; no sound static argument in reach bounds them for arbitrary models (they are false for ill-conditioned ones), and a numeric run would not be static analysis.",
    "C34": "Optimality and consistency are statements about the distribution of the data relative to a true system; they follow from the Kalman equations (decided as C01-C09, C19) by a theorem about probability, not from anything further visible in the source.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
t = table()
checks = []
for p in props:
    if p in t:
        m = meta(p)
        checks.append(
            dict(
                property=p,
                quick_cmd="python3 -m kfa.run %s" % p,
                thorough_cmd="python3 -m kfa.run %s --thorough" % p,
                technique=m["technique"],
                level=m["level"],
                level_note=m["note"],
            )
        )
na = [dict(property=p, reason=NA.get(p, "check not built yet")) for p in props if p not in t]
out = dict(version=1, setup_cmd="python3 -m compileall -q kfa", checks=checks, not_applicable=na)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
