"""Record a repaired defect: add_fix.py PROPERTY COMMIT WHAT."""
import json
import os
import sys

p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(p))
prop, commit, what = sys.argv[1:4]
k.append(dict(property=prop, key=f"fixed-{commit}", status="fixed", commit=commit, what=f"fixed: property={prop} {commit} {what}"))
json.dump(k, open(p, "w"), indent=1)
open(p, "a").write("\n")
