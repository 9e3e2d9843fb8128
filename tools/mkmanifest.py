"""Writes MANIFEST.json from lib/registry.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "lib"))
from registry import CHECKS
props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        mcs = [m if isinstance(m, str) else m[0] for m in c.get("mc", [])]
        checks.append(dict(
            property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i,
            technique="TLA+ specification checked with TLC (%s); calls of the real code recorded and validated against the specification by TLC (%s)"
                      % (", ".join(mcs) or "-", c["trace"]),
            level="model_checking",
            level_note="The specification's design properties hold on every state of the stated small scope (exhaustive); the implementation is bound to it "
                       "by replaying the model's cases and by seeded/boundary inputs, each recorded call being accepted or rejected by the specification. "
                       "Trusted: java/XReal.java (self-checked by MC_XReal), the drivers' recording. " + " ".join(c.get("assumptions", []))))
    else:
        na.append(dict(property=i, reason=globals().get("REASONS", {}).get(i, "not built yet")))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: everything is observed through the public functions. See DESIGN.md.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
