"""Regenerates MANIFEST.json: one check per property with a harness/check_<id>.py."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "default": "TLC exhaustively checks the design-level invariants of the specification with small constants, and judges every "
            "recorded behaviour of the real code (both precisions) against the specification's operators. Behaviours are "
            "sampled by TLC from the specification or enumerated; numbers are compared within a stated rounding tolerance. "
            "Trusted: TLC, the drivers in harness/ (public API only), NumPy for quantising observations.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", "check_%s.py" % i)):
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 harness/check_%s.py" % i,
                           thorough_cmd="VERIF_TIER=thorough python3 harness/check_%s.py" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="TLA+ specification model-checked with TLC; trace validation of the real code against it",
                           level="model_checking", level_note=NOTE.get(i, NOTE["default"])))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="bash harness/setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every observable used is public API."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
