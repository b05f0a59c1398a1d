"""Regenerates MANIFEST.json from properties.jsonl and harness/bounds.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import bounds
checks = []
for line in open("properties.jsonl"):
    d = json.loads(line)
    i = d["id"]
    b, out = bounds.B[i]
    checks.append(dict(property=i, quick_cmd="bin/check %s --tier quick" % i, thorough_cmd="bin/check %s --tier thorough" % i,
                       technique="symbolic execution of the real sources, assertions decided by Z3 for all values within bounds, "
                       "counterexamples replayed on the real package",
                       level="model_checking",
                       level_note="Bounded: %s. Outside: %s." % (b, out)))
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=[]), open("MANIFEST.json", "w"), indent=1)
