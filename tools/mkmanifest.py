#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/registry.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(ROOT, "harness"))
from registry import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    d = [m for m, _, _ in p.get("design", [])]
    models, tests = [m for m in d if not m.endswith("Test")], [m for m in d if m.endswith("Test")]
    tech = "TLA+/TLC: " + ("exhaustive design model %s replayed into the code; " % ", ".join(models) if models else "")
    tech += "specification self-test %s; " % ", ".join(tests) if tests else ""
    tech += "recorded traces checked against trace specification %s" % p["trace"]
    checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 check.py " + i,
                       thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                       evidence_file="evidence/%s.json" % i, technique=tech, level="model_checking",
                       level_note=p.get("note", "Every recorded behaviour of the real code on the generated inputs is a behaviour of the specification (60-digit arithmetic, tolerances in the spec). Trusts TLC, the arithmetic overrides (tested against TLC's integers) and the recording driver; inputs are sampled, not exhaustive.")))
na = [dict(property=i, reason="check still being built") for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the checks use its public interface only. Specification language: TLA+ (TLC). See DESIGN.md."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
