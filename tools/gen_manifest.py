#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the plan in check.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
os.chdir(check.VERIF)
NOTE = {
    "algebra": "the operators of the specification are model checked exhaustively in a small scope against independent characterisations",
    "life": "the whole state graph of the specification within the stated constants is explored and every transition (a seeded sample of them in the quick tier) is replayed on the real code",
}
checks = []
for line in open("properties.jsonl"):
    p = json.loads(line)
    models, fams = check.PLAN[p["id"]]
    parts = []
    if any(m.startswith("MCAlgebra") for m in models):
        parts.append(NOTE["algebra"])
    if any(not m.startswith("MCAlgebra") for m in models):
        parts.append(NOTE["life"])
    parts.append("recorded calls of the real library (families %s) are each compared with the specification's successor state, with all operands and observables" % ", ".join(fams))
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 tools/check.py %s" % p["id"],
        "thorough_cmd": "python3 tools/check.py %s --thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "TLA+ specification checked with TLC (%s); spec-generated call sequences replayed on, and recorded traces of, the real code validated against it" % ", ".join(models),
        "level": "model_checking",
        "level_note": "; ".join(parts) + ". Bounded: inputs and histories outside the explored ones are not covered. Trusted: TLC, rustc, bincode; f32 arithmetic on small integers is exact.",
    })
m = {
    "version": 1,
    "setup_cmd": "python3 tools/check.py --build",
    "hooks": {
        "guard": "vp_hooks",
        "enable": "RUSTFLAGS=\"--cfg vp_hooks\" (set by tools/check.py when it builds /verif/harness, which depends on /repo by path)",
        "source_commits": ["634a04dedd5a4dce51cc5da1c43a6af15796b6fb"],
    },
    "checks": checks,
    "not_applicable": [],
    "notes": "Specification in spec/ (TLA+), conformance harness in harness/ (Rust), driver tools/check.py. Known findings and repairs: KNOWN_FINDINGS.txt.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
