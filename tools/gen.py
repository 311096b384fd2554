#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/catalog.py (one source for both)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from catalog import NOT_APPLICABLE, PROPERTIES  # noqa: E402

TECH = "bounded symbolic execution of the real code, z3 decides every path and assertion"
NOTE = (
    "Holds for every input within the bounds of the harness (stated in the evidence): z3 shows no path "
    "violates an assertion. Trusts the engine's models of Python str/re/list operations (differential "
    "self-test in setup_cmd) and the stated stubs; nothing is claimed beyond the bounds."
)


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPERTIES:
            d = {
                "id": p["id"],
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p.get("observe", []),
                    "hook_needed": None,
                },
            }
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    na = dict(NOT_APPLICABLE)
    checks = []
    for p in PROPERTIES:
        if p["id"] in na:
            continue
        if not os.path.exists(os.path.join(ROOT, "props", p["id"].lower() + ".py")):
            na[p["id"]] = "check not built yet"
            continue
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": "python3-vt -B check.py %s quick" % p["id"],
                "thorough_cmd": "python3-vt -B check.py %s thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": p.get("technique", TECH),
                "level": "other",
                "level_note": p.get("note", NOTE),
            }
        )
    m = {
        "version": 1,
        "setup_cmd": "python3-vt -B engine/selftest.py && /opt/venv/bin/python -B tools/check_stub.py",
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())],
        "notes": "Generated by tools/gen.py from tools/catalog.py; see DESIGN.md.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
