#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties that have a check."""
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
ALL = [json.loads(x)["id"] for x in (V / "properties.jsonl").read_text().splitlines()]
CLAIMED = sys.argv[1].split(",") if len(sys.argv) > 1 else ALL
TECH = {"C18": "TLA+ specification of class construction (DataclassExt), TLC; recorded class behaviour validated against it",
        "C19": "TLA+ specification of member registries (Registry), TLC; histories generated by TLC replayed into the code",
        }
NOTE = ("Exhaustive within the bounded models (small universes of types, values, settings and histories), sampled beyond them by executions of the "
        "real code that are judged by the same specification; trusts TLC, the rendering of the specification's programs as Python source and the facts "
        "about numerals, base64 and date formats, which are computed with the standard library and nr.date. Assumes the scope stated in DESIGN.md.")
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [
        {"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
         "technique": TECH.get(p, "TLA+ specification model-checked with TLC; traces of the real code validated against it (and its behaviours replayed)"),
         "level": "model_checking", "level_note": NOTE}
        for p in ALL if p in CLAIMED
    ],
    "not_applicable": [{"property": p, "reason": "the check is not built yet"} for p in ALL if p not in CLAIMED],
    "notes": "See DESIGN.md. Findings that were repaired are listed in known_findings.txt.",
}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
