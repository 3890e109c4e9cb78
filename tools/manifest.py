"""Writes MANIFEST.json from the table of checks."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(__file__))
import check

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification checked with TLC; trace validation of the real code against it"
NOTE = ("The TLA+ specification is the oracle: TLC walks every recorded behaviour of the real code (built from /repo's tree) through it step by step "
        "and rejects what it does not permit. Assurance is bounded by the cases generated (exhaustive small-scope signal histories and seeded random models); "
        "readings are fixed-point thousandths. Trusts TLC, the driver's probes and the case generator's faithful pairing of model file and specification case.")
NOTES = getattr(check, "NOTES", {})


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in check.TABLE:
            checks.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
                           "technique": NOTES.get(i, {}).get("technique", TECH), "level": "model_checking",
                           "level_note": NOTES.get(i, {}).get("note", NOTE)})
        else:
            na.append({"property": i, "reason": "no check built yet"})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
