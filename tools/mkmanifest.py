#!/usr/bin/env python3
import json
PROOF = {f"C{i:02}" for i in range(1, 24)}
T = "contract-based deductive verification (Verus on functions extracted from /repo on every run)"
checks = []
for i in range(1, 24):
    p = f"C{i:02}"
    pr = p in PROOF
    checks.append(dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p}",
        technique=T if pr else "bounded check of the functions not yet under contract; " + T + " for the rest",
        level="proof" if pr else "exploration",
        level_note="every obligation of the property's functions is discharged by Verus/Z3; concrete search only replays failures" if pr else "bounded, not proved: random API histories against an independent oracle; some of the property's functions have no contract yet"))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[]), open("/verif/MANIFEST.json", "w"), indent=1)
