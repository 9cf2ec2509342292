#!/usr/bin/env python3
"""Runs the check of one property:  tools/check.py C01   (VERIF_SEED, VERIF_TIER)
   Re-runs a recorded violation:    tools/check.py replay work/C01/replay-0.json"""
import json, os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
import props


def replay(path):
    r = json.load(open(path))
    print(r["why"])
    if not r.get("case"):
        print("no single case recorded; re-run the check with VERIF_SEED=%s" % r["seed"])
        return 1
    with tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False) as f:
        f.write(json.dumps(r["case"]) + "\n")
    c = Check("replay")
    res = c.run_harness(r["family"], [f.name], r["opts"], r.get("variant", "mt"))
    os.unlink(f.name)
    for x in res["fails"]:
        print("still fails:", x["why"])
    return 1 if res["fails"] else 0


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        main_guard(lambda: replay(sys.argv[2]))
    if sys.argv[1] == "setup":
        main_guard(lambda: parallel(tlcext, harness) and 0)
    main_guard(lambda: getattr(props, sys.argv[1].lower())())
