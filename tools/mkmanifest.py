"""Regenerate MANIFEST.json from properties.jsonl and the checks present."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {
 "N01": "pure functions of voltages, temperature and parameters: no schedule, clock, I/O, fault or history enters, so simulation with fault injection has nothing to control; the fault-facing part (a device evaluation that overflows in mid-solve) is decided under C01/C04",
 "N04": "pure array functions without state, time or I/O; nothing for a scheduler or fault injector to decide",
 "N05": "pure functions of time; the only simulated aspect, their use along rejected and accepted time steps, is decided under C04",
 "N06": "a pure text-to-objects mapping; how the bytes arrive and fail is decided under C14, the mapping itself needs no simulator",
}
NOTES = json.load(open(os.path.join(here, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(here, "sim", "checks", i.lower() + ".py")) and i in NOTES:
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": NOTES[i][0], "level": "exploration", "level_note": NOTES[i][1]})
    else:
        na.append({"property": i, "reason": "check under construction, not claimed yet"})
m = {"version": 1, "setup_cmd": "./check.sh setup",
     "hooks": {"guard": "AHKAB_SIM", "enable": "nothing to enable: the simulator's seams sit on numpy, scipy, the file layer, the clock, threading and tracing, installed by sim/seams.py before ahkab is imported; /repo carries no hooks", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "./check.sh <id> [quick|thorough]; ./check.sh replay <file>; ./check.sh selftest. Everything runs ahkab from /repo's working tree."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
