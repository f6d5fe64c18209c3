"""Writes MANIFEST.json from properties.jsonl, budget.json and the property modules present."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
budget = json.load(open(V + "/sim/budget.json"))
props = [json.loads(x) for x in open(V + "/properties.jsonl")]
checks, na = [], []
NA = {
    "N01": "pure in-memory interval algebra: no schedule, clock, I/O, fault or history of the environment enters it, so there is nothing to simulate",
    "N02": "pure in-memory lookup in an immutable value: nothing for a simulator to decide",
    "N03": "pure functions of integer spans: nothing for a simulator to decide",
    "N04": "pure text rendering of in-memory arguments: nothing for a simulator to decide",
    "N05": "pure accessors over an in-memory tree (those which touch the file system are claimed in C14 and C15)",
    "N06": "pure function of one in-memory tree (interpolation across files and faults is claimed in C12)",
    "N07": "pure resolution of names in the running interpreter; its import side effects are the interpreter's own (building stores from parameters is claimed in C01, C04 and C08)",
    "N08": "pure argument checks and conversions: nothing for a simulator to decide",
}
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/sim/props/{i.lower()}.py") and i in budget and budget[i].get("claimed", True):
        b = budget[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "technique": "deterministic simulation with fault injection: " + b["technique"],
                       "level": "exploration", "level_note": b["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "planned for deterministic simulation as in DESIGN.md; its check is not finished yet")})
json.dump({"version": 1, "setup_cmd": "sh sim/build.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the seam is the system-call boundary of the process (sim/shim.c, LD_PRELOAD). Replay: python3 check.py ID --replay FILE [-v]."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
