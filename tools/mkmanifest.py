import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import PLANNER
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
try:
    from libtable import LIB
except ImportError:
    LIB = {}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLANNER:
        c = PLANNER[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 tools/run.py check " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 tools/run.py check " + i,
            "technique": "TLA+ (TLC): exhaustive model of the planner (spec/Planner.tla, MCPlanner.tla) and trace validation of the real planner, run under a controlled scheduler, against spec/PlannerTrace.tla",
            "level": "model_checking",
            "level_note": "The specification is checked exhaustively for small bounds (%s); the real code is bound to it by validating every recorded line of generated executions (families %s) against the specification. Schedules are chosen at synchronisation operations; data races between them are not explored. The numerical solver is treated as an oracle whose results are judged, not predicted." % (
                ", ".join("MCPlanner_%s" % x for x in c[2]), ", ".join(f for f, _, _ in c[1]))})
    elif i in LIB:
        checks.append(dict({"property": i, "quick_cmd": "python3 tools/run.py check " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 tools/run.py check " + i}, **LIB[i]["manifest"]))
    else:
        na.append({"property": i, "reason": "not claimed yet: its check is being built"})
m = {"version": 1, "setup_cmd": "python3 tools/run.py build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness compiles /repo's unchanged sources and intercepts the thread library."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
