"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONC = ("TLA+ specification model-checked with TLC; histories of the real code under a controlled scheduler (incl. weak memory) validated against it by TLC",
        "Every history recorded from the real code (schedules and weak-memory reads chosen by the runtime, instrumented through the compiler's TSan interface) is checked by TLC to be a behaviour of the specification. Trusts TLC, the runtime, and that preemption at atomic operations (and plain accesses where stated) covers the relevant interleavings.")
FUN = ("TLA+ specification of the operation evaluated by TLC on recorded calls of the real code; small inputs enumerated exhaustively from the specification",
       "Every recorded call of the real code (exhaustive small inputs, structured inputs around every internal threshold, several worker counts and controlled schedules) is checked by TLC against the specification's definition of the result. Trusts TLC and the recorder.")
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "checks", i + ".py")) and i not in NA:
        t = CONC if int(i[1:]) <= 12 else FUN
        checks.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": t[0], "level": "model_checking", "level_note": t[1]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: harnesses compile the library's headers with the compiler's TSan instrumentation against the runtime in rt/."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
