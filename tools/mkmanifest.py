import json, sys
sys.path.insert(0, "/verif")
from checks import CHECKS
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NA = {}
note_default = ("TLC judges traces recorded from the real code (every event of every trace) against the TLA+ specification, whose certificates and mechanism models are "
                "model-checked exhaustively at small scope. Assurance holds for the recorded executions and for the model within its bounds; it trusts TLC, the C++ compiler "
                "and the drivers' faithful logging of inputs and answers.")
m = dict(version=1, setup_cmd="python3 -m py_compile run.py checks.py && java -version",
         checks=[], not_applicable=[])
for p in props:
    pid = p["id"]
    if pid in CHECKS:
        c = CHECKS[pid]
        m["checks"].append(dict(property=pid, quick_cmd="python3 run.py %s" % pid, thorough_cmd="python3 run.py %s --tier thorough" % pid,
                                technique=c.get("technique", "TLA+ specification model-checked with TLC; traces of the real code validated against it by TLC"),
                                level="model_checking", level_note=c.get("level_note", note_default)))
    else:
        m["not_applicable"].append(dict(property=pid, reason=NA.get(pid, "no check built yet")))
m["notes"] = "Each check is self-contained: it compiles /repo's library and its driver from the working tree, records traces and has TLC judge them. No hooks in /repo are needed: the public API exposes the abstract state."
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
