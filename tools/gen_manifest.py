#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Edit CLAIMED and re-run."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXH = "exhaustive bounded enumeration of inputs and configurations on the real code, compared step by step with a reference model"
HIST = "exhaustive bounded exploration of operation histories on the real code against a reference model"
SCHED = "stateless model checking: all goroutine interleavings of the real code up to a preemption bound under a controlled scheduler"
FAULT = "exhaustive enumeration of fault and crash points on the real code"
NOTE = "Complete within the bounds given in the evidence file (scope_rule and coverage); trusts the small reference model in mc/props and says nothing about inputs beyond the bounds."
# id -> (technique, level, note)
CLAIMED = {
 "C01": (EXH, "model_checking", NOTE),
 "C02": (EXH, "model_checking", NOTE),
 "C03": (HIST, "model_checking", NOTE),
 "C04": (EXH, "model_checking", NOTE),
 "C22": (EXH, "model_checking", NOTE),
 "C21": (EXH + "; " + SCHED, "model_checking", NOTE),
 "C20": (SCHED, "model_checking", NOTE),
 "C18": (SCHED, "model_checking", NOTE),
 "C19": (SCHED, "model_checking", NOTE),
 "C23": (EXH, "model_checking", NOTE),
 "C26": (EXH, "model_checking", NOTE),
 "C27": (EXH, "model_checking", NOTE),
 "C28": (EXH, "model_checking", NOTE),
 "C29": (EXH, "model_checking", NOTE),
 "C30": (EXH + "; " + HIST, "model_checking", NOTE),
 "C05": (EXH, "model_checking", NOTE),
 "C06": (EXH, "model_checking", NOTE),
 "C07": (EXH, "model_checking", NOTE),
 "C08": (EXH, "model_checking", NOTE),
 "C09": (EXH, "model_checking", NOTE),
 "C10": (EXH, "model_checking", NOTE),
 "C11": (EXH, "model_checking", NOTE),
 "C12": (EXH, "model_checking", NOTE),
 "C13": (HIST, "model_checking", NOTE),
 "C14": (EXH, "model_checking", NOTE),
 "C15": (EXH, "model_checking", NOTE),
 "C16": (EXH, "model_checking", NOTE),
 "C24": (FAULT, "fault_enumeration", NOTE),
 "C25": (HIST, "model_checking", NOTE),
 "C17": (EXH, "model_checking", NOTE),
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, l, n = CLAIMED[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
            evidence_file=f"evidence/{i}.json", technique=t, level=l, level_note=n))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="./setup.sh", hooks=dict(guard="verif", enable="go build -tags verif (mc/props/sched.go)", source_commits=["bbbc171"]), checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
