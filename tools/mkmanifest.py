#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "explicit TLA+ specification; TLC explores the design model exhaustively, TLC-generated behaviours are replayed " \
    "into the real code and the recorded traces are judged by TLC against the specification"
TC = "explicit TLA+ specification of the operation; TLC enumerates the cases and computes the expected results, the real " \
     "code is run on every case and the recorded results are judged by TLC"
TECH = {}
CASES = {"P10", "P11", "P12", "P13", "P14", "P17", "P18", "P20", "P26"}
NOTE = {
    "default": "The design model is explored exhaustively within its bounds; conformance of the code is established for "
               "the generated behaviours and configurations (sampled from the specification with a seed), so a deviation "
               "outside of them would be missed.",
}
NA = {
    "P24": "The statement is about floating-point accuracy of a real-valued linear-algebra computation (kernel matrices, "
           "Cholesky factors, trend regression); TLA+/Quint have no real analysis, and a model over integers or "
           "rationals would not model the computation at all.",
    "P25": "A statistical statement about expected performance on unspecified objectives; a state-machine specification "
           "has no notion of expectation over seeds, and no trace can witness or refute it.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --tier thorough",
                           technique=TC if i in CASES else T, level="model_checking", level_note=NOTE.get(i, NOTE["default"]),
                           evidence_file=f"evidence/{i}.json"))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check under construction")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks: the checks drive the public interface of the code in /repo's working tree.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
