"""writes MANIFEST.json from the property modules that exist"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NA = {
    "C28": "distributional claims about the numpy/scipy random generators are statistical: no first-order contract over single executions expresses them",
    "C29": "the legacy loader parses fixed-column text files and is unfinished (it returns nothing usable); string scanning of whole files is outside what the contracts here can state usefully",
}
NOTE = {}
p = os.path.join(R, "tools", "notes.json")
if os.path.exists(p):
    NOTE = json.load(open(p))
checks, na = [], []
for d in props:
    i = d["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif not os.path.exists(os.path.join(R, "props", i.lower() + ".py")):
        na.append({"property": i, "reason": "no contracts written yet"})
    else:
        checks.append({
            "property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "contract-based deductive verification: pre/postconditions and inferred-and-checked loop invariants on the functions of /repo, obligations generated from the current source and discharged by normal forms and z3; contract run on the real code for replays",
            "level": "proof",
            "level_note": NOTE.get(i, "") + ("" if not NOTE.get(i) else " ") +
            "Unbounded proof over exact real arithmetic of every obligation of the units listed as proved in the evidence file; trusted: the evaluator's Python semantics and its contracts of numpy/scipy/pandas functions, z3, defined division outside guarded cases. Bounded units and the contract run are labelled as such and not counted as proved."})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/selftest.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: contracts live in /verif/props and the functions are read from /repo/src on every run."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
