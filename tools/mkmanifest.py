"""regenerate MANIFEST.json from the properties, contracts and harnesses present"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import contracts
NA = {}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    d = json.loads(line)
    p = d["id"]
    items = contracts.for_property(p)
    rt = os.path.exists(os.path.join(HERE, "rt", p.lower() + ".py"))
    if p in NA or not (items or rt):
        na.append({"property": p, "reason": NA.get(p, "not built yet")})
        continue
    fns = [f"{m}.{n}" for k, m, n in items if k == "contract"]
    note = []
    if fns:
        note.append("Deductive: " + ", ".join(fns) + " verified for all inputs and iterations over the current source; "
                    "trusts the pyvc engine and its numpy/torch models, real arithmetic for floats, and the assumptions listed per contract in the evidence.")
    note.append("The same contracts are evaluated on the real code over bounded-exhaustive and seeded cases (labelled bounded, "
                "not counted as proved); that part also covers the functions of this property no contract reaches.")
    checks.append({"property": p, "quick_cmd": f"python3-vt check.py {p} quick", "thorough_cmd": f"python3-vt check.py {p} thorough",
                   "evidence_file": f"evidence/{p}.json",
                   "technique": "contract-based deductive verification of the real Python source (symbolic VC generation, z3/cvc5)" if fns else
                   "executable contracts on the real code, bounded (no function of this property proved)",
                   "level": "proof" if fns else "exploration", "level_note": " ".join(note)})
m = {"version": 1, "setup_cmd": "python3-vt -c \"import z3, sys; sys.path.insert(0,'.'); import pyvc.engine, contracts\"",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: contracts are sidecars in /verif/contracts, the source is parsed from /repo on every run."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
