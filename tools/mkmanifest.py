"""writes MANIFEST.json; LEVELS says what decides each property at the moment"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF = {"P05", "P06"}
NOTE = {}
T = "contracts on the real functions, verified by symbolic execution of /repo's source with discharge by normal forms / z3 (pyvc); run-time evaluation of the same contracts as a bounded layer"
B = "run-time evaluation of the functions' contracts on generated inputs (bounded stand-in of the deductive check)"
checks = []
for l in open(os.path.join(HERE, "properties.jsonl")):
    i = json.loads(l)["id"]
    proof = i in PROOF
    checks.append(dict(property=i, quick_cmd=f"bash check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough bash check.sh {i}",
                       evidence_file=f"evidence/{i}.json", technique=T if proof else B, level="proof" if proof else "exploration",
                       level_note=NOTE.get(i, "see DESIGN.md section " + i)))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[])
open(os.path.join(HERE, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
