"""obligations of the last run of a property: python3 tools/obls.py P01"""
import json, sys, os
e = json.load(open(os.path.join(os.path.dirname(__file__), "..", "evidence", sys.argv[1] + ".json")))
def find(x):
    if isinstance(x, dict):
        if "obligation_list" in x: return x["obligation_list"]
        for v in x.values():
            r = find(v)
            if r: return r
for o in find(e): print(o["status"], o.get("s"), o["name"], "|", o.get("bounded", "UNBOUNDED")[:60], "|", o.get("detail", "")[:200])
