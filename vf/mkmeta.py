import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.props import P, VERIF
assert len({p["id"] for p, _ in P}) == len(P)
for p, _ in P:
    assert len(p["title"]) <= 80, p["id"]
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p, _ in sorted(P, key=lambda x: x[0]["id"]):
        f.write(json.dumps(p) + "\n")
done = [m for p, m in P if os.path.exists(os.path.join(VERIF, "vf", "checks", p["id"].lower() + ".py"))]
todo = [p["id"] for p, m in P if m not in done]
man = {"version": 1, "setup_cmd": "./setup", "checks": sorted(done, key=lambda m: m["property"]),
       "not_applicable": [{"property": i, "reason": "no check is registered for it yet"} for i in todo],
       "notes": "No hooks: the checks observe litdata through its public interface and through wrappers installed from /verif at run time."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(done), "claimed;", todo)
