# Keeps the usable planted bugs of the last tools/plant.py runs and drops the others; records what catches them.
import json, os, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = V + "/tools/caught.json"
caught = json.load(open(path)) if os.path.exists(path) else {}
for line in open("/tmp/plant/results.jsonl"):
    r = json.loads(line)
    d = f"{V}/seeded/{r['id']}"
    if "error" in r:
        if r["id"] not in caught and os.path.isdir(d): shutil.rmtree(d)
        continue
    if not os.path.isdir(d): continue
    by = r["line"].rsplit("replay=", 1)[1].split("/")[-1].replace(".replay", "") if r.get("caught") else None
    caught[r["id"]] = {"property": r["prop"], "by": by}
for i in sorted(os.listdir(V + "/seeded")):
    if i in caught: subprocess.run(["git", "-C", V, "add", "-f", f"seeded/{i}"], check=True)
    else: print("unknown:", i)
json.dump(dict(sorted(caught.items())), open(path, "w"), indent=0)
print(len(caught), "kept; missed:", [k for k, v in caught.items() if not v["by"]])
