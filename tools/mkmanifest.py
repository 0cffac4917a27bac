"""Write MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTE = "Held on the executions observed (counts in the evidence file), not verified; random workloads are seeded by VERIF_SEED. "
T = json.load(open(os.path.join(R, "tools", "techniques.json")))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(R, "vf", "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i, technique=T[i][0], level="exploration",
                           level_note=NOTE + T[i][1]))
    else:
        na.append(dict(property=i, reason="check under construction"))
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
               notes="Every check imports openconcept from /repo's working tree at run time (pure Python, nothing to build); no hooks are needed in /repo."),
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
