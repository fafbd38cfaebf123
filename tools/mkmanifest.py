"""Regenerate MANIFEST.json from the checks present."""
import ast, glob, json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = "pure function of its inputs: no schedule, clock, I/O, crash point or second party for it to depend on, so there is nothing for a simulator to control"
checks, na = [], []
for p in props:
    f = os.path.join(HERE, "dst", "checks", p["id"].lower() + ".py")
    if p["id"].startswith("N"):
        reason = NA
        if p["id"] in ("N04", "N05", "N07"):
            reason += "; the data files or propagators it needs are also absent here"
        na.append({"property": p["id"], "reason": reason})
        continue
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    tree = ast.parse(open(f).read())
    v = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                v[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    note = ("Seeded search, evidence not proof. " + v.get("RULE", "") + " Real: " + "; ".join(v["REAL"]) + ". Stub: "
            + "; ".join(v["STUB"]) + ". Assumes: " + "; ".join(v["ASSUME"]) + ".")
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./run.sh {p['id']} --tier quick",
        "thorough_cmd": f"./run.sh {p['id']} --tier thorough",
        "technique": "deterministic simulation with fault injection (seeded search over schedules, crash points and faults; reference-model oracle)",
        "level": v["LEVEL"],
        "level_note": note,
    })
doc = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: every seam is an existing interface (sqlite3/psycopg2 connect, ResourcePath, urllib, libc I/O, clock) taken over from outside."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as o:
    json.dump(doc, o, indent=1)
    o.write("\n")
print(len(checks), "checks", len(na), "not applicable")
