"""Single source of the property list: regenerates properties.jsonl and MANIFEST.json (run by hand, output committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []       # claimed
NA = []      # stated but not decided by this family


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=()):
    P.append(dict(rec(id, title, statement, over, text, why, files, mech, state, observe), technique=technique, note=note))


def na(id, title, statement, over, text, why, files, mech, reason, state=(), observe=()):
    NA.append(dict(rec(id, title, statement, over, text, why, files, mech, state, observe), reason=reason))


def rec(id, title, statement, over, text, why, files, mech, state, observe):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a}


exec(open(os.path.join(V, "tool", "proplist.py")).read())

keys = ["id", "title", "statement", "quantifier", "why_tests_cant", "anchors"]
allp = sorted(P + NA, key=lambda p: p["id"])
assert len({p["id"] for p in allp}) == len(allp)
for p in allp:
    assert len(p["title"]) <= 80, p["id"]
    assert os.path.exists(os.path.join(V, "rules", p["id"].lower() + ".py")) == (p in P), p["id"]
with open(os.path.join(V, "properties.jsonl"), "w") as o:
    for p in allp:
        o.write(json.dumps({k: p[k] for k in keys}) + "\n")
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, 'tool'); import front; front.tool('irtool')\"",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                 "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                 "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in sorted(P, key=lambda p: p["id"])],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in sorted(NA, key=lambda p: p["id"])]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "claimed", len(NA), "not applicable")
