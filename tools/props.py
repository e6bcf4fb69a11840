#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the entries below (one per property)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = "server/src/engine/"
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, state=None, observe=None, na=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": [f if f.startswith(("server", "lib", "harness")) else E + f for f in files],
                     "mechanism": [{"name": n, "where": E + w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": E + c} for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append((d, technique, note, na))


exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())

if __name__ == "__main__":
    P.sort(key=lambda x: x[0]["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for d, _, _, _ in P:
            f.write(json.dumps(d) + "\n")
    checks, nas = [], []
    for d, t, n, na in P:
        if na or not os.path.exists(os.path.join(ROOT, "sa", "rules", d["id"] + ".py")):
            nas.append({"property": d["id"], "reason": na or "no check built yet"})
            continue
        checks.append({"property": d["id"], "quick_cmd": "python3 check.py " + d["id"],
                       "thorough_cmd": "python3 check.py " + d["id"],
                       "evidence_file": "evidence/%s.json" % d["id"],
                       "technique": t, "level": "other", "level_note": n})
    m = {"version": 1, "setup_cmd": "python3 sa/build.py", "checks": checks, "not_applicable": nas,
         "notes": "No hooks: the checks read the compiler's MIR of the unmodified tree."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(nas), "not applicable")
