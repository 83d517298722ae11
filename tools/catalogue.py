#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: tools/catalogue.py writes both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def P(pid, title, statement, over, text, why, files, mech, technique, level, note, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    PROPS.append(({"id": pid, "title": title, "statement": statement,
                   "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why, "anchors": a},
                  technique, level, note))


def N(pid, title, statement, over, text, why, files, mech, reason):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    PROPS.append(({"id": pid, "title": title, "statement": statement,
                   "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why, "anchors": a},
                  None, None, reason))


T_DFCC = "CBMC code contracts (goto-instrument --dfcc) on the real functions, with loop contracts"
T_MOD = "modular verification with CBMC: real function bodies, callees replaced by contract stubs"
T_HARN = "CBMC on the real functions against executable pre- and postconditions"

exec(open(os.path.join(HERE, "tools", "catalogue_entries.py")).read())

if __name__ == "__main__":
    PROPS.sort(key=lambda p: p[0]["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _, _, _ in PROPS:
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
         "notes": "No hooks in /repo. Every check compiles /repo/src from the working tree into a scratch directory with goto-cc "
                  "and decides all obligations with CBMC; loop contracts are injected mechanically into a scratch copy (lib/inject.py)."}
    for p, tech, level, note in PROPS:
        pid = p["id"]
        if tech is None:
            m["not_applicable"].append({"property": pid, "reason": note})
            continue
        m["checks"].append({"property": pid, "quick_cmd": "python3 run.py %s" % pid,
                            "thorough_cmd": "python3 run.py %s --tier thorough" % pid,
                            "evidence_file": "evidence/%s.json" % pid, "technique": tech, "level": level, "level_note": note})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    try:
        import jsonschema
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for p in PROPS:
            jsonschema.validate(p[0], s)
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    except ImportError:
        pass
