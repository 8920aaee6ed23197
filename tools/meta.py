"""Source of properties.jsonl and MANIFEST.json: `python3 tools/meta.py` rewrites both."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, qtext, why, files, mechanism, technique=None, note=None, na=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, na=na, state=state))


MIR = "The typed MIR of the real build (rustc nightly, offline) is the input; trusted: rustc's lowering, the MIR dumper and the analysis in /verif/sa."

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props.py")).read())


def main():
    PROPS.sort(key=lambda p: p["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
            if p["state"]:
                anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["qtext"]},
                                "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        else:
            checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"./check {p['id']} thorough",
                           "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "other", "level_note": p["note"]})
    man = {"version": 1, "setup_cmd": "python3 -m sa.dump", "checks": checks, "not_applicable": na,
           "notes": "Static analysis of the typed MIR of /repo's current tree; no hooks in /repo."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]


main()
