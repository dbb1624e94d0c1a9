#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand; the
results are committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, qtext, why, files, mech, tech, note, observe=None, claimed=True, reason=""):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                tech=tech, note=note, observe=observe or [], claimed=claimed, reason=reason)

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")

m = dict(version=1, setup_cmd="bash run.sh setup",
         checks=[dict(property=p["id"], quick_cmd="bash run.sh %s quick" % p["id"], thorough_cmd="bash run.sh %s thorough" % p["id"],
                      technique=p["tech"], level="model_checking", level_note=p["note"]) for p in PROPS if p["claimed"]],
         not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in PROPS if not p["claimed"]],
         notes="No hooks are committed in /repo: scheduling points and map-iteration control are injected at build time with go's -overlay.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
