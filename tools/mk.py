"""Regenerates /verif/properties.jsonl and /verif/MANIFEST.json from one table
(convenience for keeping both in step; not part of any check)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
D = "dsptoolbox/"
P = []

def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, note="", claimed=True, reason="", level="model_checking", technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, note=note, claimed=claimed, reason=reason, level=level, technique=technique))

exec(open(os.path.join(HERE, "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        a = dict(files=[D + x for x in p["files"]], mechanism=[dict(name=n, where=D + w) for n, w in p["mech"]], hook_needed=None)
        if p["state"]:
            a["state"] = [dict(name=n, meaning=m, where=D + w) for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")

m = dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="none", enable="no hooks are needed: every observation goes through the public interface", source_commits=[]), checks=[], not_applicable=[])
for p in P:
    if p["claimed"]:
        m["checks"].append(dict(property=p["id"], quick_cmd=f"/opt/venv/bin/python check.py {p['id']} --tier quick", thorough_cmd=f"/opt/venv/bin/python check.py {p['id']} --tier thorough", evidence_file=f"evidence/{p['id']}.json",
            technique=p["technique"] or "TLA+ specification checked with TLC, bound to the code by replaying generated behaviours and validating recorded executions", level=p["level"], level_note=p["note"]))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason=p["reason"]))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "claimed")
