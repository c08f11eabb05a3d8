#!/usr/bin/env python3
"""Writes properties.jsonl, props.json and MANIFEST.json from the one table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, funcs, rules=(), state=(), observe=(), technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  funcs=funcs, rules=list(rules), state=state, observe=observe, technique=technique, note=note))

exec(open(os.path.join(here, "props_table.py")).read())

EQ = "value-graph equivalence (gated SSA, canonical path conditions) of the responsible functions with reviewed reference functions"
NOTE = ("Static, no execution. Holds for all inputs up to the analyser's model: each function named in props.json for this property computes, "
        "for every argument and heap, the same results, aborts, effects and effect order as its reviewed reference; a difference is reported at the "
        "diverging construct. Trusts: the references as a statement of the property, the models of standard-library calls, absence of reflection/unsafe, "
        "and sequential execution (the repository starts no goroutines).")
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"],
                         state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                         mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                         observe_at=list(p["observe"]), hook_needed=None)), ensure_ascii=False) + "\n")
json.dump([dict(id=p["id"], obligations=p["funcs"], rules=p["rules"]) for p in P], open(os.path.join(here, "props.json"), "w"), indent=1)
json.dump(dict(
    version=1,
    setup_cmd="sh /verif/setup.sh",
    checks=[dict(property=p["id"], quick_cmd="/verif/check %s quick" % p["id"], thorough_cmd="/verif/check %s thorough" % p["id"],
                 evidence_file="evidence/%s.json" % p["id"],
                 technique=p["technique"] or EQ, level="other", level_note=p["note"] or NOTE) for p in P],
    not_applicable=NA,
    notes="Static analysis only; see DESIGN.md. No hooks in /repo: the analyser overlays its reference functions in memory at load time."),
    open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
for p in P:
    assert len(p["title"]) <= 80, p["title"]
print(len(P), "properties")
