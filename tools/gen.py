#!/usr/bin/env python3
# writes properties.jsonl and MANIFEST.json from the one list below
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level_note=None, level="exploration", technique=None):
    P.append(dict(rec=dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b) for a, b in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=False)),
        note=level_note, level=level, technique=technique))
def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech)
    P[-1]["na"] = reason
exec(open(os.path.join(V, "tools", "props.py")).read())
SIM = "deterministic simulation with fault injection: "
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p["rec"]) + "\n")
m = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="none", enable="no hooks in /repo: the simulator redirects libfirm's calls to malloc, free, realloc, calloc, fopen, qsort, rand, srand, gettimeofday, time, getenv, getpid, sched_*, exit, abort and the assertion handler at link time (objcopy --redefine-sym on the archive built from /repo)", source_commits=[]),
    checks=[dict(property=p["rec"]["id"], quick_cmd="./check.sh %s" % p["rec"]["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh %s --thorough" % p["rec"]["id"],
        technique=SIM + p["technique"], level=p["level"], level_note=p["note"], evidence_file="evidence/%s.json" % p["rec"]["id"]) for p in P if "na" not in p],
    not_applicable=[dict(property=p["rec"]["id"], reason=p["na"]) for p in P if "na" in p])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
