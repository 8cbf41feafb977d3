#!/usr/bin/env python3
"""The one description of the properties; writes properties.jsonl, scenarios.json and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

BASE = ["The code decided is /repo's current tree compiled with gcc for this machine; the OpenMP runtime, heap, FFTW, BLAS, clock and stdio it meets are the simulator's.",
        "Random search over seeds: a violation that needs a coincidence the search did not draw is not excluded."]
A_ASSUME = "Build A (-O1, every memory access a scheduling point) stands for other builds of the same sources where only A is run."


def prop(id, title, statement, over, text, why, files, mech, parts, rule, note, assume=(), state=(), observe=()):
    an = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        an["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        an["observe_at"] = list(observe)
    an["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, anchors=an, parts=parts, rule=rule,
                  note=note, assume=BASE + list(assume)))


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                   anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}, reason=reason))


def part(exe, scen, quick, thorough=None):
    return {"exe": exe, "scen": scen, "quick": quick, "thorough": thorough or quick * 60}


SRC = "src/"
exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P + NA:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": p["anchors"]}) + "\n")
with open(os.path.join(V, "scenarios.json"), "w") as f:
    json.dump({p["id"]: {"title": p["title"], "rule": p["rule"], "parts": p["parts"], "assumptions": p["assume"]} for p in P}, f, indent=1)
    f.write("\n")
man = {"version": 1, "setup_cmd": "python3 build.py " + " ".join(sorted({x["exe"] for p in P for x in p["parts"]})),
       "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": "deterministic simulation with fault injection: " + p["note"][0],
                   "level": "exploration", "level_note": p["note"][1]} for p in P],
       "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
       "notes": "No hooks in /repo: every seam is a symbol redirected in the compiled objects (objcopy --redefine-syms) or the compiler's own "
                "instrumentation calls. The commits in /repo are fixes only; see known-findings.txt. tools/gen.py writes this file from tools/props.py."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
