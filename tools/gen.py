#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below (run by hand)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
TECH = "static analysis: path-sensitive interprocedural dataflow over rustc MIR (value numbering, intervals, linear inequalities, loop summaries)"


def prop(id, title, statement, over, text, why, files, mech, tech=TECH, note="", state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, state=list(state)))


NOTE = ("Every abstract path of the listed functions in /repo's current MIR is analysed; on the unchanged tree every obligation is decided. On a changed tree an obligation whose "
        "path uses a construct the analysis cannot follow is printed as UNDECIDED and listed in the evidence, not reported as a violation. "
        "Trusted: rustc's MIR, the transfer functions for std and dependency calls in kv/models.py, and the value ranges C11 establishes.")

exec(open(os.path.join(HERE, "tools", "texts.py")).read())


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, "kv/props")) if f[0] == "c" and f[1:3].isdigit()}
    out, checks = [], []
    na = [n for n in NA]
    for p in P:
        if p["id"] not in have and p["id"] not in {n["property"] for n in na}:
            continue
        out.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                    "quantifier": {"over": p["over"], "text": p["text"]},
                    "why_tests_cant": p["why"],
                    "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                                "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]], "hook_needed": None}})
        if p["id"] in have:
            checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                           "technique": p["tech"], "level": "other", "level_note": (p["note"] + " " if p["note"] else "") + NOTE})
    for o in out:
        assert len(o["title"]) <= 80, o["title"]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for o in out:
            f.write(json.dumps(o) + "\n")
    m = {"version": 1, "setup_cmd": "cd driver && cargo +nightly build --offline -q", "checks": checks, "not_applicable": na,
         "notes": "One analyser (check.py, kv/) over MIR extracted by driver/ (a rustc driver); no hooks in /repo. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    print(len(out), "properties", len(checks), "checks", len(na), "not applicable")


main()
