"""C03 contents change only through recorded edits.

Every edit leaves exactly one record, made with the state before it and the state
after it (so nothing changed outside the recorded step), an edit that does not apply
leaves contents and history alone, and clearing the event lists changes no contents.
Structurally: no public function or field lets a caller change a project except the
edits of the undo store and the record's own undo/redo."""
import re
from .. import inv
from . import edits as E
from .util import *


def build(env):
    inv.install(env.W)
    for name, anchor, make, rep in E.scenarios(env.tier):
        def f(q, make=make):
            r = make(q)
            if r.noop:
                q.holds("not recorded", t.boolc(not r.cmds))
                return E.same_project(q, "unchanged", r.after, r.p)
            r.cmd()
            e = r.cmds[0]
            q.holds("nothing else happens to the history", t.boolc(not [x for x in r.events if x[0] in ("irrev", "noop")]))
            E.same_project(q, "before the recorded step", e[2], r.p)
            E.same_project(q, "after the recorded step", r.after, e[3])
        env.forall(name, f, anchor, setup=E.setup())

    def clear(q):
        r = E.Run(q, {k: 2 for k in E.KINDS})
        r.perform("clear_model_events")
        q.holds("no record", t.boolc(not r.cmds))
        E.same_project(q, "contents", r.after, r.p)
        seen = {x[1] for x in r.events if x[0] == "clear_events"}
        for k in E.KINDS:
            q.holds("events of %s cleared" % k, t.boolc(any(x is accessed(q, r.p, KIND[k][2]) for x in seen)))
    env.forall("clear_model_events", clear, PRJ + "::clear_model_events", setup=E.setup())

    W = env.W
    bad, seen = [], 0
    for x in W.types:
        if x.get("path") == PROJ:
            for v in x["variants"]:
                for f in v["fields"]:
                    seen += 1
                    if f.get("vis") == "Public":
                        bad.append(("public field %s" % f["n"], "callers outside the crate can assign it"))
    for f in W.fns:
        if f.get("vis") != "pub" or not f.get("body") or f.get("impl_trait") in ("serdo::cmd::Cmd",):
            continue
        b = f["body"]
        seen += 1
        for i in range(b["argc"] + 1):
            s = W.types[b["locals"][i]]["s"]
            if re.search(r"&(?:'\w+ )?mut (crate::project::ProjectImpl\b|klavier_helper::(store::Store|bag_store::BagStore)<)", s):
                bad.append(("%s" % f["path"], "%s gives callers a mutable project: %s" % ("its result" if i == 0 else "an argument", s)))
    env.structural("no way around the history", PROJ, bad, seen)
