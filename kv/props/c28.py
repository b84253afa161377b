"""C28 added items are announced with the selection that was asked for.

The metadata given to the repositories (from which the interface learns what to
select) for every item an edit adds: `select` asks to select it, otherwise nothing is
said; explicit metadata is passed on unchanged; tuplets are selected; bars appended
automatically never ask for anything.  The record carries the same metadata, so
undoing and redoing announce the same."""
from .. import interp as I, inv
from . import edits as E
from .util import *


def build(env):
    inv.install(env.W)
    for name, anchor, make, rep in E.scenarios(env.tier):
        def f(q, make=make):
            r = make(q)
            if r.noop or r.set:
                return
            ms = ty(q, E.META)

            def sel(label, m, on):
                o = q.fld(m, "need_select")
                if on:
                    q.holds(label + ": asks", is_(q, o, "Some"))
                    q.holds(label + ": to select", q.payload(o))
                else:
                    q.holds(label + ": asks nothing", is_(q, o, "None"))
                q.holds(label + ": not dragged", bnot(q.fld(m, "dragged")))
            on = None if r.meta is not None else q.branch(r.sel)

            def check(label, m):
                if r.meta is not None:
                    q.eq(label, m, r.meta)
                else:
                    sel(label, m, on)
            cmd = r.cmd()
            new = [E.val(q, w.mkfld(e, 0, 1)) for k in E.KINDS for e in r.want[k] if e not in before(r, k)]
            seen = 0
            for e in r.events:
                if e[0] == "store" and e[1] == "add":
                    x = E.val(q, e[3])
                    if any(x is y for y in new):
                        check("item", e[4])
                        seen += 1
                    else:
                        sel("appended bar", e[4], False)
            q.holds("every added item is announced", t.boolc(seen >= len(new)))
            check("record", q.fld(cmd, "metadata"))
            n = len(q.ctx.events)
            u = r.apply(cmd, "undo", r.after)
            r.apply(cmd, "redo", u)
            for e in q.ctx.events[n:]:
                if e[0] == "store" and e[1] == "add":
                    check("undone / redone", e[4])
        env.forall(name, f, anchor, setup=E.setup())

    # the announcements read from the store are those of the repository of that kind
    def read(q):
        r, m = undo_store(q)

        def strip(v):
            while v.op == "ref":
                v = q.ctx.deref(v)
            return v
        for k in E.KINDS:
            n = k[:-1] + "_events"
            repo = accessed(q, m, KIND[k][2])
            got = strip(q.call(impl_fn(q.W, PRJ, "", n), r))
            if not any(x is repo for x in t.walk(got)) and not any(any(x is accessed(q, m, KIND[j][2]) for x in t.walk(got)) for j in E.KINDS):
                raise I.Undecided("where %s come from: %s" % (n, t.show(got)[:200]))
            q.holds(n + " are those of " + k, t.boolc(any(x is repo for x in t.walk(got))))
    env.forall("announcements read", read, PRJ + "::note_events")


def before(r, k):
    from .. import models
    return models.lit(E.store_of(r.q, k, r.items[k]))
