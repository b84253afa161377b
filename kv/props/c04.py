"""C04 every item is filed under its own start tick.

After every edit, after undoing it and after redoing it, and after reading a project
from its exported form, every repository files each item under the item's own
(effective) start tick, in ascending order."""
from .. import inv
from . import edits as E
from .util import *


def filed_ok(q, label, p):
    for k, es in E.content(q, p).items():
        prev = None
        for i, e in enumerate(es):
            q.eq("%s: %s %d" % (label, k, i), w.mkfld(e, 0, 0), E.start(q, k, E.val(q, w.mkfld(e, 0, 1))))
            if prev is not None:
                q.holds("%s: order of %s %d" % (label, k, i), (le if k == "notes" else lt)(prev, w.mkfld(e, 0, 0)))
            prev = w.mkfld(e, 0, 0)


def build(env):
    inv.install(env.W)
    for name, anchor, make, rep in E.scenarios(env.tier):
        def f(q, make=make):
            r = make(q)
            filed_ok(q, "after", r.after)
            if r.noop:
                return
            u = r.apply(r.cmd(), "undo", r.after)
            filed_ok(q, "undone", u)
            filed_ok(q, "redone", r.apply(r.cmd(), "redo", u))
        env.forall(name, f, anchor, setup=E.setup())

    def imp(q):
        ep = ty(q, "crate::project::ExportedProject")
        its = E.items_of(q, {k: 2 for k in E.KINDS})
        x = q.sym("exported", ep)
        p = q.call(impl_fn(q.W, "core::convert::From", PROJ, "from"), with_(q, x, models=models_of(q, its)))
        filed_ok(q, "imported", p)
    env.forall("reading an exported project", imp, PROJ, setup=E.setup())
