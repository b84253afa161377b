"""C06 the exported form of a project holds all of it, and reading it back gives it again.

Exporting a project of known items gives its settings and exactly its items, kind by
kind, in order; reading an exported form gives a project with its settings and exactly
its items (a later bar, tempo change or pedal event replaces an earlier one of its kind
at the same tick); so exporting and reading back is the identity.  For any number of
items the export is compared with the closed form of a copy of each repository."""
from .. import inv, models
from . import edits as E
from .util import *

XP = "crate::project::ExportedProject"


def build(env):
    inv.install(env.W)
    into = lambda q: impl_fn(q.W, "core::convert::Into", PROJ, "into")
    from_ = lambda q: impl_fn(q.W, "core::convert::From", PROJ, "from")

    def export(counts):
        def f(q):
            r = E.Run(q, counts)
            x = q.call(into(q), r.p)
            for a in ("rhythm", "key", "grid"):
                q.eq(a, q.fld(x, a), accessed(q, r.p, a))
            ms = q.fld(x, "models")
            for k in E.KINDS:
                list_eq(q, k, q.fld(ms, k), r.items[k])
            E.same_project(q, "read back", q.call(from_(q), x), r.p)
        env.forall("export and read back %s" % E.show(counts), f, XP, setup=E.setup())

    def read(counts):
        def f(q):
            its = items_of(q, counts)
            x = with_(q, q.sym("exported", ty(q, XP)), models=models_of(q, its))
            p = q.call(from_(q), x)
            for a in ("rhythm", "key", "grid"):
                q.eq(a, accessed(q, p, a), q.fld(x, a))
            got = E.content(q, p)
            for k in E.KINDS:
                want = []
                for i in its.get(k, []):
                    want = models.lbadd(q.ctx, want, E.start(q, k, i), i) if k == "notes" else models.ladd(q.ctx, want, E.start(q, k, i), i)[0]
                E.same_entries(q, "read", k, got[k], want)
        env.forall("read %s" % E.show(counts), f, XP, setup=E.setup())
    many = 3 if env.tier == "quick" else 5
    export({k: 1 for k in E.KINDS})
    read({k: 1 for k in E.KINDS})
    for k in E.KINDS:
        export({k: many})
        read({k: 3})

    def general(q):
        p = q.sym("p", ty(q, PROJ))
        x = q.call(into(q), p)
        ms = q.fld(x, "models")
        for k in E.KINDS:
            s = accessed(q, p, KIND[k][2])
            got = q.ctx.whnf(q.fld(ms, k))
            q.eq("number of " + k, w.seqlen(got), w.seqlen(s))
            i = q.sym("i", q.W.tyid["usize"])
            shape_eq(q, "the i-th of " + k, w.mkat(got, i), w.mkfld(w.mkat(s, i, models.store_elem(I.value_type(s))), 0, 1))
    env.forall("export, any number of items", general, XP)
