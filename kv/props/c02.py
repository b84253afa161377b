"""C02 an edit puts in, takes out and changes exactly what it says.

Every edit of the undo store is analysed on projects of known items with arbitrary
ticks and attributes.  Afterwards the repositories hold exactly what they held, with
the edited items added, removed or replaced (an item of a kind that allows one per tick
displaces the one at its tick); bars may have been appended after the last; time
signature, key and grid are unchanged unless that is the edit."""
from .. import inv
from . import edits as E
from .util import *


def build(env):
    inv.install(env.W)
    for name, anchor, make, rep in E.scenarios(env.tier):
        def f(q, make=make, rep=rep):
            r = make(q)
            got = E.content(q, r.after)
            for k in E.KINDS:
                g = got[k]
                if k == "bars" and rep:
                    q.holds("no bar lost", t.boolc(len(g) >= len(r.want[k])))
                    g = g[:len(r.want[k])]
                E.same_entries(q, "after", k, g, r.want[k])
            for a in ("rhythm", "key", "grid"):
                q.eq(a, accessed(q, r.after, a), r.set[1] if r.set and r.set[0] == a else accessed(q, r.p, a))
        env.forall(name, f, anchor, setup=E.setup())

    # each kind of item is shown where it is kept
    def shown(q):
        r, m = undo_store(q)

        def strip(v):
            while v.op == "ref":
                v = q.ctx.deref(v)
            return v
        for k in E.KINDS:
            repo = KIND[k][2]
            want = accessed(q, m, repo)
            q.eq("the store shows the project's " + k, strip(q.call(impl_fn(q.W, PRJ, "", repo), r)), want)
    env.forall("what is shown", shown, PRJ + "::note_repo")
