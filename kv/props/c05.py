"""C05 after an edit that adds music, bars reach its end.

For every such edit: bars already there stay; bars appended continue from the last bar
(or tick 0) at the length of the time signature in force there, set nothing, are as
many as needed to reach the end of every note and event, and no more.  If the music
already ends at or before the last bar none is added."""
from .. import inv
from . import edits as E
from .util import *


def build(env):
    inv.install(env.W)

    def blen(q):
        rh = q.sym("rhythm", ty(q, "crate::rhythm::Rhythm"))
        q.holds("a bar is longer than nothing", le(C(1), q.call(E.RLEN, rh)))
    env.forall("every time signature has a positive bar length", blen, E.RLEN)

    def longest(q):
        n = q.sym("note", ty(q, NOTE))
        cases(q, raw(q, q.fld(q.fld(n, "duration"), "dots")), 0, 7)
        q.holds("longest note", le(q.call(E.NLEN, q.ctx.ref_to(n)), C(E.LONGEST)))
    env.forall("no note is longer than assumed", longest, E.NLEN, panics="allow")
    for name, anchor, make, rep in E.scenarios(env.tier):
        if not rep:
            continue

        def f(q, make=make):
            r = make(q)
            if r.noop:
                return
            got = E.content(q, r.after)
            n = len(r.want["bars"])
            extra = got["bars"][n:]
            rh = accessed(q, r.p, "rhythm")
            last = C(0)
            for e in r.want["bars"]:
                b = E.val(q, w.mkfld(e, 0, 1))
                last = q.fld(b, "start_tick")
                if q.variant(q.fld(b, "rhythm")) == "Some":
                    rh = q.payload(q.fld(b, "rhythm"))
            L = q.call(E.RLEN, rh)
            ends = [E.end(q, k, E.val(q, w.mkfld(e, 0, 1))) for k in E.KINDS if k != "bars" for e in r.want[k]]
            for i, e in enumerate(extra):
                q.holds("bar %d is needed" % i, lt(last, t.imax(*ends)))
                last = padd(last, L)
                b = E.val(q, w.mkfld(e, 0, 1))
                q.eq("tick of bar %d" % i, q.fld(b, "start_tick"), last)
                for a in ("rhythm", "key"):
                    q.holds("%s of bar %d" % (a, i), is_(q, q.fld(b, a), "None"))
                q.eq("repeats of bar %d" % i, q.fld(b, "repeats"), q.const("crate::bar::RepeatSet::EMPTY"))
            for x in ends:
                q.holds("bars reach the end", le(x, last))
        env.forall(name, f, anchor, setup=E.setup())
