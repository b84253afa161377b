"""C09 the time signature and key in force at a tick are those of the nearest bar at or
before it that sets one, else the project's.

Decided for every project with up to a bound of bars (arbitrary ticks in ascending
order, arbitrary settings) and an arbitrary tick by comparison with a scan over the
bars; for any number of bars the answer is compared with the closed form of a search
backwards from the last bar not after the tick."""
from .. import inv, models, loops
from .util import *

P = "crate::project::ProjectImpl"
BAR = "crate::bar::Bar"


def build(env):
    inv.install(env.W)
    for what, at in (("rhythm", "rhythm_at"), ("key", "key_at")):
        def bounded(k, what=what, at=at):
            def f(q):
                bars = entries(q, k, BAR)
                p = project(q, bar_repo=bars)
                tick = q.sym("tick", q.W.tyid["u32"])
                v = q.call(P + "::" + at, q.ctx.ref_to(p), tick)
                for b in reversed(bars):
                    if q.branch(le(q.fld(b, "start_tick"), tick)):
                        x = q.fld(b, what)
                        if q.variant(x) == "Some":
                            return q.eq("set by a bar", v, q.payload(x))
                q.eq("the project's own", v, q.call(P + "::" + what, q.ctx.ref_to(p)))
            env.forall("%s, %d bars" % (what, k), f, P + "::" + at)
        for k in range(4 if env.tier == "quick" else 6):
            bounded(k)

        def general(q, what=what, at=at):
            p = q.sym("p", ty(q, P))
            tick = q.sym("tick", q.W.tyid["u32"])
            s = accessed(q, p, "bar_repo")
            v = q.call(P + "::" + at, q.ctx.ref_to(p), tick)
            n, u = w.seqlen(s), models.st_upper(s, tick)
            q.assume(band(le(C(0), u), le(u, n)))
            if q.branch(models.st_has(s, tick)):
                q.assume(le(C(1), u))
            own = q.call(P + "::" + what, q.ctx.ref_to(p))
            if q.branch(le(u, C(0))):
                return shape_eq(q, "no bar yet", v, own)
            J = q.sym("j", q.W.tyid["usize"])
            e = lambda i: q.fld(w.mkfld(w.mkat(s, i, models.store_elem(I.value_type(s))), 0, 1), what)
            some = [x["n"] for x in q.W.variants(q.W.peel(I.value_type(e(C(0)))))].index("Some")
            cond = t.close(w.isvar(e(psub(psub(u, C(1)), J)), some), t.single_atom(J))
            if q.branch(loops.exists(u, cond)):
                i = psub(psub(u, C(1)), loops.firstidx(u, cond))
                shape_eq(q, "nearest bar", v, w.mkfld(e(i), some, 0))
            else:
                shape_eq(q, "no bar sets it", v, own)
        env.forall("%s, any number of bars" % what, general, P + "::" + at)
    delegates(env, "rhythm_at", "key_at", "rhythm", "key", "grid")
