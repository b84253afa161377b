"""C08 the tempo and pedal value in force at a tick is that of the last event at or before it.

For a project with any number of events up to a bound (arbitrary ticks in ascending
order, arbitrary values) and an arbitrary tick, tempo_at / dumper_at / soft_at are
compared with a scan from the end: the last event not after the tick, else the
default (tempo 120, pedal 0).  For a project of any size the binary-search form is
compared with "the entry before the first key greater than the tick"."""
from .. import inv, models
from .util import *

P = "crate::project::ProjectImpl"
KINDS = (("tempo", "tempo_at", "tempo_repo", "crate::tempo::Tempo", "value", 120), ("dumper", "dumper_at", "dumper_repo", "crate::ctrl_chg::CtrlChg", "velocity", 0),
         ("soft", "soft_at", "soft_repo", "crate::ctrl_chg::CtrlChg", "velocity", 0))


def build(env):
    inv.install(env.W)
    for kind, at, repo, path, fld, dflt in KINDS:
        def bounded(k, kind=kind, at=at, repo=repo, path=path, fld=fld, dflt=dflt):
            def f(q):
                items = entries(q, k, path)
                p = project(q, **{repo: items})
                tick = q.sym("tick", q.W.tyid["u32"])
                v = raw(q, q.call(P + "::" + at, q.ctx.ref_to(p), tick))
                want = C(dflt)
                for x in items:
                    want = ite(le(q.fld(x, "start_tick"), tick), raw(q, q.fld(x, fld)), want)
                q.eq("value in force", v, want)
            env.forall("%s, %d events" % (kind, k), f, P + "::" + at)
        for k in range(4 if env.tier == "quick" else 6):
            bounded(k)

        def general(q, kind=kind, at=at, repo=repo, path=path, fld=fld, dflt=dflt):
            p = q.sym("p", ty(q, P))
            tick = q.sym("tick", q.W.tyid["u32"])
            s = accessed(q, p, repo)
            v = raw(q, q.call(P + "::" + at, q.ctx.ref_to(p), tick))
            n = w.seqlen(s)
            u = models.st_upper(s, tick)
            q.assume(band(le(C(0), u), le(u, n)))
            e = w.mkfld(w.mkat(s, psub(u, C(1)), models.store_elem(I.value_type(s))), 0, 1)
            if q.branch(models.st_has(s, tick)):
                q.assume(le(C(1), u))
            shape_eq(q, "value in force", v, ite(le(u, C(0)), C(dflt), raw(q, q.fld(e, fld))))
        env.forall("%s, any number of events" % kind, general, P + "::" + at)
    delegates(env, "tempo_at", "dumper_at", "soft_at")
