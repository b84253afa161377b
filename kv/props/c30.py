"""C30 snapping to the grid yields the nearest grid line (ties away from zero)
and never divides by zero.

Grid::snap is analysed on an arbitrary grid (1..=u32::MAX) and tick: the result
is a multiple of the grid, at distance at most half a grid step, and on a tie it
is the line further from zero."""
from .. import inv
from .util import *

G = "crate::grid::Grid"


def build(env):
    inv.install(env.W)

    def snap(q):
        g = q.sym("g", ty(q, G))
        x = q.sym("tick", q.W.tyid["i64"])
        q.assume(band(le(C(-(1 << 62)), x), le(x, C(1 << 62))))
        i = q.call(G + "::as_u32", g)
        r = q.call(G + "::snap", g, x)
        d2 = pscale(psub(r, x), 2)
        neg = q.branch(lt(x, C(0)))
        q.holds("not more than half a step above", le(d2, i))
        q.holds("not more than half a step below", le(t.pneg(d2), i))
        q.eq("multiple of the grid", t.pmul(i, t.fdiv(r, i)), r)
        if neg:
            q.holds("tie away from zero", bnot(ieq(d2, i)))
        else:
            q.holds("tie away from zero", bnot(ieq(t.pneg(d2), i)))
    env.forall("snap", snap, G + "::snap")

    def from_u32(q):
        (x,), _ = q.args(G + "::from_u32")
        r = q.call(G + "::from_u32", x)
        if q.variant(r) == "Ok":
            q.eq("value kept", q.call(G + "::as_u32", q.payload(r)), x)
        else:
            q.eq("rejects only zero", x, C(0))
    env.forall("from_u32", from_u32, G + "::from_u32")
