"""C34 clipping gives the nearest value within the limits.

A clipper of each number type with arbitrary limits is applied to an arbitrary number: the result
is the number itself within the limits, else the limit on its side; the ready-made
clippers of notes carry the limits of ticks and velocities."""
from .. import inv
from .util import *

K = "crate::clipper"


def build(env):
    inv.install(env.W)
    for num in ("i32", "i16", "f32"):
        def f(q, num=num):
            n = q.W.tyid[num]
            lo, hi, v = (q.sym(x, n) for x in ("min", "max", "value"))
            c = q.call("%s::for_%s" % (K, num), lo, hi)
            q.eq("lower limit kept", q.fld(c, "min"), lo)
            q.eq("upper limit kept", q.fld(c, "max"), hi)
            less = (lambda a, b: t.fapp("fLt", a, b)) if num == "f32" else lt
            q.assume(bnot(less(hi, lo)))
            q.assume(bnot(band(less(v, lo), less(hi, v))))
            r = q.call(K + "::Clipper::<T>::clip", q.ctx.ref_to(c), v)
            if q.branch(less(v, lo)):
                q.eq("below: the lower limit", r, lo)
            elif q.branch(less(hi, v)):
                q.eq("above: the upper limit", r, hi)
            else:
                q.eq("within: unchanged", r, v)
        env.forall("clip " + num, f, K + "::Clipper::<T>::clip")

    def ready(q):
        for name, lo, hi in (("TICK_CLIPPER", 0, 2147483647), ("VELOCITY_CLIPPER", 0, 127)):
            v = q.const(NOTE + "::" + name)
            q.eq(name + " lower", q.fld(v, "min"), C(lo))
            q.eq(name + " upper", q.fld(v, "max"), C(hi))
    env.forall("ready-made", ready, NOTE)
