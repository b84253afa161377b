"""C29 length of a note value and percentage scaling are exact.

Duration::tick_length is analysed for each of the 8 note values and 8 dot counts
with the tuplet denominator symbolic (2..=255) and compared with the closed form
floor(2*(2*base - floor(base/2^dots)) / denominator), base = 960/2^value;
PercentU16/RateTrimmer application with floor(length * rate / 1000)."""
from .. import inv
from .util import *

DUR = "crate::duration::Duration"


def mkdur(q, n, den, dots):
    return q.call(DUR + "::new", unit(q, ty(q, "crate::duration::Numerator"), n), den, dots)


NUM = ["Whole", "Half", "Quarter", "N8th", "N16th", "N32nd", "N64th", "N128th"]


def build(env):
    inv.install(env.W)
    for i, n in enumerate(NUM):
        def f(q, i=i, n=n):
            for d in range(8):
                den = q.sym("den%d" % d, ty(q, "crate::duration::Denominator"))
                dots = ok(q, q.call("crate::duration::Dots::from_value", C(d)))
                r = q.call(DUR + "::tick_length", mkdur(q, n, den, dots))
                base = 960 >> i
                q.eq("%d dots" % d, r, t.fdiv(C(2 * (2 * base - (base >> d))), q.call("crate::duration::Denominator::value", den)))
        env.forall("tick_length %s" % n, f, DUR + "::tick_length")

    def pct(q):
        p = q.sym("p", ty(q, "crate::percent::PercentU16"))
        v = q.sym("v", q.W.tyid["u32"])
        q.assume(le(v, C((1 << 31) - 1)))
        r = q.call("<crate::percent::PercentU16 as crate::can_apply::CanApply<u32>>::apply", p, v)
        q.eq("apply", r, t.fdiv(t.pmul(raw(q, p), v), C(1000)))
    env.forall("percent", pct, "<crate::percent::PercentU16 as crate::can_apply::CanApply<u32>>::apply")

    def rate(q):
        p = q.sym("p", ty(q, "crate::trimmer::RateTrimmer"))
        v = q.sym("v", q.W.tyid["u32"])
        q.assume(le(v, C((1 << 31) - 1)))
        r = q.call("<crate::trimmer::RateTrimmer as crate::can_apply::CanApply<u32>>::apply", p, v)
        q.eq("apply", r, t.fdiv(t.pmul(raw(q, q.call("crate::trimmer::RateTrimmer::sum", q.ctx.ref_to(p))), v), C(1000)))
    env.forall("rate", rate, "<crate::trimmer::RateTrimmer as crate::can_apply::CanApply<u32>>::apply")

    def measure(q):
        R = "crate::rhythm::Rhythm"
        (n, d), _ = q.args(R + "::value_of")
        r = q.call(R + "::value_of", n, d)
        if q.variant(r) == "Ok":
            for i in range(1, 7):
                if q.branch(ieq(d, C(1 << i))):
                    q.eq("measure of 1/%d" % (1 << i), q.call(R + "::tick_len", q.payload(r)), t.pmul(n, C(960 >> i)))
    env.forall("measure", measure, "crate::rhythm::Rhythm::tick_len")

    def builders(q):
        d = q.sym("d", ty(q, DUR))
        for m, f in (("with_numerator", "numerator"), ("with_denominator", "denominator"), ("with_dots", "dots")):
            (_, x), _d = q.args(DUR + "::" + m)
            same_but(q, m, q.call(DUR + "::" + m, d, x), d, **{f: x})
        d2 = q.sym("e", ty(q, DUR))
        m = q.call(DUR + "::min", d, d2)
        a, b = q.call(DUR + "::tick_length", d), q.call(DUR + "::tick_length", d2)
        if q.truth(lt(a, b)):
            q.eq("min is the shorter", m, d)
        elif q.truth(lt(b, a)):
            q.eq("min is the shorter", m, d2)
    env.forall("builders", builders, DUR)
