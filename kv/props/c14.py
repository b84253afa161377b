"""C14 trimmers: the total always equals the sum (product) of the four values, and
adding to a trimmer changes the total by exactly that amount until it saturates.

Every place of the crate that builds a Trimmer / RateTrimmer is enumerated from
the MIR and each externally callable function reaching it analysed on arbitrary
arguments (deserialisation included): the cached total must be the sum of the
values / the rounded product of the rates.  Accessors, array and vector
conversions, equality, updated() and added() are compared with the values the
trimmer was made of."""
from .. import interp as I, inv, models, sites
from .util import *

TR = "crate::trimmer::Trimmer"
RT = "crate::trimmer::RateTrimmer"


def tvalues(q, v, p):
    return [q.call(p + "::value", q.ctx.ref_to(v), C(i)) for i in range(4)]


def trimmer(q, name="t"):
    """an arbitrary trimmer and its values"""
    fid = q.prog.fid(TR + "::from_array")
    a = q.sym(name, q.W.fns[fid]["body"]["locals"][1])
    return q.call(TR + "::from_array", a), [w.mkat(a, C(i)) for i in range(4)], a


def rates(q, name="r"):
    fid = q.prog.fid(RT + "::from_array")
    a = q.sym(name, q.W.fns[fid]["body"]["locals"][1])
    return q.call(RT + "::from_array", a), [w.mkat(a, C(i)) for i in range(4)], a


def total(vs):
    r = C(0)
    for v in vs:
        r = padd(r, v)
    return r


PC = "crate::percent::PercentU16"


def build(env):
    W = env.W
    inv.install(W)

    def seq(q, s):
        return [w.mkat(q.ctx.whnf(s), C(i)) for i in range(4)]

    def tcond(q, vs):
        old, models.AGGHOOK[0] = models.AGGHOOK[0], None
        try:
            p = w.mkadt(ty(W, TR), 0, *vs)
            return [("total differs from the sum of the values", ieq(q.call(TR + "::sum", q.ctx.ref_to(p)), total(tvalues(q, p, TR))))]
        finally:
            models.AGGHOOK[0] = old
    sites.invariant_obligations(env, TR, tcond, "sum")

    def product(q, vs):
        fs = [q.call(PC + "::to_f32", v) for v in vs]
        fl = q.W.tyid["f32"]
        x = fs[0]
        for y in fs[1:]:
            x = t.fapp("fMul", x, y, fl)
        return q.call("<crate::percent::PercentU16 as core::convert::From<f32>>::from", x)

    def rcond(q, vs):
        old, models.AGGHOOK[0] = models.AGGHOOK[0], None
        try:
            p = w.mkadt(ty(W, RT), 0, *vs)
            return [("total differs from the product of the rates", ieq(raw(q, q.call(RT + "::sum", q.ctx.ref_to(p))), raw(q, product(q, tvalues(q, p, RT)))))]
        finally:
            models.AGGHOOK[0] = old
    sites.invariant_obligations(env, RT, rcond, "product")

    def access(q):
        for P, mk_ in ((TR, trimmer), (RT, rates)):
            x, vs, a = mk_(q, "x" + P[-8:])
            r = q.ctx.ref_to(x)
            for i, v in enumerate(tvalues(q, x, P)):
                q.eq("value(%d)" % i, v, vs[i])
            for m in ("values", "to_vec") + (("to_array",) if P == TR else ()):
                s = q.call(P + "::" + m, r)
                while s.op == "ref":
                    s = q.ctx.deref(s)
                s = q.ctx.whnf(s)
                q.eq(m + " length", w.seqlen(s), C(4))
                for i, v in enumerate(seq(q, s)):
                    q.eq("%s[%d]" % (m, i), v, vs[i])
            y = q.call(P + "::from_vec", q.ctx.ref_to(q.call(P + "::to_vec", r)))
            for i, v in enumerate(tvalues(q, y, P)):
                q.eq("from_vec(%d)" % i, v, vs[i])
        vs = [q.sym("n%d" % i, q.W.tyid["i16"]) for i in range(4)]
        for i, v in enumerate(tvalues(q, q.call(TR + "::new", *vs), TR)):
            q.eq("new(%d)" % i, v, vs[i])
    env.forall("accessors", access, TR)

    def equal(q):
        x, vs, _ = trimmer(q, "x")
        y, us, _ = trimmer(q, "y")
        r = q.call("<%s as core::cmp::PartialEq>::eq" % TR, q.ctx.ref_to(x), q.ctx.ref_to(y))
        c = band(*[ieq(a, b) for a, b in zip(vs, us)])
        q.eq("equal exactly when all values are", r, c)
    env.forall("equality", equal, TR)

    def added(q):
        x, vs, _ = trimmer(q, "x")
        d = q.sym("tick", q.W.tyid["i32"])
        s = q.call(TR + "::sum", q.ctx.ref_to(x))
        y = q.call(TR + "::added", x, d)
        s2 = q.call(TR + "::sum", q.ctx.ref_to(y))
        want = padd(total(vs), d)
        if q.branch(lt(d, C(0))):
            q.eq("total decreases by the amount, down to the minimum", s2, t.imax(want, C(-131072)))
        else:
            q.eq("total increases by the amount, up to the maximum", s2, t.imin(want, C(131068)))
    env.forall("added", added, TR + "::added")

    def updated(q):
        x, vs, _ = trimmer(q, "x")
        fid = q.prog.fid(TR + "::from_array")
        new = q.sym("new", q.W.fns[fid]["body"]["locals"][1])
        seen = []

        def edit(ctx, ref):
            seen.append([w.mkat(ctx.whnf(ctx.deref(ref)), C(i)) for i in range(4)])
            ctx.write(ref, new)
            return w.mkadt(q.W.tyid["()"], 0) if "()" in q.W.tyid else C(0)
        I.PYFN.append(edit)
        y = q.call(TR + "::updated", x, w.mk("pyfn", len(I.PYFN) - 1))
        if len(seen) != 1:
            q.fail("the edit is applied once", "applied %d times" % len(seen))
            return
        for i in range(4):
            q.eq("the edit sees value %d" % i, seen[0][i], vs[i])
        for i, v in enumerate(tvalues(q, y, TR)):
            q.eq("value %d after the edit" % i, v, w.mkat(new, C(i)))
        q.eq("the total follows", q.call(TR + "::sum", q.ctx.ref_to(y)), total([w.mkat(new, C(i)) for i in range(4)]))
    env.forall("updated", updated, TR + "::updated")
