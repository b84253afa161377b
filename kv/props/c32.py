"""C32 values are equal exactly when all their attributes are.

For any two values of a type: its equality answers yes when every attribute (and what is
derived from them) is the same on both sides, and only then; `!=` is the opposite; equal
values hash alike; tempo values are ordered by their number."""
from .. import inv
from .util import *

TYPES = """note::Note bar::Bar tempo::Tempo tempo::TempoValue ctrl_chg::CtrlChg trimmer::Trimmer trimmer::RateTrimmer
percent::PercentU16 key::Key rhythm::Rhythm rhythm::Numerator rhythm::Denominator grid::Grid pitch::Pitch duration::Duration
duration::Numerator duration::Denominator duration::Dots velocity::Velocity channel::Channel solfa::Solfa octave::Octave
sharp_flat::SharpFlat location::Location bar::RepeatSet bar::VarIndex models::Models project::ModelChangeMetadata
play_start_tick::PlayStartTick""".split()


# parts of a representation that the other parts determine (proved in C12 and C14)
DETERMINED = {"trimmer::Trimmer": [("sum", ["values"])], "trimmer::RateTrimmer": [("sum", ["values"])],
              "pitch::Pitch": [("score_offset", ["solfa", "octave"]), ("solfa", ["score_offset"]), ("octave", ["score_offset"]), ("value", ["solfa", "octave", "sharp_flat"])]}


def determined(q, W, p, a, b, tyid):
    names = [f["n"] for f in W.variants(tyid)[0]["fields"]]

    def same(n):
        i = names.index(n)
        return w.mkeq(q.ctx.whnf(w.mkfld(a, 0, i)), q.ctx.whnf(w.mkfld(b, 0, i)))
    for f, by in DETERMINED.get(p, ()):
        if f in names and all(n in names for n in by):
            q.assume(t.bor(t.bnot(t.band(*[same(n) for n in by])), same(f)))


def attributes(q, W, a, b, tyid):
    """the attribute-wise equality of two values"""
    vs = W.variants(tyid)
    if len(vs) > 1:
        return w.mkeq(a, b)
    out = []
    for i, f in enumerate(vs[0]["fields"]):
        x, y = q.ctx.whnf(w.mkfld(a, 0, i)), q.ctx.whnf(w.mkfld(b, 0, i))
        out.append(w.mkeq(x, y))
    return t.band(*out)


def build(env):
    W = env.W
    inv.install(W)
    s = setups(unroll=24)
    for p in TYPES:
        path = "crate::" + p
        tyid = W.tyid.get(path)
        if tyid is None:
            env.structural("type " + p, path, [("missing", "no such type")], 0)
            continue

        def same(q, p=p, path=path, tyid=tyid):
            a, b = q.sym("a", tyid), q.sym("b", tyid)
            determined(q, W, p, a, b, tyid)
            want = attributes(q, W, a, b, tyid)
            r = q.call(impl_fn(W, "core::cmp::PartialEq", path, "eq"), q.ctx.ref_to(a), q.ctx.ref_to(b))
            q.eq("equal", r, want)
        env.forall("equality of " + p, same, path, setup=s)

        ne = [f for f in W.fns if f.get("impl_trait") == "core::cmp::PartialEq" and f.get("name") == "ne" and f.get("impl_self") == path and f.get("body")]
        for f in ne:
            def differ(q, p=p, f=f, tyid=tyid):
                a, b = q.sym("a", tyid), q.sym("b", tyid)
                determined(q, W, p, a, b, tyid)
                q.eq("unequal", q.call(f["path"], q.ctx.ref_to(a), q.ctx.ref_to(b)), t.bnot(attributes(q, W, a, b, tyid)))
            env.forall("inequality of " + p, differ, path, setup=s)

        for f in [f for f in W.fns if f.get("impl_trait") == "core::hash::Hash" and f.get("name") == "hash" and f.get("impl_self") == path and f.get("body")]:
            def fed(q, p=p, path=path, f=f, tyid=tyid):
                """equal values feed a hasher the same"""
                a, b = q.sym("a", tyid), q.sym("b", tyid)
                determined(q, W, p, a, b, tyid)
                out = []
                for v in (a, b):
                    h = q.ctx.ref_to(w.mk("fed"))
                    q.call(f["path"], q.ctx.ref_to(v), h)
                    out.append(q.ctx.deref(h))
                if not q.branch(q.call(impl_fn(W, "core::cmp::PartialEq", path, "eq"), q.ctx.ref_to(a), q.ctx.ref_to(b))):
                    return
                x, y = out
                if len(x.a) != len(y.a):
                    q.fail("hash", "equal values feed %d and %d parts" % (len(x.a), len(y.a)))
                for u, v in zip(x.a, y.a):
                    q.eq("hash of equal values", u, v)
            env.forall("hash of " + p, fed, path, setup=s)

    TV = "crate::tempo::TempoValue"

    def order(q):
        a, b = q.sym("a", ty(q, TV)), q.sym("b", ty(q, TV))
        x, y = (q.call(TV + "::as_u16", v) for v in (a, b))
        c = q.call(impl_fn(W, "core::cmp::Ord", TV, "cmp"), q.ctx.ref_to(a), q.ctx.ref_to(b))
        q.eq("less", is_(q, c, "Less"), t.lt(x, y))
        q.eq("greater", is_(q, c, "Greater"), t.lt(y, x))
        p = q.call(impl_fn(W, "core::cmp::PartialOrd", TV, "partial_cmp"), q.ctx.ref_to(a), q.ctx.ref_to(b))
        if q.variant(p) != "Some":
            q.fail("order", "two tempo values do not compare")
        q.eq("same order", q.payload(p), c)
    env.forall("order of tempo values", order, TV, setup=s)
