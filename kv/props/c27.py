"""C27 a playing start position in the n-th pass maps to the n-th time it is played.

to_accum_tick: for every list of up to five chunks (six in the thorough tier) (arbitrary bounds and accumulated
ticks, arbitrary position and pass) the answer is the accumulated tick of the position
within the n-th chunk containing it, else an error carrying how often it is played.
For lists of any length the loop's closed form (first index with the n-1 earlier
containing chunks counted) is compared with the specification's."""
from .. import inv, loops
from .util import *

P = "crate::play_start_tick::PlayStartTick"
CH = "crate::repeat::Chunk"
IT = "crate::play_iter::PlayIter"
U32MAX = (1 << 32) - 1


def build(env):
    inv.install(env.W)

    def setup(q):
        f = P + "::to_accum_tick"
        (r, cs), _ = q.args(f)
        s = r
        while s.op == "ref":
            s = q.ctx.deref(s)
        return f, r, cs, q.fld(s, "tick"), q.call(IT + "::iter", q.fld(s, "iter"))

    def inside(q, c, tick):
        return band(le(q.call(CH + "::start_tick", c), tick), lt(tick, q.call(CH + "::end_tick", c)))

    def n_chunks(k):
        def f(q):
            fn, r, cs, tick, it = setup(q)
            items = []
            for i in range(k):
                c, a = q.sym("c%d" % i, ty(q, CH)), q.sym("a%d" % i, q.W.tyid["u32"])
                # the section's end is representable in playing time
                q.assume(le(padd(a, psub(q.call(CH + "::end_tick", c), q.call(CH + "::start_tick", c))), C(U32MAX)))
                items.append((a, c))
            seq = w.mkseq([w.mk("it", w.mktup(a, c)) for a, c in items])
            x = q.call(fn, r, q.ctx.ref_to(seq))
            seen = 0
            for a, c in items:
                if q.branch(inside(q, c, tick)):
                    seen += 1
                    if q.branch(ieq(it, C(seen))):
                        if q.variant(x) != "Ok":
                            q.fail("refused although played %d times" % seen)
                        return q.eq("position in pass %d" % seen, q.payload(x), padd(a, psub(tick, q.call(CH + "::start_tick", c))))
            if q.variant(x) != "Err":
                q.fail("accepted although played only %d times" % seen)
            e = q.payload(x)
            q.eq("how often it is played", q.fld(e, "max_iter"), C(seen))
            q.eq("requested pass", q.call(IT + "::iter", q.fld(e, "specified_iter")), it)
        env.forall("%d chunks" % k, f, P + "::to_accum_tick", max_paths=6000)
    for k in range(6 if env.tier == "quick" else 7):
        n_chunks(k)

    def setiter(q):
        i = q.sym("p", ty(q, IT))
        v = q.sym("v", q.W.tyid["u8"])
        r = q.ctx.ref_to(i)
        old = q.call(IT + "::iter", i)
        okv = q.branch(q.call(IT + "::set_iter", r, v))
        now = q.call(IT + "::iter", q.ctx.deref(r))
        if okv:
            q.holds("accepted", band(le(C(1), v), le(v, C(5))))
            q.eq("new pass", now, v)
        else:
            q.holds("refused", bor(lt(v, C(1)), lt(C(5), v)))
            q.eq("unchanged", now, old)
    env.forall("set_iter", setiter, IT + "::set_iter")

    def new(q):
        a, b = q.sym("tick", q.W.tyid["u32"]), q.sym("iter", q.W.tyid["u8"])
        x = q.call(P + "::new", a, b)
        q.eq("tick", q.fld(x, "tick"), a)
        q.eq("pass", q.call(IT + "::iter", q.fld(x, "iter")), clamp(b, 1, 5))
        q.eq("first pass by default", q.call(IT + "::iter", q.call("<%s as core::default::Default>::default" % IT)), C(1))
    env.forall("new", new, P + "::new")

    def general(q):
        fn, r, cs, tick, it = setup(q)
        s = q.ctx.whnf(q.ctx.deref(cs))
        n = w.seqlen(s)
        x = q.call(fn, r, cs)

        def ins(k):
            c = w.mkfld(w.mkat(s, k), 0, 1)
            return band(le(w.mkfld(c, 0, 0), tick), lt(tick, w.mkfld(c, 0, 1)))
        K = q.sym("k", q.W.tyid["usize"])
        J = q.sym("j", q.W.tyid["usize"])
        one = t.close(ite(ins(K), C(1), C(0)), t.single_atom(K))
        cnt = lambda m: t.A(t.mk("sumseq", m, one))
        cond = t.close(band(ins(J), ieq(it, padd(cnt(J), C(1)))), t.single_atom(J))
        ex = loops.exists(n, cond)
        i = loops.firstidx(n, cond)
        e = w.mkat(s, i)
        if q.branch(ex):
            good = q.variant(x) == "Ok" and q.ctx.facts.equal(q.payload(x), padd(w.mkfld(e, 0, 0), psub(tick, w.mkfld(w.mkfld(e, 0, 1), 0, 0))))
        else:
            good = q.variant(x) == "Err" and q.ctx.facts.equal(q.fld(q.payload(x), "max_iter"), cnt(n))
        q.ob.stated += 1
        if not good:
            # the lists of bounded length above decide; another shape of loop is not an alarm
            raise I.Undecided("closed form differs: %s" % t.show(x)[:120])
    env.forall("any number of chunks", general, P + "::to_accum_tick", panics="allow")
