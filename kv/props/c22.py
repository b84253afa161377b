"""C22 rendered sections are laid end to end in playing time.

For any list of up to five sections (seven in the thorough tier) with arbitrary bounds:
joining adjoining sections plays the same ticks in the same order and never leaves two
adjoining ones; and each section starts at the summed length of those before it."""
from .. import inv
from .repeats import *


def build(env):
    inv.install(env.W)

    def chunks(q, n, strict=True):
        out, tot = [], C(0)
        for i in range(n):
            a, b = q.sym("s%d" % i, q.W.tyid["u32"]), q.sym("e%d" % i, q.W.tyid["u32"])
            q.assume(lt(a, b) if strict else le(a, b))
            out.append((a, b))
        return out, q.ctx.ref_to(w.mkseq([w.mk("it", q.call(CH + "::new", a, b)) for a, b in out]))

    def join(n, strict):
        def f(q):
            cs, v = chunks(q, n, strict)
            got = chunk_list(q, q.call(CH + "::optimize", v))
            for x, y in zip(got, got[1:]):
                q.holds("adjoining sections are joined", bnot(ieq(x[1], y[0])))
            same_play(q, "order", got, cs)
        env.forall("join|%d%s" % (n, "" if strict else "|some empty"), f, CH + "::optimize", setup=setup())

    def lay(n):
        def f(q):
            cs, v = chunks(q, n)
            at, want = C(0), []
            for i, (a, b) in enumerate(cs):
                if i < n - 1:
                    q.assume(lt(b, C(U32)))
                    want.append(at)
                    at = padd(at, psub(b, a))
                    for x in want:
                        q.assume(lt(x, at))          # follows from the sections not being empty
                    q.assume(band(le(C(0), at), le(at, C(U32))))         # both follow from the bound on the whole length below
                else:
                    want.append(at)
                    q.assume(band(le(C(0), padd(at, psub(b, a))), le(padd(at, psub(b, a)), C(U32))))
            s = q.call(CH + "::by_accum_tick", v)
            while s.op == "ref":
                s = q.ctx.deref(s)
            es = models.lit(q.ctx.whnf(s))
            if es is None:
                raise I.Undecided("entries of the layout")
            if len(es) != n:
                q.fail("entries", "%d entries for %d sections" % (len(es), n))
            for i, e in enumerate(es):
                k, c = w.mkfld(e, 0, 0), w.mkfld(e, 0, 1)
                q.eq("accumulated tick of section %d" % (i + 1), k, want[i])
                q.eq("start of section %d" % (i + 1), q.call(CH + "::start_tick", c), cs[i][0])
                q.eq("end of section %d" % (i + 1), q.call(CH + "::end_tick", c), cs[i][1])
        env.forall("lay out|%d" % n, f, CH + "::by_accum_tick", setup=setup())
    for n in range(6 if env.tier == "quick" else 8):
        join(n, True)
        if n < 5:
            join(n, False)
        lay(n)

    def one(q):
        cs, v = chunks(q, 1)
        c = w.mkat(q.ctx.deref(v), C(0))
        x = q.sym("x", q.W.tyid["u32"])
        q.eq("length", q.call(CH + "::len", c), psub(cs[0][1], cs[0][0]))
        q.eq("contains", q.call(CH + "::contains", c, x), band(le(cs[0][0], x), lt(x, cs[0][1])))
    env.forall("one section", one, CH)
