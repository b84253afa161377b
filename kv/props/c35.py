"""C35 interning hands out one instance per value.

FlyWeight::intern is analysed on up to five (seven in the thorough tier) arbitrary instances
of an arbitrary type, one after another: what comes back is the very instance that was
handed in first among the equal ones."""
from .. import inv, models
from .util import *

F = "crate::fly_weight::FlyWeight::<'a, T>"


def build(env):
    inv.install(env.W)

    def run(n):
        def f(q):
            ref = q.W.fns[q.prog.fid(F + "::intern")]["body"]["locals"][2]
            pool = q.ctx.ref_to(q.call(F + "::new"))
            kept = []
            for i in range(n):
                x = q.ctx.whnf(w.sym("x%d" % i, ref))
                r = q.ctx.whnf(q.call(F + "::intern", pool, x))
                for y in kept:
                    if q.branch(models.mkeq(q.ctx.deref(y), q.ctx.deref(x))):
                        break
                else:
                    kept.append(x)
                    y = x
                if r.op != "ref" or t.show(r).startswith("&ocell(?"):
                    raise I.Undecided("what instance %s is" % t.show(r))
                if (r.a[0], r.a[1]) != (y.a[0], y.a[1]):
                    q.fail("instance", "for instance %d, %s comes back instead of %s" % (i + 1, t.show(r), t.show(y)))
        env.forall("intern|%d" % n, f, F + "::intern")
    for n in range(1, 6 if env.tier == "quick" else 8):
        run(n)
