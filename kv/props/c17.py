"""C17 moving a set of items to a tick shifts them all by the same amount.

For every set with up to a bound of items of each kind (arbitrary ticks and attributes)
and an arbitrary target: the earliest item (by base tick) lands on the target, every
item keeps its distance from it, and nothing else about any item changes."""
from itertools import combinations
from .. import inv
from .util import *


def build(env):
    inv.install(env.W)

    def move(counts):
        def f(q):
            its = items_of(q, counts)
            m = models_of(q, its)
            target = q.sym("tick", q.W.tyid["u32"])
            low = C(U32)
            for k, xs in its.items():
                for x in xs:
                    low = t.imin(low, q.fld(x, KIND[k][1]))
            for k, xs in its.items():
                for x in xs:
                    q.assume(le(padd(q.fld(x, KIND[k][1]), psub(target, low)), C(U32)))
            r = q.call(MODELS + "::move_to_tick", m, target)
            for k in KIND:
                xs = its.get(k, [])
                s = q.ctx.whnf(q.fld(r, k))
                q.eq("number of " + k, w.seqlen(s), C(len(xs)))
                for i, x in enumerate(xs):
                    same_but(q, "%s %d" % (k, i), w.mkat(s, C(i)), x, **{KIND[k][1]: padd(q.fld(x, KIND[k][1]), psub(target, low))})
        env.forall("+".join("%d %s" % (n, k) for k, n in counts.items()) or "nothing", f, MODELS + "::move_to_tick")
    ks = list(KIND)
    move({})
    for k in ks:
        move({k: 1})
        move({k: 3 if env.tier == "quick" else 5})
    for a, b in combinations(ks, 2):
        move({a: 2, b: 2} if env.tier == "thorough" else {a: 1, b: 2})
    move({k: 1 for k in ks})
