"""C19 a bar accepts a repeat mark exactly when it conflicts with none it has.

For an arbitrary set of marks and each of the eleven marks the result of try_add is
compared with an independent, symmetric conflict table (so what a bar accepts does
not depend on the order of adding); membership, removal, the variation number and
the size are decided the same way."""
from .. import inv
from .util import *

RS, RP = "crate::bar::RepeatSet", "crate::bar::Repeat"
VARS = ["Var1", "Var2", "Var3", "Var4"]
PAIRS = [("Start", x) for x in ["Dc", "Ds"] + VARS] + [("End", x) for x in VARS] + [("Dc", x) for x in ["Ds", "Segno"] + VARS] \
    + [("Ds", x) for x in VARS] + [("Segno", x) for x in VARS] + [(a, b) for a in VARS for b in VARS if a < b]
CONF = {frozenset(p) for p in PAIRS}
MARKS = ["Start", "End", "Dc", "Fine", "Ds", "Segno", "Coda"] + VARS


def build(env):
    inv.install(env.W)

    def has(q, s, m):
        return q.call(RS + "::contains", s, unit(q, ty(q, RP), m))

    def aset(q):
        return q.sym("s", ty(q, RS))

    def empty(q):
        for n, s in (("EMPTY", q.const(RS + "::EMPTY")), ("default", q.call("<%s as core::default::Default>::default" % RS))):
            for m in MARKS:
                q.eq("%s has no %s" % (n, m), has(q, s, m), t.FALSE)
            q.eq("size of " + n, q.call(RS + "::len", s), C(0))
    env.forall("empty", empty, RS)

    for m in MARKS:
        def add(q, m=m):
            s = aset(q)
            if set(names(q, ty(q, RP))) != set(MARKS):
                q.fail("marks", "marks %s" % names(q, ty(q, RP)))
            before = {x: has(q, s, x) for x in MARKS}
            foes = [x for x in MARKS if frozenset((m, x)) in CONF]
            r = q.call(RS + "::try_add", s, unit(q, ty(q, RP), m))
            clash = bor(*[before[x] for x in foes]) if foes else t.FALSE
            if q.variant(r) == "Ok":
                q.holds("accepted only without conflict", bnot(clash))
                n = q.payload(r)
                for x in MARKS:
                    q.eq("%s after adding" % x, has(q, n, x), t.TRUE if x == m else before[x])
            else:
                q.holds("refused only with a conflict", clash)
                e = w.W and q.payload(r)
                bits = models_ebits(q, e)
                vs = names(q, ty(q, RP))
                for x in MARKS:
                    q.eq("conflict reported: " + x, bits[vs.index(x)], before[x] if x in foes else t.FALSE)
        env.forall("try_add|" + m, add, RS + "::try_add")

        def rem(q, m=m):
            s = aset(q)
            n = q.call(RS + "::remove", s, unit(q, ty(q, RP), m))
            for x in MARKS:
                q.eq("%s after removing %s" % (x, m), has(q, n, x), t.FALSE if x == m else has(q, s, x))
        env.forall("remove|" + m, rem, RS + "::remove")

    def region(q):
        s = aset(q)
        n = q.call(RS + "::remove_resions", s)
        for x in MARKS:
            q.eq("%s after removing variations" % x, has(q, n, x), t.FALSE if x in VARS else has(q, s, x))
        # a set built by adding marks has at most one variation
        for i, a in enumerate(VARS):
            for b in VARS[i + 1:]:
                q.assume(bnot(band(has(q, s, a), has(q, s, b))))
        r = q.call(RS + "::region_index", s)
        if q.variant(r) == "Some":
            for i, x in enumerate(VARS):
                q.eq("variation number %d" % (i + 1), has(q, s, x), ieq(q.call("crate::bar::VarIndex::value", q.payload(r)), C(i + 1)))
        else:
            for x in VARS:
                q.eq("no variation", has(q, s, x), t.FALSE)
    env.forall("variation", region, RS + "::region_index")

    def size(q):
        s = aset(q)
        k = C(0)
        for x in MARKS:
            k = padd(k, ite(has(q, s, x), C(1), C(0)))
        q.eq("size", q.call(RS + "::len", s), k)
    env.forall("size", size, RS + "::len")


def models_ebits(q, e):
    from .. import models
    while e.op == "ref":
        e = q.ctx.deref(e)
    return models.ebits(q.ctx.whnf(e))
