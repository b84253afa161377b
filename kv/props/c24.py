"""C24 the undo history is a bounded list with a cursor.

For an arbitrary history state (any length, any cursor within it, any capacity) each
operation's result and the state it leaves - observed through the public accessors and,
element by element, through iter - are compared with the list-with-cursor model."""
from .. import inv
from .util import *

U = "crate::undo::UndoStore"


def build(env):
    inv.install(env.W)

    def state(q):
        """an arbitrary reachable state: cursor <= length <= capacity"""
        u = q.sym("u", ty(q, U))
        n = q.call(U + "::len", q.ctx.ref_to(u))
        cap, idx = q.fld(u, "capacity"), q.fld(u, "index")
        q.assume(band(le(n, cap), le(idx, n)))
        return u, n, cap, idx, q.fld(u, "is_freezed")

    def seq(q, r):
        """the recorded entries, newest first"""
        it = q.call(U + "::iter", r)
        if it.op == "iter" and it.a[0] == "seq":
            return w.mksub(it.a[1], it.a[2], it.a[3])
        raise I.Undecided("iterator over the entries: %s" % t.show(it)[:80])

    def observe(q, r, n, idx, at, tag):
        q.eq(tag + ": length", q.call(U + "::len", r), n)
        q.eq(tag + ": can undo", q.call(U + "::can_undo", r), lt(idx, n))
        q.eq(tag + ": can redo", q.call(U + "::can_redo", r), lt(C(0), idx))
        s = seq(q, r)
        q.eq(tag + ": entries", w.seqlen(s), n)
        j = q.sym("j", q.W.tyid["usize"])
        if q.branch(lt(j, n)):
            q.eq(tag + ": entry j", deref(q, w.mkat(s, j)), at(j))

    def deref(q, v):
        while v.op == "ref" or (v.ty is not None and v.op != "poly" and q.W.is_ref(v.ty)):
            v = q.ctx.deref(v)
        return v

    def fresh(q):
        (cap,), _ = q.args(U + "::new")
        r = q.ctx.ref_to(q.call(U + "::new", cap))
        observe(q, r, C(0), C(0), None, "new")
        q.eq("new: capacity", q.fld(q.call(U + "::new", cap), "capacity"), cap)
    env.forall("new", fresh, U + "::new")

    def default(q):
        r = q.ctx.ref_to(q.call(impl_fn(q.W, "core::default::Default", "undo::UndoStore", "default")))
        observe(q, r, C(0), C(0), None, "default")
        x = q.sym("x", ty(q, "crate::undo::Undo"))
        q.call(U + "::add", r, x)
        observe(q, r, C(1), C(0), lambda j: x, "default, one added")
    env.forall("default", default, U)

    def add(q):
        u, n, cap, idx, fz = state(q)
        s0 = seq(q, q.ctx.ref_to(u))
        r = q.ctx.ref_to(u)
        x = q.sym("x", ty(q, "crate::undo::Undo"))
        frozen = q.branch(fz)
        q.call(U + "::add", r, x)
        if frozen or q.branch(ieq(cap, C(0))):
            return observe(q, r, n, idx, lambda j: deref(q, w.mkat(s0, j)), "ignored")
        keep = psub(n, idx)
        m = t.imin(cap, padd(keep, C(1)))

        def at(j):
            if q.branch(ieq(j, C(0))):
                return x
            return deref(q, w.mkat(s0, padd(idx, psub(j, C(1)))))
        observe(q, r, m, C(0), at, "added")
        q.holds("within capacity", le(m, cap))
    env.forall("add", add, U + "::add")

    def undo(q):
        u, n, cap, idx, fz = state(q)
        s0 = seq(q, q.ctx.ref_to(u))
        r = q.ctx.ref_to(u)
        e = q.call(U + "::undo", r)
        at = lambda j: deref(q, w.mkat(s0, j))
        if q.variant(e) == "Some":
            q.holds("something to undo", lt(idx, n))
            q.eq("the entry at the cursor", deref(q, q.payload(e)), at(idx))
            observe(q, r, n, padd(idx, C(1)), at, "undone")
        else:
            q.holds("nothing to undo", le(n, idx))
            observe(q, r, n, idx, at, "nothing undone")
    env.forall("undo", undo, U + "::undo")

    def redo(q):
        u, n, cap, idx, fz = state(q)
        s0 = seq(q, q.ctx.ref_to(u))
        r = q.ctx.ref_to(u)
        e = q.call(U + "::redo", r)
        at = lambda j: deref(q, w.mkat(s0, j))
        if q.variant(e) == "Some":
            q.holds("something to redo", lt(C(0), idx))
            q.eq("the entry before the cursor", deref(q, q.payload(e)), at(psub(idx, C(1))))
            observe(q, r, n, psub(idx, C(1)), at, "redone")
        else:
            q.holds("nothing to redo", ieq(idx, C(0)))
            observe(q, r, n, idx, at, "nothing redone")
    env.forall("redo", redo, U + "::redo")

    def freeze(q):
        u, n, cap, idx, fz = state(q)
        s0 = seq(q, q.ctx.ref_to(u))
        r = q.ctx.ref_to(u)
        b = q.sym("b", q.W.tyid["bool"])
        q.call(U + "::freeze", r, b)
        observe(q, r, n, idx, lambda j: deref(q, w.mkat(s0, j)), "frozen")
        v = q.branch(b)
        q.call(U + "::add", r, q.sym("x", ty(q, "crate::undo::Undo")))
        if v:
            observe(q, r, n, idx, lambda j: deref(q, w.mkat(s0, j)), "add while frozen")
        elif q.branch(lt(C(0), cap)):
            q.holds("added after thawing", band(lt(C(0), q.call(U + "::len", r)), bnot(q.call(U + "::can_redo", r))))
    env.forall("freeze", freeze, U + "::freeze")
