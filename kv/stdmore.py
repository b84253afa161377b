"""Transfer functions of further parts of the standard library: slices, sources of
iterators, and small conversions that a reworked piece of code might reach for."""
from . import terms as t
from . import world as w
from .interp import Undecided
from .terms import A, C, close, psub, padd
from .models import (model, pattern, mk, mkat, mkseq, item, seqlen, mktup, refval, is_const, UNIT, TRUE, FALSE, deep, mkeq,
                     vecref, elemty, seq_iter, to_iter, collect_seq, push_seq, None_INF, strip, raw_next, iter_len, drive, where)

SL = r"^core::slice::<impl \[T\]>::"
VD = r"VecDeque::<T, A>::"


def sub(s, lo, hi):
    return w.mksub(s, lo, hi)


@pattern(SL + r"swap$|" + VD + r"swap$")
def _(c):
    r, s = vecref(c)
    i, j = c.v(1), c.v(2)
    n = seqlen(s)
    c.ctx.canpanic(c.site, "index out of bounds", t.band(t.lt(i, n), t.lt(j, n)))
    et = elemty(c, s)
    x, y = mkat(s, i, et), mkat(s, j, et)
    c.ctx.write(mk("ref", r.a[0], r.a[1] + (("i", i, et),)), y)
    c.ctx.write(mk("ref", r.a[0], r.a[1] + (("i", j, et),)), x)
    return UNIT


@pattern(SL + r"fill$")
def _(c):
    r, s = vecref(c)
    n = seqlen(s)
    x = c.a[1]
    v = mk("lv_k", "fill")
    c.ctx.write(r, mkseq([item(x)] * n.a[0]) if is_const(n) and n.a[0] <= 64 else w.mapseq(n, close(x, v), s.ty))
    return UNIT


@pattern(SL + r"(copy_from_slice|clone_from_slice)$")
def _(c):
    r, s = vecref(c)
    src = c.v(1)
    c.ctx.canpanic(c.site, "slices of different lengths", t.ieq(seqlen(s), seqlen(src)))
    c.ctx.write(r, src)
    return UNIT


@pattern(SL + r"(split_first|split_last)(_mut)?$")
def _(c):
    if c.m["path"].endswith("_mut"):
        return NotImplemented
    r, s = vecref(c)
    n = seqlen(s)
    if not c.ctx.branch(t.lt(t.ZERO, n)):
        return c.none()
    et = elemty(c, s)
    l = psub(n, t.ONE)
    if c.m["path"].endswith("first"):
        return c.some(mktup(refval(mkat(s, t.ZERO, et)), refval(sub(s, t.ONE, n))))
    return c.some(mktup(refval(mkat(s, l, et)), refval(sub(s, t.ZERO, l))))


@pattern(SL + r"split_at(_mut)?$")
def _(c):
    r, s = vecref(c)
    k, n = c.v(1), seqlen(s)
    c.ctx.canpanic(c.site, "split beyond the end", t.le(k, n))
    if c.m["path"].endswith("_mut"):
        return mktup(*[mk("ref", r.a[0], r.a[1] + (("sub", lo, hi),)) for lo, hi in ((t.ZERO, k), (k, n))])
    return mktup(refval(sub(s, t.ZERO, k)), refval(sub(s, k, n)))


@pattern(SL + r"windows$")
def _(c):
    s, k = c.v(0), c.v(1)
    n = seqlen(s)
    c.ctx.canpanic(c.site, "windows(0)", t.lt(t.ZERO, k))
    if is_const(n) and is_const(k) and n.a[0] <= 64:
        return seq_iter(mkseq([item(refval(sub(s, C(i), C(i + k.a[0])))) for i in range(n.a[0] - k.a[0] + 1)]), "val")
    if not c.ctx.branch(t.le(k, n)):
        return seq_iter(mkseq([]), "val")
    v = mk("lv_k", "win")
    return seq_iter(w.mapseq(padd(psub(n, k), t.ONE), close(refval(sub(s, A(v), padd(A(v), k))), v)), "val")


@pattern(SL + r"chunks(_exact)?$")
def _(c):
    s, k = c.v(0), c.v(1)
    n = seqlen(s)
    if not (is_const(n) and is_const(k) and n.a[0] <= 64 and k.a[0] > 0):
        return NotImplemented
    n, k = n.a[0], k.a[0]
    end = n - n % k if c.m["path"].endswith("exact") else n
    return seq_iter(mkseq([item(refval(sub(s, C(i), C(min(i + k, n))))) for i in range(0, end, k)]), "val")


@pattern(SL + r"(starts_with|ends_with)$")
def _(c):
    s, p = c.v(0), c.v(1)
    n, m = seqlen(s), seqlen(p)
    if not c.ctx.branch(t.le(m, n)):
        return FALSE
    if c.m["path"].endswith("starts_with"):
        return mkeq(sub(s, t.ZERO, m), p)
    return mkeq(sub(s, psub(n, m), n), p)


@pattern(SL + r"(rotate_left|rotate_right)$|" + VD + r"(rotate_left|rotate_right)$")
def _(c):
    r, s = vecref(c)
    k, n = c.v(1), seqlen(s)
    c.ctx.canpanic(c.site, "rotation beyond the end", t.le(k, n))
    if c.m["path"].endswith("right"):
        k = psub(n, k)
    c.ctx.write(r, mkseq([sub(s, k, n), sub(s, t.ZERO, k)]))
    return UNIT


@pattern(SL + r"partition_point$|" + VD + r"partition_point$")
def _(c):
    """how many elements from the front satisfy the predicate (the slice is
    partitioned by it, or the result is unspecified)"""
    ctx, prog = c.ctx, c.prog
    s, f = c.v(0), c.a[1]
    acc = ctx.alloc(t.ZERO)

    def cb(c2, x):
        if not c2.branch(prog.call_value(c2, f, [x])):
            return False
        c2.mem[acc] = padd(c2.mem[acc], t.ONE)
        return True
    drive(ctx, prog, seq_iter(s, "ref"), cb, "partition_point@" + where(ctx))
    return ctx.mem.pop(acc)


@pattern(r"^alloc::slice::<impl \[T\]>::concat$")
def _(c):
    s = c.v(0)
    if c.dest is None or not c.W.is_seq(c.dest):
        return NotImplemented
    n = seqlen(s)
    if is_const(n) and n.a[0] <= 64:
        return mkseq([strip(deep(c.ctx, mkat(s, C(i)))) for i in range(n.a[0])])
    return collect_seq(c.ctx, mk("iter", "cloned", mk("iter", "flatten", seq_iter(s, "ref"))))


@pattern(r"(Vec|VecDeque)::<T, A>::retain$")
def _(c):
    r, s = vecref(c)
    c.ctx.write(r, collect_seq(c.ctx, mk("iter", "filter", seq_iter(s, "val"), c.a[1])))
    return UNIT


@pattern(r"<alloc::collections::vec_deque::VecDeque<T(, A)?> as core::convert::From<(alloc::vec::Vec<T(, A)?>|\[T; N\])>>::from$"
         r"|<alloc::vec::Vec<T(, A)?> as core::convert::From<alloc::collections::vec_deque::VecDeque<T(, A)?>>>::from$")
def _(c):
    return c.v(0)


# ---------------------------------------------------------------- arrays
@model("core::array::from_fn")
def _(c):
    n = c.W.types[c.dty()].get("len")
    if not isinstance(n, int) or n > 64:
        return NotImplemented
    f = c.ctx.ref_to(c.a[0])
    return mkseq([item(c.prog.call_value(c.ctx, f, [C(i)])) for i in range(n)])


@model("core::array::<impl [T; N]>::map")
def _(c):
    n = c.W.types[c.dty()].get("len")
    if not isinstance(n, int) or n > 64:
        return NotImplemented
    s = c.v(0)
    f = c.ctx.ref_to(c.a[1])
    return mkseq([item(c.prog.call_value(c.ctx, f, [mkat(s, C(i))])) for i in range(n)])


# ---------------------------------------------------------------- sources of iterators
SRC = "core::iter::sources::"


@model(SRC + "once::once")
def _(c):
    return seq_iter(mkseq([item(c.a[0])]), "val")


@model(SRC + "empty::empty")
def _(c):
    return seq_iter(mkseq([]), "val")


@model(SRC + "repeat::repeat", SRC + "repeat_n::repeat_n")
def _(c):
    n = c.v(1) if len(c.a) > 1 else None_INF
    v = mk("lv_k", "rep")
    return mk("iter", "seq", w.mapseq(n, close(c.a[0], v)), t.ZERO, n, "val")


@model(SRC + "successors::successors")
def _(c):
    return mk("iter", "succ", c.a[0], c.ctx.ref_to(c.a[1]))


@model(SRC + "from_fn::from_fn")
def _(c):
    return mk("iter", "fromfn", c.ctx.ref_to(c.a[0]))


@model("core::option::Option::<T>::iter")
def _(c):
    return to_iter(c, c.a[0])


# ---------------------------------------------------------------- looking ahead
PURE = ("seq", "rev", "cloned", "enumerate", "zip", "chain", "take")


def pure(it):
    if it.a[0] not in PURE:
        return False
    return all(pure(x) for x in it.a[1:] if getattr(x, "op", None) == "iter")


@pattern(r"^core::iter::adapters::peekable::Peekable::<I>::(peek|next_if|next_if_eq)$")
def _(c):
    ctx = c.ctx
    r = ctx.whnf(c.a[0])
    it = ctx.whnf(ctx.deref(r))
    if it.op != "iter" or not pure(it):
        return NotImplemented
    x, rest = raw_next(ctx, c.prog, it)
    nm = c.m["path"].rsplit("::", 1)[1]
    if x is None:
        return c.none()
    if nm == "peek":
        return c.some(refval(x))
    if nm == "next_if":
        ok = c.prog.call_value(ctx, c.a[1], [refval(x)])
    else:
        ok = mkeq(deep(ctx, x), deep(ctx, c.a[1]))
    if ctx.branch(ok):
        ctx.write(r, rest)
        return c.some(x)
    return c.none()


# ---------------------------------------------------------------- small things
@pattern(r"^core::char::methods::<impl char>::is_(ascii_digit|ascii_lowercase|ascii_uppercase|ascii)$")
def _(c):
    x = c.v(0)
    if x.op != "poly":
        return NotImplemented
    lo, hi = {"digit": (48, 57), "lowercase": (97, 122), "uppercase": (65, 90)}.get(c.m["path"].rsplit("_", 1)[1], (0, 127))
    return t.band(t.le(C(lo), x), t.le(x, C(hi)))


@pattern(r"^alloc::(rcs::)?rc::Rc::<T, A>::make_mut$")
def _(c):
    # shared or not, this handle alone sees what is written through it
    return c.a[0]


@model("core::cmp::max_by_key", "core::cmp::min_by_key")
def _(c):
    from .models import key_lt
    ctx, prog = c.ctx, c.prog
    a, b, f = c.a
    f = ctx.ref_to(f)
    ka, kb = [strip(ctx.whnf(prog.call_value(ctx, f, [ctx.ref_to(x)]))) for x in (a, b)]
    bigger = key_lt(ctx, kb, ka)
    return (a if bigger else b) if c.m["path"].endswith("max_by_key") else (b if bigger else a)


# ---------------------------------------------------------------- entries of hash maps
def hash_slot(c, r, k):
    """(index of the entry with this key or None, the map)"""
    ctx = c.ctx
    s = ctx.whnf(ctx.deref(r))
    if s.op != "hset" or not is_const(seqlen(s.a[0])):
        return None
    n = seqlen(s.a[0]).a[0]
    kk = deep(ctx, k)
    for i in range(n):
        if ctx.branch(mkeq(deep(ctx, w.mkfld(mkat(s.a[0], C(i)), 0, 0)), kk)):
            return i, s
    return -1, s


HM = r"^std::collections::hash::map::HashMap::<K, V, S(, A)?>::"


@pattern(HM + r"(get_mut|entry)$")
def _(c):
    r = c.ctx.whnf(c.a[0])
    x = hash_slot(c, r, c.a[1])
    if x is None:
        return NotImplemented
    if c.m["path"].endswith("entry"):
        # Occupied(..) and Vacant(..) both carry the place that was looked up
        return w.mkadt(c.dty(), 0 if x[0] >= 0 else 1, mk("hmentry", r, C(x[0]), c.a[1]))
    if x[0] < 0:
        return c.none()
    return c.some(mk("ref", r.a[0], r.a[1] + (("hv", x[0]),)))


@pattern(HM + r"get_key_value$|^<std::collections::hash::map::HashMap<K, V, S(, A)?> as core::ops::index::Index<&Q>>::index$")
def _(c):
    ctx = c.ctx
    r = ctx.whnf(c.a[0])
    x = hash_slot(c, r, c.a[1])
    if x is None:
        return NotImplemented
    i, s = x
    if c.m["path"].endswith("index"):
        ctx.canpanic(c.site, "no entry found for key", TRUE if i >= 0 else FALSE)
        return mk("ref", r.a[0], r.a[1] + (("hv", i),))
    if i < 0:
        return c.none()
    e = mkat(s.a[0], C(i))
    return c.some(mktup(refval(w.mkfld(e, 0, 0)), refval(w.mkfld(e, 0, 1))))


def entry_of(c, x):
    """(map, index or -1, key) behind an entry of a hash map"""
    e = c.ctx.whnf(x)
    while e.op == "ref":
        e = c.ctx.whnf(c.ctx.deref(e))
    if e.op == "adt":
        e = c.ctx.whnf(w.mkfld(e, e.a[1], 0))
    return (e.a[0], e.a[1].a[0], e.a[2]) if e.op == "hmentry" else None


HE = r"^std::collections::hash::map::"


@pattern(HE + r"Entry::<'a, K, V(, A)?>::(or_insert|or_insert_with|or_insert_with_key|and_modify|key)$")
def _(c):
    ctx, nm = c.ctx, c.m["path"].rsplit("::", 1)[1]
    x = entry_of(c, c.a[0])
    if x is None:
        return NotImplemented
    r, i, k = x
    if nm == "key":
        return refval(k)
    if nm == "and_modify":
        if i >= 0:
            c.prog.call_value(ctx, c.a[1], [mk("ref", r.a[0], r.a[1] + (("hv", i),))])
        return c.a[0]
    if i < 0:
        if nm == "or_insert":
            v = c.a[1]
        else:
            v = c.prog.call_value(ctx, c.a[1], [refval(k)] if nm.endswith("key") else [])
        i = new_entry(ctx, r, k, v)
    return mk("ref", r.a[0], r.a[1] + (("hv", i),))


def new_entry(ctx, r, k, v):
    s = ctx.whnf(ctx.deref(r))
    ctx.write(r, mk("hset", mkseq([s.a[0], item(mktup(k, v))]), ty=s.ty))
    return seqlen(s.a[0]).a[0]


@pattern(HE + r"(OccupiedEntry|VacantEntry)::<'a, K, V(, A)?>::(get|get_mut|into_mut|key|into_key|insert)$")
def _(c):
    ctx, nm = c.ctx, c.m["path"].rsplit("::", 1)[1]
    x = entry_of(c, c.a[0])
    if x is None:
        return NotImplemented
    r, i, k = x
    if nm == "key":
        return refval(k)
    if nm == "into_key":
        return k
    at = mk("ref", r.a[0], r.a[1] + (("hv", i),))
    if nm == "insert":
        if i < 0:
            return mk("ref", r.a[0], r.a[1] + (("hv", new_entry(ctx, r, k, c.a[1])),))
        old = ctx.deref(at)
        ctx.write(at, c.a[1])
        return old
    return at


# ---------------------------------------------------------------- what a value feeds a hasher
@pattern(r"^core::hash::impls::<impl core::hash::Hash for (\w+)>::hash$|^core::hash::Hasher::write_\w+$")
def _(c):
    hasher = 1 if c.m["path"].endswith("::hash") else 0
    r = c.ctx.whnf(c.a[hasher])
    while r.op == "ref" and c.ctx.whnf(c.ctx.deref(r)).op == "ref":
        r = c.ctx.whnf(c.ctx.deref(r))
    h = c.ctx.whnf(c.ctx.deref(r)) if r.op == "ref" else r
    if h.op != "fed":
        return NotImplemented
    x = c.v(1 - hasher)
    if c.W.kind(c.W.strip_refs(c.argtys[1 - hasher])) == "bool":
        x = t.ite(x, t.ONE, t.ZERO)
    c.ctx.write(r, mk("fed", *(h.a + (x,))))
    return UNIT
