"""Transfer functions of what the crate calls outside its own source."""
import re
from . import terms as t
from . import world as w
from .terms import T, mk, A, C, is_const, psub, padd, TRUE, FALSE, UNIT, UNDEF, close, open_
from .world import Undecided, refval, mkfld, mkadt, mktup, opq, mkseq, item, seqlen, mkat, mkeq, isvar
from .facts import Infeasible
from . import interp as I
from . import facts as F

M = {}
PAT = []


def model(*paths):
    def d(f):
        for p in paths:
            M[p] = f
        return f
    return d


def pattern(rx):
    def d(f):
        PAT.append((re.compile(rx), f))
        return f
    return d


def install(prog):
    prog.models = M
    w.STORE_ELEM[0] = store_elem
    PAT_CACHE.clear()


PAT_CACHE = {}
FNTRAITS = {"core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call"}


# ---------------------------------------------------------------- constants
_const = {}


def const(prog, c, ty):
    W = prog.w
    k = (id(c), ty)
    v = _const.get(k)
    if v is None:
        v = _const[k] = _mkconst(prog, c, ty)
    return v


def _mkconst(prog, c, ty):
    W = prog.w
    tt = W.types[ty]
    if "int" in c:
        if tt["k"] == "bool":
            return TRUE if c["int"] else FALSE
        if tt["k"] == "float":
            return mk("fconst", c["int"], ty=ty)
        if tt["k"] in ("ref", "ptr"):
            return mk("ptrconst", c["int"])
        if tt["k"] == "adt":
            fts = W.field_tys(ty, 0)
            return mk("adt", ty, 0, _mkconst(prog, c, fts[0]))
        return C(c["int"])
    if "str" in c:
        return refval(mk("str", c["str"]))
    if "bytes" in c:
        return refval(mk("bytes", str(c["bytes"])))
    if "fn" in c:
        return mk("fn", c["fn"])
    if "ref" in c:
        return refval(_mkconst(prog, c["ref"], c["to"]))
    if "adt" in c:
        aty = c["adt"]
        fts = W.field_tys(aty, c["v"])
        fs = [_mkconst(prog, x, ft) for x, ft in zip(c["fields"], fts)]
        if W.adt_path(aty) in w.TRANSPARENT:
            return fs[0]
        if W.adt_path(aty) == ESET:
            return eset_of_mask(prog, aty, fs)
        return mk("adt", aty, c["v"], *fs)
    if "tuple" in c:
        return mktup(*[_mkconst(prog, x, ft) for x, ft in zip(c["tuple"], tt["elems"])])
    if "array" in c:
        return mkseq([item(_mkconst(prog, x, tt["to"])) for x in c["array"]])
    if "zst" in c:
        if tt["k"] == "tuple":
            return UNIT
        if tt["k"] == "fndef":
            return mk("fn", tt["f"])
        if tt["k"] == "closure":
            return mk("closure", tt["f"])
        if tt["k"] == "adt":
            return mk("adt", ty, 0)
        return mk("zst", ty=ty)
    if "static" in c:
        s = c["static"]
        return refval(opq("static", s if isinstance(s, str) else str(s), ty=W.pointee(ty) if W.is_ref(ty) else ty))
    return opq("const", str(sorted(c.items()))[:200], ty=ty)


ESET = "enumset::impl_set::EnumSet"


# ---------------------------------------------------------------- dispatch
def callsite(prog, ctx, frame, callee, args, argtys, destty, site):
    fid = callee["f"]
    m = prog.w.fns[fid]
    orig = callee.get("orig", "")
    prog.cur_site = (frame, callee, args, argtys, destty)
    if orig in FNTRAITS or m["path"] in FNTRAITS:
        f = args[0]
        tup = ctx.whnf(args[1]) if len(args) > 1 else UNIT
        a = []
        if tup.op == "tup":
            a = list(tup.a)
        elif tup.ty is not None:
            a = [mkfld(tup, 0, i) for i in range(len(prog.w.types[tup.ty]["elems"]))]
        return prog.call_value(ctx, f, a, destty)
    if orig == "core::iter::traits::iterator::Iterator::next" and frame.loops and frame.loops[-1][2] in ("body", "final"):
        ctx.in_guard = frame.loops[-1]
        try:
            return prog.call(ctx, fid, args, argtys, destty, site)
        finally:
            ctx.in_guard = None
    return prog.call(ctx, fid, args, argtys, destty, site)


def dispatch(prog, ctx, fid, m, args, argtys, dest, site):
    path = m["path"]
    if m.get("derived") and m["local"]:
        r = derived(prog, ctx, m, args, dest)
        if r is not NotImplemented:
            return r
    f = M.get(path)
    if f is None:
        f = PAT_CACHE.get(path)
        if f is None:
            f = False
            for rx, g in PAT:
                if rx.search(path):
                    f = g
                    break
            PAT_CACHE[path] = f
    if f:
        c = Call(prog, ctx, fid, m, args, argtys, dest, site)
        return f(c)
    if m["kind"] == "virtual":
        return virtual(prog, ctx, m, args, dest, site)
    if m["kind"] == "shim:closure_once" and len(args) != 2:
        ct = prog.w.types[m["args"][0]]
        if ct["k"] == "closure" and not ct.get("elems"):
            return prog.call_value(ctx, mk("closure", ct["f"]), list(args), dest)
    if m["kind"].startswith("shim:"):
        tup = ctx.whnf(args[1]) if len(args) > 1 else UNIT
        a = list(tup.a) if tup.op == "tup" else [mkfld(tup, 0, i) for i in range(len(prog.w.types[tup.ty]["elems"]))]
        f = args[0]
        if f is UNIT or f.op == "zst":
            pass
        return prog.call_value(ctx, f, a, dest)
    if m["dk"].startswith("Ctor") and m.get("ctor_ty") is not None:
        return mkadt(m["ctor_ty"], m.get("ctor_variant", 0), *args)
    return NotImplemented


class Call:
    """one external call"""
    __slots__ = ("prog", "ctx", "fid", "m", "a", "argtys", "dest", "site")

    def __init__(self, prog, ctx, fid, m, a, argtys, dest, site):
        self.prog, self.ctx, self.fid, self.m, self.a, self.argtys, self.dest, self.site = prog, ctx, fid, m, a, argtys, dest, site

    def v(self, i):
        """value of argument i, through references"""
        x = self.ctx.whnf(self.a[i])
        while x.op == "ref":
            x = self.ctx.whnf(self.ctx.load(x.a[0], x.a[1]))
        return x

    @property
    def W(self):
        return self.prog.w

    def opq(self, name=None, *vals):
        if self.dest is None:
            raise Undecided("no result type for %s" % self.m["path"])
        return opq("app", name or "?" + self.m["path"], *vals, ty=self.dest)

    def dty(self):
        if self.dest is None:
            # a function item passed as a value: take the declared result
            b = self.m.get("body")
            if b:
                return b["locals"][0]
            raise Undecided("no result type for %s" % self.m["path"])
        return self.dest

    def some(self, x):
        return mkadt(self.dty(), 1, x)

    def none(self):
        return mk("adt", self.dty(), 0)

    def opt(self, cond, x):
        """Option: fork on cond"""
        return self.some(x()) if self.ctx.branch(cond) else self.none()


def derived(prog, ctx, m, args, dest):
    tr = m.get("impl_trait")
    nm = m["name"]
    if tr == "core::clone::Clone" and nm == "clone":
        return ctx.deref(args[0])
    if tr == "core::cmp::PartialEq" and nm == "eq":
        return mkeq(deep(ctx, args[0]), deep(ctx, args[1]))
    if tr in ("core::cmp::PartialOrd", "core::cmp::Ord"):
        a, b = intlike(prog, deep(ctx, args[0])), intlike(prog, deep(ctx, args[1]))
        if a is not None and b is not None:
            if nm == "cmp":
                return ordering(ctx, a, b)
            if nm == "partial_cmp":
                return mkadt(dest, 1, ordering(ctx, a, b))
            if nm in ("lt", "le", "gt", "ge"):
                return cmpop(nm, a, b)
    return NotImplemented


def cmpop(nm, a, b):
    return {"lt": t.lt(a, b), "le": t.le(a, b), "gt": t.lt(b, a), "ge": t.le(b, a)}[nm]


def deep(ctx, x):
    x = ctx.whnf(x)
    n = 0
    while x.op == "ref":
        x = ctx.whnf(ctx.load(x.a[0], x.a[1]))
        n += 1
    return x


def intlike(prog, v):
    """integer view of an int newtype or a fieldless enum (declaration order)"""
    W = prog.w
    if v.op == "poly":
        return v
    ty = v.a[0] if v.op == "adt" else v.ty
    if ty is None:
        return None
    x = W.types[ty]
    if x["k"] != "adt":
        return None
    if x["akind"] == "struct" and len(x["variants"][0]["fields"]) == 1:
        return intlike(prog, mkfld(v, 0, 0))
    if x["akind"] == "enum" and all(not vv["fields"] for vv in x["variants"]):
        ds = [vv["d"] for vv in x["variants"]]
        if ds == sorted(ds):
            return w.discr(v, ty)
    return None


ORD = [None]


def ordty(W):
    for i, x in enumerate(W.types):
        if x["k"] == "adt" and x["path"] == "core::cmp::Ordering":
            return i
    raise Undecided("no Ordering type")


def ordering(ctx, a, b):
    W = ctx.prog.w
    ty = ordty(W)
    L, E, G = t.lt(a, b), t.ieq(a, b), t.lt(b, a)
    if ctx.known(L) is True:
        k = 0
    elif ctx.known(G) is True:
        k = 2
    elif ctx.known(E) is True:
        k = 1
    else:
        alts = [(i, c) for i, c in enumerate((L, E, G)) if ctx.known(c) is not False]
        if len(alts) == 1:
            k = alts[0][0]
        else:
            k = alts[ctx.choose(len(alts), [c for _, c in alts])][0]
    return mk("adt", ty, k)


def virtual(prog, ctx, m, args, dest, site):
    """dynamic call: the receiver's concrete type decides, else all implementers"""
    W = prog.w
    v = deep(ctx, args[0])
    tr = m.get("trait") or m["path"].rsplit("::", 1)[0]
    ty = I.value_type(v)
    if ty is not None and W.kind(ty) == "adt":
        s = W.types[ty]["s"]
        for i, f in enumerate(W.fns):
            if f.get("impl_trait") == tr and f.get("name") == m["name"] and f.get("impl_self") == s:
                return prog.call(ctx, i, args, None, dest, site)
    vals = [prog.freeze(ctx, a) for a in args]
    prog.stat_opaque["dyn " + m["path"]] = prog.stat_opaque.get("dyn " + m["path"], 0) + 1
    return opq("app", "dyn:" + m["path"], *vals, ty=dest)


def aggregate(prog, ctx, frame, ty, variant, vs):
    W = prog.w
    p = W.adt_path(ty)
    if p in w.TRANSPARENT:
        return vs[0]
    h = AGGHOOK[0]
    if h and p in h:
        h[p](prog, ctx, frame, ty, variant, vs)
    return None


AGGHOOK = [None]


# ---------------------------------------------------------------- core bits
@pattern(r"^core::panicking::|^core::option::unwrap_failed$|^core::option::expect_failed|^core::result::unwrap_failed|^std::panicking::|^core::str::slice_error_fail|^core::num::from_ascii_bytes_radix_panic")
def _(c):
    raise I.Panic(c.site, c.m["path"].split("::")[-1])


@model("core::intrinsics::cold_path")
def _(c):
    return UNIT


@model("core::hint::unreachable_unchecked", "core::intrinsics::unreachable")
def _(c):
    raise Infeasible()


@model("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned",
       "alloc::slice::<impl [T]>::to_vec", "alloc::slice::<impl alloc::borrow::ToOwned for [T]>::to_owned")
def _(c):
    return c.ctx.deref(c.a[0])


@pattern(r"as core::clone::Clone>::clone$|SpecArrayClone>::clone$|ConvertVec>::to_vec$|ToOwned>::to_owned$|ToOwned for \[T\]>::to_owned$")
def _(c):
    if c.m["local"] and not c.m.get("derived"):
        return NotImplemented
    return c.ctx.deref(c.a[0])


@pattern(r"as core::ops::deref::Deref(Mut)?>::deref(_mut)?$|AsRef<.*>>::as_ref$|AsMut<.*>>::as_mut$|Borrow<.*>>::borrow$|^alloc::string::String::as_(mut_)?str$")
def _(c):
    if c.m["local"]:
        return NotImplemented
    W = c.W
    a = c.ctx.whnf(c.a[0])
    s = c.m.get("impl_self") or ""
    if "Lazy" in s or "Cow" in c.m["path"] or "regex" in s:
        v = deep(c.ctx, a)
        if "Lazy" in s:
            return lazy(c, v)
        return c.opq(None, v)
    return a


def lazy(c, v):
    """value behind a lazily initialised static: run its initialiser"""
    if v.op == "static":
        prog = c.prog
        name = v.a[0]
        r = prog.lazyval(c.ctx, name, c.dty())
        if r is not None:
            return refval(r)
    f = initfn(v)
    if f is not None:
        return refval(c.prog.freeze(c.ctx, c.prog.call_value(c.ctx, f, [])))
    return c.opq("lazy", v)


def initfn(v, d=0):
    """the initialiser function inside a Lazy constant"""
    if v.op == "fn":
        return v
    if v.op == "adt" and d < 8:
        for y in v.a[2:]:
            r = initfn(y, d + 1)
            if r is not None:
                return r
    return None


def _lazyval(self, ctx, name, dest):
    fs = [i for i, f in enumerate(self.w.fns) if f["path"] == name + "::{closure#0}"]
    if len(fs) != 1:
        return None
    f = self.fn(fs[0])
    if f.body is None or f.body["argc"] != 1:
        return None
    return self.exec_fn(ctx, f, [mk("closure", fs[0])])


I.Program.lazyval = _lazyval


@model("core::intrinsics::integer_max")
def _(c):
    return t.imax(c.v(0), c.v(1))


@model("core::intrinsics::integer_min")
def _(c):
    return t.imin(c.v(0), c.v(1))


@pattern(r"^core::cmp::Ord::(max|min|clamp)$|^core::cmp::(max|min)$|as core::cmp::Ord>::(max|min|clamp)$|^core::cmp::impls::<impl core::cmp::Ord for \w+>::(max|min|clamp)$")
def _(c):
    nm = c.m["path"].rsplit("::", 1)[1]
    vs = [deep(c.ctx, x) for x in c.a]
    if all(v.op == "poly" for v in vs):
        if nm == "clamp":
            return t.imin(t.imax(vs[0], vs[1]), vs[2])
        return (t.imax if nm == "max" else t.imin)(*vs)
    ints = [intlike(c.prog, v) for v in vs]
    if any(i is None for i in ints):
        return NotImplemented
    if nm == "clamp":
        return NotImplemented
    # max returns the second of equals
    if nm == "max":
        return c.a[1] if c.ctx.branch(t.le(ints[0], ints[1])) else c.a[0]
    return c.a[0] if c.ctx.branch(t.le(ints[0], ints[1])) else c.a[1]


@pattern(r"^core::cmp::impls::<impl core::cmp::(PartialOrd|Ord|PartialEq|Eq)(<.*>)? for &?.*>::(lt|le|gt|ge|eq|ne|cmp|partial_cmp)$|^core::cmp::PartialOrd::(lt|le|gt|ge)$|^core::cmp::PartialEq::ne$")
def _(c):
    nm = c.m["path"].rsplit("::", 1)[1]
    a, b = deep(c.ctx, c.a[0]), deep(c.ctx, c.a[1])
    if nm in ("eq", "ne"):
        if not structural(c.prog, a) or not structural(c.prog, b):
            return NotImplemented
        e = mkeq(a, b)
        return e if nm == "eq" else t.bnot(e)
    if nm in ("lt", "le", "gt", "ge") and is_float(c.W, a):
        return t.fapp("f" + nm.capitalize(), a, b)
    x, y = intlike(c.prog, a), intlike(c.prog, b)
    if x is None or y is None or not derives_order(c.prog, a):
        if a.op == "tup" or (a.ty is not None and c.W.kind(a.ty) == "tuple"):
            return NotImplemented
        if nm in ("lt", "le", "gt", "ge") and c.m.get("body") is None:
            return mk("app", "ord." + nm, a, b)
        return NotImplemented
    if nm == "cmp":
        return ordering(c.ctx, x, y)
    if nm == "partial_cmp":
        return mkadt(c.dty(), 1, ordering(c.ctx, x, y))
    return cmpop(nm, x, y)


def is_float(W, a):
    return a.ty is not None and W.kind(a.ty) == "float"


def structural(prog, v):
    """PartialEq of v's type is derived (structural)"""
    ty = I.value_type(v)
    if ty is None:
        return True
    x = prog.w.types[ty]
    if x["k"] == "float":
        return True
    if x["k"] == "adt" and x["local"]:
        return has_derived(prog, x, "core::cmp::PartialEq")
    return True


def derives_order(prog, v):
    ty = I.value_type(v)
    if ty is None:
        return True
    x = prog.w.types[ty]
    if x["k"] == "adt" and x["local"]:
        return has_derived(prog, x, "core::cmp::PartialOrd")
    return True


@pattern(r"f32>::round$")
def _(c):
    v = t.fconst_val(c.a[0])
    if v is None or v != v or abs(v) > 1e9:
        return mk("app", "fRound", c.a[0], ty=c.dty())
    import math
    return mk("fconst", t.f32bits(math.copysign(math.floor(abs(v) + 0.5), v)), ty=c.dty())


@pattern(r"f32>::is_nan$")
def _(c):
    v = t.fconst_val(c.a[0])
    if v is None:
        return mk("app", "is_nan", c.a[0])
    return t.boolc(v != v)


_hd = {}


def has_derived(prog, x, tr):
    k = (x["path"], tr)
    r = _hd.get(k)
    if r is None:
        imp = [i for i in prog.w.impls if i["trait"] == tr and i["self"].split("<")[0] == x["path"]]
        r = _hd[k] = all(i["derived"] for i in imp)
    return r


@pattern(r"PartialEq.*>::(eq|ne)$|SpecArrayEq<.*>::spec_eq$|equal_same_length$")
def _(c):
    if c.m["local"] and not c.m.get("derived"):
        return NotImplemented
    a, b = deep(c.ctx, c.a[0]), deep(c.ctx, c.a[1])
    e = mkeq(a, b)
    if e.op == "eq" and (a.op == "seq" or b.op == "seq"):
        e = seqeq(a, b)
    return t.bnot(e) if c.m["path"].endswith("ne") else e


def seqeq(a, b):
    la, lb = seqlen(a), seqlen(b)
    if is_const(la) and is_const(lb):
        if la is not lb:
            return FALSE
        return t.band(*[mkeq(mkat(a, C(i)), mkat(b, C(i))) for i in range(la.a[0])])
    return mk("eq", a, b) if a.id < b.id else mk("eq", b, a)


# integers -------------------------------------------------------
@pattern(r"^core::num::<impl \w+>::(wrapping_add|wrapping_sub|wrapping_mul|saturating_add|saturating_sub|saturating_mul|checked_add|checked_sub|checked_mul|overflowing_add|overflowing_sub|abs|unsigned_abs|abs_diff|pow|rem_euclid|div_euclid|signum|min_value|max_value|is_power_of_two|trailing_zeros|leading_zeros|checked_div|checked_rem|checked_pow|saturating_pow|div_ceil|is_positive|is_negative|saturating_add_signed|checked_add_signed|wrapping_neg|checked_neg|next_multiple_of|isqrt|ilog2|count_ones|saturating_sub_unsigned|saturating_add_unsigned|checked_sub_unsigned|checked_add_unsigned|wrapping_add_signed|checked_shl|checked_shr|unchecked_add|unchecked_sub|unchecked_mul|checked_signed_diff|strict_\w+|checked_ilog2|clamp)$")
def _(c):
    mm = re.match(r"^core::num::<impl (\w+)>::(\w+)$", c.m["path"])
    tyn, nm = mm.group(1), mm.group(2)
    W, ctx = c.W, c.ctx
    ity = W.tyid.get(tyn)
    lo, hi = W.irange(ity)
    a = c.v(0) if c.a else None
    b = c.v(1) if len(c.a) > 1 else None

    def wrap(r):
        bd = ctx.facts.bounds(r)
        if lo <= bd[0] and bd[1] <= hi:
            return r
        return I.wrapped(ctx, r, lo, hi, bd, ity)
    kind, _, op = nm.partition("_")
    ops = {"add": lambda: padd(a, b), "sub": lambda: psub(a, b), "mul": lambda: t.pmul(a, b), "add_signed": lambda: padd(a, b),
           "sub_unsigned": lambda: psub(a, b), "add_unsigned": lambda: padd(a, b), "neg": lambda: t.pneg(a)}
    if kind in ("wrapping", "unchecked", "strict") and op in ops:
        return wrap(ops[op]())
    if kind == "saturating" and op in ops:
        return t.imax(t.imin(ops[op](), C(hi)), C(lo))
    if kind == "checked" and op in ops:
        r = ops[op]()
        ok = t.band(t.le(C(lo), r), t.le(r, C(hi)))
        return c.opt(ok, lambda: r)
    if kind == "overflowing" and op in ops:
        r = ops[op]()
        return mk("tup", wrap(r), t.bor(t.lt(r, C(lo)), t.lt(C(hi), r)))
    if nm in ("checked_div", "checked_rem"):
        if not ctx.branch(t.bnot(t.ieq(b, C(0)))):
            return c.none()
        q = divide(ctx, a, b, lo < 0)
        return c.some(q if nm == "checked_div" else psub(a, t.pmul(q, b)))
    if nm in ("abs", "unsigned_abs"):
        return a if ctx.branch(t.le(C(0), a)) else t.pneg(a)
    if nm == "abs_diff":
        return t.imax(psub(a, b), psub(b, a))
    if nm == "rem_euclid" or nm == "div_euclid":
        if ctx.facts.bounds(b)[0] > 0:
            q = t.fdiv(a, b)
            return q if nm == "div_euclid" else psub(a, t.pmul(q, b))
    if nm == "div_ceil" and ctx.facts.bounds(b)[0] > 0:
        return t.fdiv(padd(a, psub(b, C(1))), b)
    if nm == "pow":
        if is_const(a) and is_const(b):
            r = C(a.a[0] ** b.a[0])
        elif is_const(a) and a.a[0] == 2:
            r = t.pow2(b)
        elif is_const(b) and b.a[0] <= 4:
            r = t.ONE
            for _ in range(b.a[0]):
                r = t.pmul(r, a)
        else:
            return c.opq("pow", a, b)
        ctx.canpanic(c.site, "overflow pow", t.band(t.le(C(lo), r), t.le(r, C(hi))))
        return r
    if nm == "signum":
        if ctx.branch(t.lt(a, C(0))):
            return C(-1)
        return C(0) if ctx.branch(t.ieq(a, C(0))) else C(1)
    if nm in ("is_positive", "is_negative"):
        return t.lt(C(0), a) if nm == "is_positive" else t.lt(a, C(0))
    if nm == "min_value":
        return C(lo)
    if nm == "max_value":
        return C(hi)
    if c.m.get("body") is not None:
        return NotImplemented
    return c.opq(nm, *[x for x in (a, b) if x is not None])


def divide(ctx, a, b, signed):
    if not signed:
        return t.fdiv(a, b)
    f = ctx.facts
    ba, bb = f.bounds(a), f.bounds(b)
    if bb[0] > 0:
        if ba[0] >= 0:
            return t.fdiv(a, b)
        if ba[1] <= 0:
            return t.pneg(t.fdiv(t.pneg(a), b))
    return t.tdiv(a, b)


@pattern(r"^core::convert::num::<impl core::convert::TryFrom<(\w+)> for (\w+)>::try_from$|^core::convert::num::.*TryFrom.*::try_from$")
def _(c):
    tyn = re.search(r"for (\w+)>", c.m["path"])
    if not tyn:
        return NotImplemented
    lo, hi = c.W.irange(c.W.tyid[tyn.group(1)])
    v = c.v(0)
    if v.op != "poly":
        return NotImplemented
    ok = t.band(t.le(C(lo), v), t.le(v, C(hi)))
    d = c.dty()
    if c.ctx.branch(ok):
        return mkadt(d, 0, v)
    return mkadt(d, 1, opq("app", "TryFromIntError", ty=c.W.types[d]["args"][1]))


@pattern(r"^core::convert::num::<impl core::convert::From<(\w+)> for (\w+)>::from$")
def _(c):
    v = c.v(0)
    if v.op == "poly":
        d = c.dty()
        if c.W.is_int(d):
            return v
    return NotImplemented


@pattern(r"^<T as core::convert::(From<T>|Into<U>|TryInto<U>|TryFrom<U>)>|^core::convert::(From::from|Into::into)$")
def _(c):
    if c.m["path"] == "<T as core::convert::From<T>>::from":
        return c.a[0]
    if c.m["path"] in ("core::convert::From::from", "core::convert::Into::into"):
        return c.opq("conv", c.prog.freeze(c.ctx, c.a[0]))
    return NotImplemented


# Rc / Box --------------------------------------------------------
@pattern(r"^alloc::rcs?::(rc::)?Rc::<T(, A)?>::new$|^alloc::rc::Rc::<T>::new$|^alloc::boxed::Box::<T>::new$|^alloc::sync::Arc::<T>::new$|^alloc::rcs::\w+::\w+::<T>::new$|as core::convert::From<T>>::from$")
def _(c):
    return c.a[0]


@pattern(r"Rc::<T, A>::as_ptr|Rc::<T, A>::ptr_eq")
def _(c):
    if c.m["path"].endswith("ptr_eq"):
        return mk("app", "ptr_eq", deep(c.ctx, c.a[0]), deep(c.ctx, c.a[1]))
    return NotImplemented


@pattern(r"unwrap_or_clone$")
def _(c):
    return c.a[0]


@model("alloc::boxed::Box::<T>::new_uninit")
def _(c):
    ty = c.W.types[c.dest]["args"][0]
    def blank(ty):
        if c.W.adt_path(ty) in ("core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop", "core::mem::maybe_dangling::MaybeDangling"):
            return mk("adt", ty, 0, *[blank(x) for x in c.W.field_tys(ty, 0)])
        return UNDEF
    return blank(ty)


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def _(c):
    v = c.a[0]
    while v.op == "adt":
        v = v.a[-1]
    return v


@model("alloc::slice::<impl [T]>::into_vec")
def _(c):
    return c.a[0]


@model("core::hint::must_use")
def _(c):
    return c.a[0]


# fmt: text is never inspected ------------------------------------
@pattern(r"^core::fmt::|core::fmt::(Debug|Display|Write|LowerHex).*>::(fmt|write_str)$|^alloc::fmt::format$|^alloc::string::ToString|as alloc::string::ToString>::to_string$|^std::io::stdio::|^core::any::type_name|as core::any::Any>::type_id")
def _(c):
    if c.m["local"]:
        return NotImplemented
    if c.dest is not None and c.W.types[c.dest]["k"] == "tuple" and not c.W.types[c.dest]["elems"]:
        return UNIT
    if c.m["path"].endswith("to_string") and c.a:
        v = deep(c.ctx, c.a[0])
        if v.op == "poly" and is_const(v) and re.fullmatch(r"[ui](\d+|size)", c.W.types[c.W.strip_refs(c.argtys[0])]["s"]):
            return mk("str", str(v.a[0]))
        return c.opq("to_string", v)
    return c.opq("fmt")


@pattern(r"^error_stack::|^core::panic::|error_stack::.*>::(from|report|attach\w*|change_context)")
def _(c):
    if c.dest is None:
        return UNIT
    try:
        return c.opq("report", *[c.prog.freeze(c.ctx, a) for a in c.a])
    except Exception:
        return c.opq("report")


# ---------------------------------------------------------------- sequences
def vecref(c, i=0):
    """(reference, value) of the sequence argument"""
    r = c.ctx.whnf(c.a[i])
    v = c.ctx.deref(r)
    while True:
        v = c.ctx.whnf(v)
        if v.op != "ref":
            break
        r = v
        v = c.ctx.deref(r)
    return r, v


@pattern(r"^alloc::vec::Vec::<T>::(new|with_capacity)$|^alloc::collections::vec_deque::VecDeque::<T>::(new|with_capacity)$|<alloc::vec::Vec<T> as core::default::Default>::default$|^alloc::string::String::new$|VecDeque<T> as core::default::Default>::default$")
def _(c):
    if "string::String" in c.m["path"]:
        return mk("str", "")
    return mkseq([])


@pattern(r"(Vec|VecDeque)::<T, A>::(len|is_empty)$|^core::slice::<impl \[T\]>::(len|is_empty)$|^core::str::<impl str>::(len|is_empty)$|^alloc::string::String::(len|is_empty)$|ExactSizeIterator.*::len$")
def _(c):
    v = c.v(0)
    if v.op == "iter":
        n = iter_len(c.ctx, v)
        if n is None:
            return NotImplemented
    elif v.op == "str":
        n = C(len(v.a[0].encode()))
    else:
        n = seqlen(v)
    return n if c.m["path"].endswith("len") else t.le0(n)


def push_seq(s, x):
    return mkseq([s, item(x)])


@pattern(r"(Vec|VecDeque)::<T, A>::(push|push_back|push_front|pop|pop_back|pop_front|clear|truncate|insert|remove|append|swap_remove|drain|split_off|extend_from_slice|reserve|resize|dedup|as_slice|as_mut_slice|shrink_to_fit|push_within_capacity|capacity|split_first|push_mut|retain_mut)$")
def _(c):
    nm = c.m["path"].rsplit("::", 1)[1]
    ctx = c.ctx
    r, s = vecref(c)
    if nm in ("push", "push_back"):
        ctx.write(r, push_seq(s, c.a[1]))
        return UNIT
    if nm == "push_front":
        ctx.write(r, mkseq([item(c.a[1]), s]))
        return UNIT
    if nm in ("pop", "pop_back"):
        n = seqlen(s)
        if not ctx.branch(t.lt(C(0), n)):
            return c.none()
        x = mkat(s, psub(n, C(1)), elemty(c, s))
        if s.op == "seq" and s.a and s.a[-1].op == "it":
            ctx.write(r, mkseq(s.a[:-1]))
        else:
            ctx.write(r, w.mksub(s, t.ZERO, psub(n, C(1))))
        return c.some(x)
    if nm == "pop_front":
        n = seqlen(s)
        if not ctx.branch(t.lt(C(0), n)):
            return c.none()
        x = mkat(s, t.ZERO, elemty(c, s))
        if s.op == "seq" and s.a and s.a[0].op == "it":
            ctx.write(r, mkseq(s.a[1:]))
        else:
            ctx.write(r, w.mksub(s, t.ONE, n))
        return c.some(x)
    if nm == "clear":
        ctx.write(r, mkseq([]))
        return UNIT
    if nm in ("reserve", "shrink_to_fit"):
        return UNIT
    if nm == "truncate":
        k = c.v(1)
        n = seqlen(s)
        if ctx.branch(t.le(n, k)):
            return UNIT
        ctx.write(r, w.mksub(s, t.ZERO, k))
        return UNIT
    if nm == "split_off":
        k = c.v(1)
        n = seqlen(s)
        ctx.canpanic(c.site, "split_off index", t.le(k, n))
        ctx.write(r, w.mksub(s, t.ZERO, k))
        return w.mksub(s, k, n)
    if nm == "append":
        r2, s2 = vecref(c, 1)
        ctx.write(r, mkseq([s, s2]))
        ctx.write(r2, mkseq([]))
        return UNIT
    if nm == "extend_from_slice":
        ctx.write(r, mkseq([s, c.v(1)]))
        return UNIT
    if nm in ("as_slice", "as_mut_slice"):
        return r
    if nm == "insert":
        k = c.v(1)
        if k is t.ZERO:
            ctx.write(r, mkseq([item(c.a[2]), s]))
            return UNIT
        n = seqlen(s)
        ctx.canpanic(c.site, "insert index", t.le(k, n))
        if psub(k, n) is t.ZERO:
            ctx.write(r, push_seq(s, c.a[2]))
            return UNIT
        ctx.write(r, mkseq([w.mksub(s, t.ZERO, k), item(c.a[2]), w.mksub(s, k, n)]))
        return UNIT
    if nm == "remove":
        k = c.v(1)
        n = seqlen(s)
        if c.dest is not None and c.W.adt_path(c.dest) == "core::option::Option" and "VecDeque" in c.m["path"]:
            if not ctx.branch(t.lt(k, n)):
                return c.none()
            x = mkat(s, k, elemty(c, s))
            ctx.write(r, mkseq([w.mksub(s, t.ZERO, k), w.mksub(s, padd(k, t.ONE), n)]))
            return c.some(x)
        ctx.canpanic(c.site, "remove index", t.lt(k, n))
        x = mkat(s, k, elemty(c, s))
        ctx.write(r, mkseq([w.mksub(s, t.ZERO, k), w.mksub(s, padd(k, t.ONE), n)]))
        return x
    if nm == "drain":
        lo, hi = bounds_of_range(c, c.a[1], seqlen(s))
        ctx.write(r, mkseq([w.mksub(s, t.ZERO, lo), w.mksub(s, hi, seqlen(s))]))
        return seq_iter(w.mksub(s, lo, hi), "val")
    return NotImplemented


def elemty(c, s):
    # element type from the static argument type
    if c.argtys:
        ty = c.W.strip_refs(c.argtys[0])
        e = c.W.elem_ty(ty)
        if e is not None:
            return e
        e = store_elem(ty)
        if e is not None:
            return e
    e = w._guess_elem(s)
    return e


@pattern(r"core::ops::index::Index(Mut)?<I>>::index(_mut)?$|VecDeque.*Index(Mut)?<usize>>::index(_mut)?$|klavier_helper::store::Store<K, T, M> as core::ops::index::Index<usize>>::index$|^core::slice::index::|core::array::.*Index.*::index(_mut)?$")
def _(c):
    ctx = c.ctx
    r, s = vecref(c)
    ix = c.a[1]
    n = seqlen(s)
    et = elemty(c, s)
    if ix.op == "poly":
        ctx.canpanic(c.site, "index out of bounds", t.lt(ix, n))
        if "ops" == s.op:
            pass
        return mk("ref", r.a[0], r.a[1] + (("i", ix, et),)) if c.m["path"].endswith("_mut") else refval(mkat(s, ix, et))
    lo, hi = bounds_of_range(c, ix, n)
    ctx.canpanic(c.site, "slice range", t.band(t.le(lo, hi), t.le(hi, n)))
    if c.m["path"].endswith("_mut"):
        return mk("ref", r.a[0], r.a[1] + (("sub", lo, hi),))
    return refval(w.mksub(s, lo, hi))


def bounds_of_range(c, rg, n):
    """(lo, hi) exclusive of a Range* value"""
    rg = deep(c.ctx, rg)
    ty = I.value_type(rg)
    p = c.W.adt_path(ty)
    if p == "core::ops::range::Range":
        return mkfld(rg, 0, 0), mkfld(rg, 0, 1)
    if p == "core::ops::range::RangeFrom":
        return mkfld(rg, 0, 0), n
    if p == "core::ops::range::RangeTo":
        return t.ZERO, mkfld(rg, 0, 0)
    if p == "core::ops::range::RangeFull":
        return t.ZERO, n
    if p == "core::ops::range::RangeInclusive":
        return mkfld(rg, 0, 0), padd(mkfld(rg, 0, 1), t.ONE)
    if p == "core::ops::range::RangeToInclusive":
        return t.ZERO, padd(mkfld(rg, 0, 0), t.ONE)
    raise Undecided("range %s" % p)


@pattern(r"(VecDeque|Vec)::<T, A>::(get|get_mut|front|back|first|last|front_mut|back_mut)$|^core::slice::<impl \[T\]>::(first|last|get|first_mut|last_mut|get_mut)$")
def _(c):
    nm = c.m["path"].rsplit("::", 1)[1]
    ctx = c.ctx
    r, s = vecref(c)
    n = seqlen(s)
    et = elemty(c, s)
    if nm.startswith("get"):
        ix = c.a[1]
        if ix.op != "poly":
            return NotImplemented
        ok = t.lt(ix, n)
    elif nm.split("_")[0] in ("front", "first"):
        ix, ok = t.ZERO, t.lt(C(0), n)
    else:
        ix, ok = psub(n, t.ONE), t.lt(C(0), n)
    if not ctx.branch(ok):
        return c.none()
    if nm.endswith("_mut"):
        return c.some(mk("ref", r.a[0], r.a[1] + (("i", ix, et),)))
    return c.some(refval(mkat(s, ix, et)))


@pattern(r"^core::slice::<impl \[T\]>::(contains)$|VecDeque::<T, A>::contains$")
def _(c):
    ctx = c.ctx
    s = c.v(0)
    x = deep(ctx, c.a[1])
    n = seqlen(s)
    if is_const(n) and n.a[0] <= 64:
        return t.bor(*[mkeq(mkat(s, C(i)), x) for i in range(n.a[0])])
    from .loops import exists
    v = mk("lv_k", "contains")
    return exists(n, close(mkeq(mkat(s, A(v)), x), v))


@pattern(r"^alloc::slice::<impl \[T\]>::(sort|sort_by|sort_by_key|sort_by_cached_key|sort_unstable|sort_unstable_by|sort_unstable_by_key)$|^core::slice::<impl \[T\]>::(sort_unstable|sort_unstable_by|sort_unstable_by_key|reverse)$")
def _(c):
    nm = c.m["path"].rsplit("::", 1)[1]
    r, s = vecref(c)
    if nm == "reverse":
        c.ctx.write(r, w.mkrev(s))
        return UNIT
    n = seqlen(s)
    if n is t.ONE or n is t.ZERO:
        return UNIT
    key = mk("natural")
    if is_const(n) and n.a[0] <= 12 and (len(c.a) > 1 or c.W.is_int(elemty(c, s))):
        es = [mkat(s, C(i)) for i in range(n.a[0])]
        if all(e.op != "at" for e in es):
            c.ctx.write(r, mkseq([item(e) for e in sort_literal(c, nm, es)]))
            return UNIT
    if len(c.a) > 1:
        key = sortkey(c, s, nm)
    c.ctx.write(r, mk("app", "sort", s, key, ty=seqty(c, s)))
    return UNIT


def sort_literal(c, nm, es):
    """a stable insertion of each of the given elements, asking the ordering
    the program passes about every pair it needs"""
    ctx, prog = c.ctx, c.prog
    f = c.a[1] if len(c.a) > 1 else None
    ks = {}

    def key(x):
        if id(x) not in ks:
            k = prog.call_value(ctx, f, [refval(x)])
            k = strip(ctx.whnf(k))
            if k.op not in ("poly", "tup", "adt"):
                raise Undecided("sort by a key that is not a number")
            ks[id(x)] = k
        return ks[id(x)]

    def before(x, y):
        """x is to stand strictly before y"""
        if f is None:
            return ctx.branch(t.lt(strip(x), strip(y)))
        if "key" in nm:
            return key_lt(ctx, key(x), key(y))
        o = ctx.whnf(prog.call_value(ctx, f, [refval(x), refval(y)]))
        if o.op == "adt":
            return o.a[1] == 0
        return ctx.branch(w.isvar(o, 0))
    out = []
    for e in es:
        i = len(out)
        while i > 0 and before(e, out[i - 1]):
            i -= 1
        out.insert(i, e)
    return out


def key_lt(ctx, a, b):
    if a.op == "poly" and b.op == "poly":
        return ctx.branch(t.lt(a, b))
    if a.op == "adt" and ctx.prog.w.adt_path(a.a[0]) == "core::cmp::Reverse":
        return key_lt(ctx, strip(ctx.whnf(mkfld(b, 0, 0))), strip(ctx.whnf(mkfld(a, 0, 0))))
    if a.op != "tup" or b.op != "tup":
        raise Undecided("order of values that are not numbers")
    for i in range(len(a.a)):
        x, y = strip(ctx.whnf(mkfld(a, 0, i))), strip(ctx.whnf(mkfld(b, 0, i)))
        if x.op != "poly":
            raise Undecided("sort by a key that is not a number")
        if ctx.branch(t.lt(x, y)):
            return True
        if ctx.branch(t.lt(y, x)):
            return False
    return False


def seqty(c, s):
    if s.ty is not None:
        return s.ty
    return c.W.strip_refs(c.argtys[0]) if c.argtys else None


def sortkey(c, s, nm):
    """what the comparator compares, as a lambda"""
    et = elemty(c, s)
    x = opq("lv", "sx", ty=et)
    y = opq("lv", "sy", ty=et)
    f = c.a[1]
    if "key" in nm:
        k = c.prog.call_value(c.ctx, f, [refval(x)])
        return close(c.prog.freeze(c.ctx, k), atom_of(x))
    # comparator: explore what it decides
    ex = I.Explorer(c.prog, c.ctx, max_paths=200)
    outs = ex.run(lambda c2: c.prog.call_value(c2, f, [refval(x), refval(y)]))
    keys = []
    for o in outs:
        for cs, k in o.trail:
            keys.append(cs[k])
    # single three-way comparison of key(x) with key(y)
    for o in outs:
        for cs, k in o.trail:
            for q in cs:
                if q.op == "le0":
                    p = q.a[0]
                    px = t.psub(p, C(p.a[0]))
                    ks = [m for m, co in px.a[1]]
                    a = _mkp([(m, co) for m, co in px.a[1] if any(t.contains(z, atom_of(x)) for z in m)])
                    b = _mkp([(m, co) for m, co in px.a[1] if not any(t.contains(z, atom_of(x)) for z in m)])
                    a2 = t.subst(a, {atom_of(x): atom_of(y)})
                    if padd(a2, b) is t.ZERO:
                        # ascending when Less <=> key(x) < key(y)
                        asc = None
                        for o2 in outs:
                            if o2.kind == "ret" and o2.value.op == "adt":
                                fx = o2.ctx.facts
                                if fx.decide(t.lt(a, a2)) is True:
                                    asc = o2.value.a[1] == 0
                        neg = a.a[1] and a.a[1][0][1] < 0
                        key = t.pneg(a) if neg else a
                        if neg and asc is not None:
                            asc = not asc
                        return mk("tup", t.boolc(bool(asc)), close(key, atom_of(x)))
    raise Undecided("sort comparator")


def _mkp(ms):
    r = t.ZERO
    for m, co in ms:
        r = padd(r, mk("poly", 0, ((m, co),)))
    return r


def atom_of(x):
    while x.op == "ref":
        x = x.a[0].a[0]
    if x.op == "poly":
        return t.single_atom(x)
    return x


@pattern(r"Extend<.*>>::extend$|Extend<T>>::extend$")
def _(c):
    r, s = vecref(c)
    it = to_iter(c, c.a[1])
    x = collect_seq(c.ctx, it)
    ty = c.W.strip_refs(c.argtys[0]) if c.argtys else None
    if ty is not None and not c.W.is_seq(ty):
        c.ctx.write(r, mk("app", "extend", s, x, ty=ty))
    else:
        c.ctx.write(r, mkseq([s, x]))
    return UNIT


# ---------------------------------------------------------------- iterators
def seq_iter(s, mode, n=None):
    return mk("iter", "seq", s, t.ZERO, seqlen(s) if n is None else n, mode)


@pattern(r"(^core::slice::<impl \[T\]>|VecDeque::<T, A>|Vec::<T, A>)::(iter|iter_mut)$")
def _(c):
    r, s = vecref(c)
    if c.m["path"].endswith("iter_mut"):
        return mk("iter", "mut", r, t.ZERO, seqlen(s), elem_key(c, s))
    return typed_seq_iter(c, s, "ref")


def elem_key(c, s):
    return elemty(c, s)


def typed_seq_iter(c, s, mode):
    s = retype(c, s)
    return seq_iter(s, mode)


def retype(c, s):
    return s


@pattern(r"IntoIterator.*>::into_iter$|IntoIterator for &'a (mut )?.*>::into_iter$|^core::slice::iter::<impl core::iter::traits::collect::IntoIterator for")
def _(c):
    if c.m["local"]:
        return NotImplemented
    if c.m["path"].startswith("<interval::") or "'a interval::" in c.m["path"]:
        v = deep(c.ctx, c.a[0])
        n = len(ivs_of(c, v))
        return mk("iter", "seq", deep(c.ctx, mkfld(v, 0, 0)), t.ZERO, C(n), "ref" if "'a " in c.m["path"] else "val")
    return to_iter(c, c.a[0], c.argtys[0] if c.argtys else None)


def any_order(ctx, hs):
    """the elements of a literal set or map, in every order it may yield them"""
    seq = hs.a[0]
    n = seqlen(seq)
    if not is_const(n) or n.a[0] > 4:
        raise Undecided("iteration over a hash container of unknown or large size")
    es = [mkat(seq, C(i)) for i in range(n.a[0])]
    out = []
    while len(es) > 1:
        i = 0
        while i < len(es) - 1 and not ctx.branch(mk("app", "hashorder", hs, C(len(out)), C(i))):
            i += 1
        out.append(es.pop(i))
    return mkseq([item(e) for e in out + es])


def to_iter(c, a, aty=None):
    ctx = c.ctx
    a = ctx.whnf(a)
    if a.op == "iter":
        return a
    W = c.W
    if a.op == "hset":
        return seq_iter(any_order(ctx, a), "val")
    if a.op == "ref":
        v = ctx.deref(a)
        v = ctx.whnf(v)
        while v.op == "ref":
            a = v
            v = ctx.whnf(ctx.deref(a))
        if v.op == "hset" and "HashSet" in (W.adt_path(v.ty) or ""):
            return seq_iter(any_order(ctx, v), "ref")
        if v.op == "iter":
            return v if False else mk("iter", "byref", a)
        if aty is not None and W.kind(aty) == "ref" and W.types[aty].get("mut"):
            if v.op == "adt" and (W.adt_path(v.a[0]) or "").startswith("core::ops::range::"):
                return mk("iter", "byref", a)
            return mk("iter", "mut", a, t.ZERO, seqlen(v), elemty(c, v))
        return seq_iter(v, "ref")
    if a.op == "adt":
        p = W.adt_path(a.a[0])
        if p and p.startswith("core::ops::range::"):
            return range_iter(c, a) or a
        if p == "core::option::Option":
            if a.a[1] == 0:
                return seq_iter(mkseq([]), "val")
            return seq_iter(w.seq_of(a.a[2]), "val")
    if a.ty is not None:
        x = W.types[a.ty]
        if x["k"] == "adt" and x["path"] == "core::option::Option":
            if ctx.branch(isvar(a, 1)):
                return seq_iter(w.seq_of(mkfld(a, 1, 0)), "val")
            return seq_iter(mkseq([]), "val")
    return seq_iter(a, "val")


def range_iter(c, a):
    p = c.W.adt_path(a.a[0])
    if p == "core::ops::range::Range":
        lo, hi = a.a[2], a.a[3]
        if lo.op == "poly":
            return mk("iter", "seq", mk("nat"), lo, t.imax(hi, lo), "val")
    if p == "core::ops::range::RangeInclusive":
        lo, hi = a.a[2], a.a[3]
        if lo.op == "poly":
            return mk("iter", "seq", mk("nat"), lo, t.imax(padd(hi, t.ONE), lo), "val")
    if p == "core::ops::range::RangeFrom":
        lo = a.a[2]
        if lo.op == "poly":
            return mk("iter", "seq", mk("nat"), lo, None_INF, "val")
    return None


None_INF = C(1 << 190)


@pattern(r"^core::ops::range::RangeInclusive::<Idx>::new$")
def _(c):
    ty = c.dty()
    return mk("adt", ty, 0, c.a[0], c.a[1], FALSE)


@pattern(r"RangeInclusive::<Idx>::(start|end|contains|is_empty)$|^core::ops::range::Range(From|To|ToInclusive)?::<Idx>::(contains|is_empty)$")
def _(c):
    nm = c.m["path"].rsplit("::", 1)[1]
    r = c.v(0)
    p = c.W.adt_path(I.value_type(r)).rsplit("::", 1)[1]
    if nm in ("start", "end"):
        return refval(mkfld(r, 0, 0 if nm == "start" else 1))
    if nm == "contains":
        x = intlike(c.prog, deep(c.ctx, c.a[1]))
        g = lambda i: intlike(c.prog, mkfld(r, 0, i))
        if x is None:
            return NotImplemented
        if p == "Range":
            return t.band(t.le(g(0), x), t.lt(x, g(1)))
        if p == "RangeInclusive":
            return t.band(t.le(g(0), x), t.le(x, g(1)))
        if p == "RangeFrom":
            return t.le(g(0), x)
        if p == "RangeTo":
            return t.lt(x, g(0))
        if p == "RangeToInclusive":
            return t.le(x, g(0))
    if nm == "is_empty":
        if p == "Range":
            return t.le(mkfld(r, 0, 1), mkfld(r, 0, 0))
        return t.lt(mkfld(r, 0, 1), mkfld(r, 0, 0))
    return NotImplemented


ADAPT1 = ("map", "filter", "filter_map", "flat_map", "inspect", "take_while", "skip_while", "map_while")
CONSUME = {"collect", "fold", "for_each", "any", "all", "find", "find_map", "position", "rposition", "max", "min", "sum", "count", "last",
           "reduce", "nth", "max_by_key", "min_by_key", "unzip", "partition", "try_fold", "try_for_each", "eq", "rfind", "product", "is_sorted", "max_by", "min_by", "rfold", "cmp"}
ITER_RX = (r"^core::iter::traits::(iterator::Iterator|double_ended::DoubleEndedIterator|exact_size::ExactSizeIterator)::(\w+)$"
           r"|^<.* as core::iter::traits::(?:iterator::Iterator|double_ended::DoubleEndedIterator)>::(\w+)$"
           r"|^core::iter::range::<impl core::iter::traits::(?:iterator::Iterator|double_ended::DoubleEndedIterator) for core::ops::range::\w+<A>>::(\w+)$")


@pattern(ITER_RX)
def _(c):
    mm = re.search(ITER_RX, c.m["path"])
    if c.m["local"]:
        return NotImplemented
    nm = mm.group(2) or mm.group(3) or mm.group(4)
    return iter_method(c, nm)


@pattern(r"^klavier_helper::bag_store::(Iter|RangeIter)|klavier_helper::bag_store::(Iter|RangeIter)<.*>::next$")
def _(c):
    return iter_method(c, c.m["path"].rsplit("::", 1)[1])


@model("<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::next")
def _(c):
    return iter_method(c, "next")


def iter_method(c, nm):
    ctx = c.ctx
    a0 = ctx.whnf(c.a[0])
    if nm in ("next", "next_back", "nth", "any", "all", "find", "find_map", "position", "try_fold", "try_for_each", "by_ref", "rposition", "rfind"):
        # by &mut self
        r = a0
        it = ctx.whnf(ctx.deref(r))
        while it.op == "ref":
            r = it
            it = ctx.whnf(ctx.deref(r))
        if it.op == "adt":
            it2 = range_iter(c, it)
            if it2 is None:
                return NotImplemented
            it = it2
        if it.op != "iter":
            if it.ty is not None:
                it = opaque_iter(c, it)
            else:
                return NotImplemented
        if nm == "by_ref":
            return mk("iter", "byref", r)
        if nm == "next":
            return do_next(c, r, it)
        if nm == "next_back":
            return do_next(c, r, it, back=True)
        if nm == "nth":
            return consume(c, nm, it, r)
        ctx.left = None
        v = consume(c, nm, it, r)
        # what is left of the iterator afterwards
        ctx.write(r, ctx.left or mk("iter", "spent"))
        return v
    it = a0
    if it.op == "ref":
        it = mk("iter", "byref", it) if True else it
    if it.op == "adt":
        it2 = range_iter(c, it)
        if it2 is None:
            return NotImplemented
        it = it2
    if it.op != "iter":
        if it.ty is not None:
            it = opaque_iter(c, it)
        else:
            return NotImplemented
    if nm in ADAPT1:
        return mk("iter", nm, it, c.a[1])
    if nm == "rev":
        return mk("iter", "rev", it)
    if nm in ("cloned", "copied"):
        return mk("iter", "cloned", it)
    if nm == "enumerate":
        return mk("iter", "enumerate", it, t.ZERO)
    if nm == "zip":
        return mk("iter", "zip", it, to_iter(c, c.a[1]))
    if nm == "chain":
        return mk("iter", "chain", it, to_iter(c, c.a[1]))
    if nm == "skip":
        return iter_skip(c, it, c.v(1))
    if nm == "take":
        n = iter_len(ctx, it)
        if n is None:
            return mk("iter", "take", it, c.v(1))
        k = t.imin(n, c.v(1))
        return iter_slice(ctx, it, t.ZERO, k) or mk("iter", "take", it, c.v(1))
    if nm in ("peekable", "fuse", "into_iter", "iter"):
        return it
    if nm == "flatten":
        return mk("iter", "flatten", it)
    if nm == "size_hint":
        return c.opq("size_hint")
    if nm == "len":
        n = iter_len(ctx, it)
        if n is None:
            raise Undecided("len of iterator")
        return n
    if nm == "step_by":
        return step_by(c, it, c.v(1))
    if nm == "scan":
        return mk("iter", "scan", it, ctx.ref_to(c.a[1]), c.a[2])
    if nm in CONSUME:
        return consume(c, nm, it, None)
    return NotImplemented


def opaque_iter(c, v):
    return mk("iter", "seq", v, t.ZERO, seqlen(v), "val")


# random access view -------------------------------------------------
def iter_len(ctx, it):
    k = it.a[0]
    if k in ("seq", "mut"):
        return psub(it.a[3], it.a[2])
    if k in ("map", "rev", "cloned", "enumerate", "inspect"):
        return iter_len(ctx, it.a[1])
    if k == "zip":
        a, b = iter_len(ctx, it.a[1]), iter_len(ctx, it.a[2])
        return None if a is None or b is None else t.imin(a, b)
    if k == "chain":
        a, b = iter_len(ctx, it.a[1]), iter_len(ctx, it.a[2])
        return None if a is None or b is None else padd(a, b)
    return None


def iter_slice(ctx, it, lo, hi):
    """sub-iterator [lo, hi) of a random access iterator"""
    k = it.a[0]
    if k == "seq":
        return mk("iter", "seq", it.a[1], padd(it.a[2], lo), padd(it.a[2], hi), it.a[4])
    if k == "mut":
        return mk("iter", "mut", it.a[1], padd(it.a[2], lo), padd(it.a[2], hi), it.a[4])
    if k in ("map", "cloned", "inspect"):
        s = iter_slice(ctx, it.a[1], lo, hi)
        return None if s is None else mk("iter", k, s, *it.a[2:])
    if k == "enumerate":
        s = iter_slice(ctx, it.a[1], lo, hi)
        return None if s is None else mk("iter", k, s, padd(it.a[2], lo))
    if k == "rev":
        n = iter_len(ctx, it.a[1])
        if n is None:
            return None
        s = iter_slice(ctx, it.a[1], psub(n, hi), psub(n, lo))
        return None if s is None else mk("iter", "rev", s)
    if k == "zip":
        a, b = iter_slice(ctx, it.a[1], lo, hi), iter_slice(ctx, it.a[2], lo, hi)
        return None if a is None or b is None else mk("iter", "zip", a, b)
    return None


def step_by(c, it, k):
    """every k-th item"""
    ctx = c.ctx
    ctx.canpanic(c.site, "step_by(0)", t.lt(t.ZERO, k))
    if it.a[0] in ("map", "cloned"):
        return mk("iter", it.a[0], step_by(c, it.a[1], k), *it.a[2:])
    if it.a[0] != "seq":
        raise Undecided("step_by over %s" % it.a[0])
    s, lo, hi, mode = it.a[1:5]
    n = t.fdiv(padd(psub(hi, lo), psub(k, t.ONE)), k)
    v = mk("lv_k", "step")
    return seq_iter(w.mapseq(n, close(seq_item(s, padd(lo, t.pmul(A(v), k)), mode), v)), "val", n)


def iter_skip(c, it, k):
    n = iter_len(c.ctx, it)
    if n is None:
        return mk("iter", "skip", it, k)
    if c.ctx.branch(t.le(k, n)):
        r = iter_slice(c.ctx, it, k, n)
    else:
        r = iter_slice(c.ctx, it, n, n)
    return r if r is not None else mk("iter", "skip", it, k)


def seq_item(s, i, mode):
    if s.op == "nat":
        return i
    ety = None
    if mode == "bag":
        # (&K, &T)
        p = mkat(s, i, store_elem(I.value_type(s)))
        return mktup(refval(mkfld(p, 0, 0)), refval(mkfld(p, 0, 1)))
    x = mkat(s, i)
    return refval(x) if mode == "ref" else x


def raw_next(ctx, prog, it, back=False):
    """-> (item, it') ; None when exhausted.  Forks on emptiness."""
    k = it.a[0]
    if k == "seq":
        s, f, b, mode = it.a[1:5]
        if not ctx.branch(t.lt(f, b)):
            return None, it
        if back:
            b2 = psub(b, t.ONE)
            return seq_item(s, b2, mode), mk("iter", "seq", s, f, b2, mode)
        return seq_item(s, f, mode), mk("iter", "seq", s, padd(f, t.ONE), b, mode)
    if k == "mut":
        r, f, b, et = it.a[1:5]
        if not ctx.branch(t.lt(f, b)):
            return None, it
        if back:
            b2 = psub(b, t.ONE)
            return mk("ref", r.a[0], r.a[1] + (("i", b2, et),)), mk("iter", "mut", r, f, b2, et)
        return mk("ref", r.a[0], r.a[1] + (("i", f, et),)), mk("iter", "mut", r, padd(f, t.ONE), b, et)
    if k == "byref":
        inner = ctx.deref(it.a[1])
        if inner.op == "adt":
            raise Undecided("by_ref over a range")
        x, i2 = raw_next(ctx, prog, inner, back)
        ctx.write(it.a[1], i2)
        return x, it
    if k == "rev":
        x, i2 = raw_next(ctx, prog, it.a[1], not back)
        return x, mk("iter", "rev", i2)
    if k == "map":
        x, i2 = raw_next(ctx, prog, it.a[1], back)
        i2 = mk("iter", "map", i2, it.a[2])
        if x is None:
            return None, i2
        decide_guard(ctx)
        return prog.call_value(ctx, it.a[2], [x]), i2
    if k == "inspect":
        x, i2 = raw_next(ctx, prog, it.a[1], back)
        i2 = mk("iter", "inspect", i2, it.a[2])
        if x is not None:
            prog.call_value(ctx, it.a[2], [refval(x)])
        return x, i2
    if k == "cloned":
        x, i2 = raw_next(ctx, prog, it.a[1], back)
        i2 = mk("iter", "cloned", i2)
        return (None if x is None else ctx.deref(x)), i2
    if k == "enumerate":
        if back:
            n = iter_len(ctx, it.a[1])
            if n is None:
                raise Undecided("reverse enumerate")
            x, i2 = raw_next(ctx, prog, it.a[1], True)
            i2 = mk("iter", "enumerate", i2, it.a[2])
            return (None if x is None else mktup(padd(it.a[2], psub(n, t.ONE)), x)), i2
        x, i2 = raw_next(ctx, prog, it.a[1])
        if x is None:
            return None, mk("iter", "enumerate", i2, it.a[2])
        return mktup(it.a[2], x), mk("iter", "enumerate", i2, padd(it.a[2], t.ONE))
    if k == "zip":
        x, i2 = raw_next(ctx, prog, it.a[1], back)
        if x is None:
            return None, mk("iter", "zip", i2, it.a[2])
        y, j2 = raw_next(ctx, prog, it.a[2], back)
        if y is None:
            return None, mk("iter", "zip", i2, j2)
        return mktup(x, y), mk("iter", "zip", i2, j2)
    if k == "chain":
        first, second = (1, 2) if not back else (2, 1)
        x, i2 = raw_next(ctx, prog, it.a[first], back)
        a = [None, it.a[1], it.a[2]]
        a[first] = i2
        if x is not None:
            return x, mk("iter", "chain", a[1], a[2])
        y, j2 = raw_next(ctx, prog, it.a[second], back)
        a[second] = j2
        return y, mk("iter", "chain", a[1], a[2])
    if k == "take":
        if not ctx.branch(t.lt(t.ZERO, it.a[2])):
            return None, it
        x, i2 = raw_next(ctx, prog, it.a[1], back)
        return x, mk("iter", "take", i2, psub(it.a[2], t.ONE))
    if k == "take_while":
        x, i2 = raw_next(ctx, prog, it.a[1])
        i2 = mk("iter", "take_while", i2, it.a[2])
        if x is None:
            return None, i2
        if truth(ctx, prog.call_value(ctx, it.a[2], [refval(x)])):
            return x, i2
        return None, seq_iter(mkseq([]), "val")
    if k == "map_while":
        x, i2 = raw_next(ctx, prog, it.a[1])
        i2 = mk("iter", "map_while", i2, it.a[2])
        if x is None:
            return None, i2
        o = prog.call_value(ctx, it.a[2], [x])
        if ctx.branch(isvar(ctx.whnf(o), 1)):
            return mkfld(o, 1, 0), i2
        return None, seq_iter(mkseq([]), "val")
    if k == "scan":
        if back:
            raise Undecided("scan from the back")
        x, i2 = raw_next(ctx, prog, it.a[1])
        i2 = mk("iter", "scan", i2, it.a[2], it.a[3])
        if x is None:
            return None, i2
        o = ctx.whnf(prog.call_value(ctx, it.a[3], [it.a[2], x]))
        if ctx.branch(isvar(o, 1)):
            return mkfld(o, 1, 0), i2
        return None, seq_iter(mkseq([]), "val")
    if k == "succ" and not back:
        o = ctx.whnf(it.a[1])
        if not ctx.branch(isvar(o, 1)):
            return None, it
        x = mkfld(o, 1, 0)
        return x, mk("iter", "succ", prog.call_value(ctx, it.a[2], [ctx.ref_to(x)]), it.a[2])
    if k == "fromfn" and not back:
        o = ctx.whnf(prog.call_value(ctx, it.a[1], []))
        return (mkfld(o, 1, 0) if ctx.branch(isvar(o, 1)) else None), it
    if k in ("filter", "filter_map", "flatten"):
        L = getattr(ctx, "in_guard", None)
        n = iter_len(ctx, pre_filter(it))
        while True:
            x, i2 = raw_next(ctx, prog, it.a[1], back)
            it = mk("iter", k, i2, *it.a[2:])
            if x is None:
                return None, it
            if k == "flatten":
                o = as_option(ctx, x)
                if o is None:
                    raise Undecided("next() on a flattened iterator")
                if ctx.branch(isvar(o[0], 1)):
                    return o[1], it
            elif k == "filter":
                if truth(ctx, prog.call_value(ctx, it.a[2], [refval(x)])):
                    return x, it
            else:
                o = ctx.whnf(prog.call_value(ctx, it.a[2], [x]))
                if ctx.branch(isvar(o, 1)):
                    return mkfld(o, 1, 0), it
            if L is not None:
                # rejected element of a filtered for-loop: same as `continue`
                ctx.skip_iter = it
                raise SkipIteration(it)
            if not is_const(n if n is not None else A(mk("sym", "?"))):
                raise Undecided("next() on a filtered iterator of unknown length")
    raise Undecided("next() on iterator adapter %s" % k)


def pre_filter(it):
    while it.a[0] in ("filter", "filter_map", "flatten", "map", "inspect", "cloned", "rev"):
        it = it.a[1]
    return it


def as_option(ctx, x):
    """(the option, its payload as `flatten` yields it) when the item is an Option"""
    x = ctx.whnf(x)
    byref = x.op == "ref"
    o = ctx.whnf(ctx.deref(x)) if byref else x
    d = I.value_type(o)
    if d is None or ctx.prog.w.adt_path(d) != "core::option::Option":
        return None
    v = mkfld(o, 1, 0)
    return o, (refval(v) if byref else v)


class SkipIteration(Exception):
    def __init__(self, it):
        self.it = it


def truth(ctx, b):
    return ctx.branch(b)


def decide_guard(ctx):
    pass


def do_next(c, r, it, back=False):
    ctx = c.ctx
    try:
        x, i2 = raw_next(ctx, c.prog, it, back)
    except SkipIteration as e:
        ctx.write(r, e.it)
        L = ctx.in_guard
        if L[2] == "body":
            raise I.BackEdge()
        raise Infeasible()
    if it.a[0] == "byref":
        pass
    ctx.write(r, i2)
    if x is None:
        return c.none()
    return c.some(x)


# consumers ----------------------------------------------------------
def base_of(it):
    """(random-access base, stages) for internal iteration"""
    stages = []
    while True:
        k = it.a[0]
        if k in ("filter", "filter_map", "flat_map", "map", "inspect", "cloned", "skip_while", "flatten"):
            if k in ("cloned", "flatten"):
                stages.append((k, None))
            else:
                stages.append((k, it.a[2]))
            it = it.a[1]
        else:
            break
    stages.reverse()
    return it, stages


def drive(ctx, prog, it, cb, what, back=False):
    """run cb(ctx, item) -> go on?  for every item; a synthetic loop"""
    from . import loops
    base, stages = base_of(it)
    cell = ctx.alloc(base)
    stt = ctx.alloc(TRUE)     # still skipping (skip_while)

    def body(c2):
        x, i2 = raw_next(c2, prog, c2.mem[cell], back)
        if x is None:
            loops.decided(c2)
            return False
        c2.mem[cell] = i2
        loops.decided(c2)
        return stage(c2, 0, x)

    def stage(c2, i, x):
        if i == len(stages):
            return cb(c2, x)
        k, f = stages[i]
        if k == "map":
            return stage(c2, i + 1, prog.call_value(c2, f, [x]))
        if k == "cloned":
            return stage(c2, i + 1, c2.deref(x))
        if k == "inspect":
            prog.call_value(c2, f, [refval(x)])
            return stage(c2, i + 1, x)
        if k == "filter":
            if c2.branch(prog.call_value(c2, f, [refval(x)])):
                return stage(c2, i + 1, x)
            return True
        if k == "filter_map":
            o = c2.whnf(prog.call_value(c2, f, [x]))
            if c2.branch(isvar(o, 1)):
                return stage(c2, i + 1, mkfld(o, 1, 0))
            return True
        if k == "skip_while":
            if c2.branch(c2.mem[stt]):
                if c2.branch(prog.call_value(c2, f, [refval(x)])):
                    return True
                c2.mem[stt] = FALSE
            return stage(c2, i + 1, x)
        if k == "flatten":
            o = as_option(c2, x)
            if o is not None:
                if c2.branch(isvar(o[0], 1)):
                    return stage(c2, i + 1, o[1])
                return True
        if k in ("flat_map", "flatten"):
            inner = prog.call_value(c2, f, [x]) if k == "flat_map" else x
            inner = inner if inner.op == "iter" else to_iter_ctx(c2, prog, inner)
            go = c2.alloc(TRUE)

            def cb2(c3, y):
                g = stage(c3, i + 1, y)
                if not g:
                    c3.mem[go] = FALSE
                return g
            drive(c2, prog, inner, cb2, what + "/flat")
            return c2.branch(c2.mem[go])
        raise Undecided("iterator stage %s" % k)
    loops.run_loop(ctx, body, what)
    rest = ctx.mem.pop(cell, None)
    ctx.left = rest if not stages else None
    ctx.mem.pop(stt, None)


def to_iter_ctx(ctx, prog, v):
    c = Call(prog, ctx, None, {"path": "into_iter", "local": False}, [v], None, None, "")
    return to_iter(c, v)


def collect_seq(ctx, it):
    """the sequence of items"""
    prog = ctx.prog
    k = it.a[0]
    if k == "seq" and it.a[1].op != "nat":
        s, f, b, mode = it.a[1:5]
        if mode == "val":
            return w.mksub(s, f, b)
    if k == "cloned":
        inner = it.a[1]
        if inner.a[0] == "seq" and inner.a[4] == "ref":
            return w.mksub(inner.a[1], inner.a[2], inner.a[3])
    cell = ctx.alloc(mkseq([]))

    def cb(c2, x):
        c2.mem[cell] = push_seq(c2.mem[cell], prog.freeze(c2, x))
        return True
    drive(ctx, prog, it, cb, "collect@" + where(ctx))
    r = ctx.mem.pop(cell)
    return r


def where(ctx):
    return ctx.prog.w.fns[ctx.stackd[-1]]["path"] if ctx.stackd else "?"


def consume(c, nm, it, r):
    ctx, prog, W = c.ctx, c.prog, c.W

    def done():
        pass
    if nm == "collect":
        d = c.dty()
        p = W.adt_path(d)
        if W.is_seq(d) or p == "alloc::boxed::Box":
            return collect_seq(ctx, it)
        if p in ("core::result::Result", "core::option::Option"):
            return collect_try(c, it, d, p)
        s = collect_seq(ctx, it)
        if p and ("HashSet" in p or "HashMap" in p or "BTree" in p):
            return mk("hset", s, ty=d)
        return mk("app", "collect", s, ty=d)
    if nm == "fold":
        acc = ctx.alloc(c.a[1], c.dest)
        f = c.a[2]

        def cb(c2, x):
            c2.mem[acc] = prog.call_value(c2, f, [c2.mem[acc], x])
            return True
        drive(ctx, prog, it, cb, "fold@" + where(ctx))
        return ctx.mem.pop(acc)
    if nm == "for_each":
        f = c.a[1]

        def cb(c2, x):
            prog.call_value(c2, f, [x])
            return True
        drive(ctx, prog, it, cb, "for_each@" + where(ctx))
        return UNIT
    if nm in ("any", "all"):
        f = c.a[1]
        res = ctx.alloc(FALSE)

        def cb(c2, x):
            b = c2.branch(prog.call_value(c2, f, [x]))
            if b == (nm == "any"):
                c2.mem[res] = TRUE
                return False
            return True
        drive(ctx, prog, it, cb, nm + "@" + where(ctx))
        v = ctx.mem.pop(res)
        return v if nm == "any" else t.bnot(v)
    if nm in ("find", "find_map", "position", "rposition", "rfind"):
        f = c.a[1]
        d = c.dty()
        res = ctx.alloc(mk("adt", d, 0), d)
        cnt = ctx.alloc(t.ZERO)
        n = iter_len(ctx, it) if nm == "rposition" else None

        def cb(c2, x):
            if nm == "find_map":
                o = c2.whnf(prog.call_value(c2, f, [x]))
                if c2.branch(isvar(o, 1)):
                    c2.mem[res] = mkadt(d, 1, mkfld(o, 1, 0))
                    return False
            else:
                if c2.branch(prog.call_value(c2, f, [refval(x)] if nm in ("find", "rfind") else [x])):
                    v = x if nm in ("find", "rfind") else c2.mem[cnt]
                    if nm == "rposition":
                        v = psub(psub(n, t.ONE), c2.mem[cnt])
                    c2.mem[res] = mkadt(d, 1, v)
                    return False
            c2.mem[cnt] = padd(c2.mem[cnt], t.ONE)
            return True
        drive(ctx, prog, it, cb, nm + "@" + where(ctx), back=nm in ("rposition", "rfind"))
        ctx.mem.pop(cnt)
        return ctx.mem.pop(res)
    if nm in ("max", "min", "sum", "product"):
        d = c.dty()
        if nm == "sum":
            acc = ctx.alloc(t.ZERO, d)
            lo, hi = W.irange(d)

            def cb(c2, x):
                v = deep(c2, x)
                if v.op != "poly":
                    raise Undecided("sum of %s" % t.show(v)[:50])
                r2 = padd(c2.mem[acc], v)
                c2.canpanic(where(c2), "overflow sum", t.band(t.le(C(lo), r2), t.le(r2, C(hi))))
                c2.mem[acc] = r2
                return True
            drive(ctx, prog, it, cb, "sum@" + where(ctx))
            return ctx.mem.pop(acc)
        if nm == "product":
            raise Undecided("product")
        x0, i2 = raw_next(ctx, prog, it)
        if x0 is None:
            return c.none()
        isref = x0.op == "ref"
        v0 = deep(ctx, x0)
        if v0.op == "poly":
            acc = ctx.alloc(v0)
            f = t.imax if nm == "max" else t.imin

            def cb(c2, x):
                c2.mem[acc] = f(c2.mem[acc], deep(c2, x))
                return True
            drive(ctx, prog, i2, cb, nm + "@" + where(ctx))
            v = ctx.mem.pop(acc)
            return c.some(refval(v) if isref else v)
        if v0.op != "tup":
            raise Undecided("max of non-integers")
        return extreme(c, i2, x0, nm, lambda c2, x: deep(c2, x), None)
    if nm in ("max_by_key", "min_by_key", "max_by", "min_by"):
        x0, i2 = raw_next(ctx, prog, it)
        if x0 is None:
            return c.none()
        f = c.a[1]
        if nm.endswith("key"):
            return extreme(c, i2, x0, nm, lambda c2, x: strip(c2.whnf(prog.call_value(c2, f, [c2.ref_to(x)]))), None)
        return extreme(c, i2, x0, nm, None, lambda c2, x, y: before_by(c2, prog, f, x, y))
    if nm == "eq":
        def vals(i):
            if i.a[0] == "seq" and i.a[1].op != "nat" and i.a[4] == "ref":
                return w.mksub(i.a[1], i.a[2], i.a[3])
            return collect_seq(ctx, i)
        return mkeq(vals(it), vals(to_iter(c, c.a[1])))
    if nm == "partition":
        f = c.a[1]
        d = W.types[c.dty()]["elems"]
        if not all(W.is_seq(x) for x in d):
            raise Undecided("partition into %s" % W.types[d[0]]["s"])
        cells = [ctx.alloc(mkseq([])), ctx.alloc(mkseq([]))]

        def cb(c2, x):
            i = 0 if c2.branch(prog.call_value(c2, f, [refval(x)])) else 1
            c2.mem[cells[i]] = push_seq(c2.mem[cells[i]], prog.freeze(c2, x))
            return True
        drive(ctx, prog, it, cb, "partition@" + where(ctx))
        return mktup(*[ctx.mem.pop(x) for x in cells])
    if nm == "count":
        n = iter_len(ctx, it)
        if n is not None:
            return n
        acc = ctx.alloc(t.ZERO)

        def cb(c2, x):
            c2.mem[acc] = padd(c2.mem[acc], t.ONE)
            return True
        drive(ctx, prog, it, cb, "count@" + where(ctx))
        return ctx.mem.pop(acc)
    if nm == "last":
        n = iter_len(ctx, it)
        if n is not None:
            x, _ = raw_next(ctx, prog, it, True)
            return c.none() if x is None else c.some(x)
        d = c.dty()
        res = ctx.alloc(mk("adt", d, 0), d)

        def cb(c2, x):
            c2.mem[res] = mkadt(d, 1, x)
            return True
        drive(ctx, prog, it, cb, "last@" + where(ctx))
        return ctx.mem.pop(res)
    if nm == "nth":
        n = iter_len(ctx, it)
        k = c.v(1)
        if n is None:
            raise Undecided("nth")
        if not ctx.branch(t.lt(k, n)):
            if r is not None:
                ctx.write(r, iter_slice(ctx, it, n, n))
            return c.none()
        s = iter_slice(ctx, it, k, n)
        x, i2 = raw_next(ctx, prog, s)
        if r is not None:
            ctx.write(r, i2)
        return c.some(x)
    if nm == "reduce":
        x0, i2 = raw_next(ctx, prog, it)
        if x0 is None:
            return c.none()
        from . import loops
        loops.decided(ctx)
        acc = ctx.alloc(x0)
        f = c.a[1]

        def cb(c2, x):
            c2.mem[acc] = prog.call_value(c2, f, [c2.mem[acc], x])
            return True
        drive(ctx, prog, i2, cb, "reduce@" + where(ctx))
        return c.some(ctx.mem.pop(acc))
    if nm in ("try_fold", "try_for_each"):
        return try_fold(c, nm, it, r)
    if nm == "unzip":
        s = collect_seq(ctx, it)
        n = seqlen(s)
        v = mk("lv_k", "unzip")
        return mktup(w.mapseq(n, close(mkfld(mkat(s, A(v)), 0, 0), v)), w.mapseq(n, close(mkfld(mkat(s, A(v)), 0, 1), v)))
    raise Undecided("iterator consumer %s" % nm)


def before_by(ctx, prog, f, x, y):
    """does the comparator put x strictly before y?"""
    o = ctx.whnf(prog.call_value(ctx, f, [ctx.ref_to(x), ctx.ref_to(y)]))
    if o.op == "adt":
        return o.a[1] == 0
    return ctx.branch(w.isvar(o, 0))


def extreme(c, it, x0, nm, key, less):
    """the greatest (the last of equals) or least (the first) item"""
    ctx, prog = c.ctx, c.prog
    from . import loops
    loops.decided(ctx)
    if less is None:
        def less(c2, x, y):
            return key_lt(c2, key(c2, x), key(c2, y))
    acc = ctx.alloc(x0)

    def cb(c2, x):
        m = c2.mem[acc]
        if nm.startswith("max"):
            take = not less(c2, x, m)
        else:
            take = less(c2, x, m)
        if take:
            c2.mem[acc] = x
        return True
    drive(ctx, prog, it, cb, nm + "@" + where(ctx))
    return c.some(ctx.mem.pop(acc))


def collect_try(c, it, d, p):
    """collect into Result<Vec, E> / Option<Vec>"""
    ctx, prog, W = c.ctx, c.prog, c.W
    ok = 0 if p.endswith("Result") else 1
    buf = ctx.alloc(mkseq([]))
    res = ctx.alloc(mk("adt", d, 1 - ok, *([UNDEF] if p.endswith("Result") else [])), d)
    bad = ctx.alloc(FALSE)

    def cb(c2, x):
        x = c2.whnf(x)
        if c2.branch(isvar(x, ok)):
            c2.mem[buf] = push_seq(c2.mem[buf], prog.freeze(c2, mkfld(x, ok, 0)))
            return True
        c2.mem[bad] = TRUE
        if p.endswith("Result"):
            c2.mem[res] = mk("adt", d, 1, mkfld(x, 1, 0))
        return False
    drive(ctx, prog, it, cb, "collect@" + where(ctx))
    if ctx.branch(ctx.mem.pop(bad)):
        return ctx.mem.pop(res)
    return mkadt(d, ok, ctx.mem.pop(buf))


def try_fold(c, nm, it, r):
    ctx, prog, W = c.ctx, c.prog, c.W
    d = c.dty()
    p = W.adt_path(d)
    if p not in ("core::result::Result", "core::option::Option"):
        raise Undecided("try_fold into %s" % p)
    ok = 0 if p.endswith("Result") else 1
    acc = ctx.alloc(c.a[1] if nm == "try_fold" else UNIT)
    f = c.a[2] if nm == "try_fold" else c.a[1]
    res = ctx.alloc(mk("adt", d, 1 - ok, *([UNDEF] if ok == 0 else [])), d)
    bad = ctx.alloc(FALSE)

    def cb(c2, x):
        o = c2.whnf(prog.call_value(c2, f, [c2.mem[acc], x] if nm == "try_fold" else [x], d))
        if c2.branch(isvar(o, ok)):
            c2.mem[acc] = mkfld(o, ok, 0)
            return True
        c2.mem[bad] = TRUE
        c2.mem[res] = o
        return False
    drive(ctx, prog, it, cb, nm + "@" + where(ctx))
    if ctx.branch(ctx.mem.pop(bad)):
        return ctx.mem.pop(res)
    return mkadt(d, ok, ctx.mem.pop(acc))


# ---------------------------------------------------------------- klavier_helper stores
STORE = "klavier_helper::store::Store"
BAG = "klavier_helper::bag_store::BagStore"
_se = {}


def store_elem(ty):
    """tuple type (K, T) of a store"""
    if ty is None:
        return None
    W = w.W
    x = W.types[ty]
    if x["k"] != "adt" or x["path"] not in (STORE, BAG):
        return None
    r = _se.get((id(W), ty))
    if r is None:
        K, V = x["args"][0], x["args"][1]
        s = "(%s, %s)" % (W.types[K]["s"], W.types[V]["s"])
        r = W.tyid.get(s)
        if r is None:
            W.types.append({"s": s, "k": "tuple", "elems": [K, V]})
            r = len(W.types) - 1
            W.tyid[s] = r
        _se[(id(W), ty)] = r
    return r


def mkstore(base, ops):
    if base.op == "store":
        return mkstore(base.a[0], mkseq([base.a[1], ops]))
    if ops.op == "seq" and not ops.a:
        return base
    return mk("store", base, ops, ty=base.ty if base.op != "adt" else base.a[0])


@t.reb("store")
def _(a, ty):
    return mkstore(a[0], a[1])


def op_add(k, v, m):
    return mk("op", "add", k, v, m)


def op_rem(k, v):
    return mk("op", "rem", k, v)


def st_has(s, k):
    return mk("app", "st.has", s, k)


def st_upper(s, k):
    """number of entries with key <= k"""
    return A(mk("st.upper", s, k))


def stref(c):
    r, s = vecref(c)
    return r, s


# A store whose entries are all known is a literal sequence of (key, value) pairs in
# key order; operations on it are carried out exactly, forking on key comparisons.
# Any other store is its base and the sequence of operations applied to it.
def lit(s):
    """entries of a store with known entries, or None"""
    if s.op == "emptystore":
        return []
    if s.op == "seq" and all(x.op == "it" for x in s.a):
        return [x.a[0] for x in s.a]
    return None


def entry(k, v):
    return mktup(k, v)


def lfind(ctx, es, k):
    """(found, index) of a key among the known entries of a Store"""
    for i, e in enumerate(es):
        ek = mkfld(e, 0, 0)
        if ctx.branch(t.ieq(ek, k)):
            return True, i
        if ctx.branch(t.lt(k, ek)):
            return False, i
    return False, len(es)


def ladd(ctx, es, k, v):
    """(entries, displaced)"""
    f, i = lfind(ctx, es, k)
    if f:
        return es[:i] + [entry(k, v)] + es[i + 1:], mkfld(es[i], 0, 1)
    return es[:i] + [entry(k, v)] + es[i:], None


def lrem(ctx, es, k):
    f, i = lfind(ctx, es, k)
    return (es[:i] + es[i + 1:], es[i]) if f else (es, None)


def lbadd(ctx, es, k, v):
    i = 0
    while i < len(es) and not ctx.branch(t.lt(k, mkfld(es[i], 0, 0))):
        i += 1
    return es[:i] + [entry(k, v)] + es[i:]


def veq(c, a, b, W=None):
    """values are equal by the element type's own equality"""
    ctx, prog = c.ctx, c.prog
    a, b = deep(ctx, a), deep(ctx, b)
    if a is b:
        return TRUE
    x = b if I.value_type(b) is not None else a
    if structural(prog, x):
        return mkeq(a, b)
    p = prog.w.types[prog.w.peel(I.value_type(x))]["path"]
    return prog.call(ctx, prog.fid("<%s as core::cmp::PartialEq>::eq" % p), [refval(a), refval(b)], None, prog.w.tyid["bool"], c.site)


def lbrem(c, es, k, v):
    """(entries, removed value): the first entry under the key equal to v"""
    ctx = c.ctx
    for i, e in enumerate(es):
        if ctx.branch(t.ieq(mkfld(e, 0, 0), k)):
            if ctx.branch(veq(c, mkfld(e, 0, 1), v)):
                return es[:i] + es[i + 1:], mkfld(e, 0, 1)
        elif ctx.branch(t.lt(k, mkfld(e, 0, 0))):
            break
    return es, None


def lseq(es):
    return mkseq([w.item(e) for e in es])


def recs_of(ctx, s):
    """records of a literal list, or None"""
    s = ctx.whnf(s)
    if s.op == "seq" and all(x.op == "it" for x in s.a):
        return [deep(ctx, x.a[0]) for x in s.a]
    return None


def storeev(c, s, kind, *vals):
    """operation observed on a store with known entries"""
    c.ctx.event("store", kind, *vals)


def optional(c, d, x):
    return mk("adt", d, 0) if x is None else mkadt(d, 1, x)


@pattern(r"^klavier_helper::(store::Store|bag_store::BagStore)::<K, T, M>::(new|with_capacity)$")
def _(c):
    return mk("emptystore", ty=c.dty())


@pattern(r"^klavier_helper::store::Store::<K, T, M>::add$")
def _(c):
    r, s = stref(c)
    k, v, m = c.v(1), c.prog.freeze(c.ctx, c.a[2]), c.prog.freeze(c.ctx, c.a[3])
    d = c.dty()
    es = lit(s)
    if es is not None:
        es, old = ladd(c.ctx, es, k, v)
        c.ctx.write(r, lseq(es))
        storeev(c, s, "add", k, v, m)
        return optional(c, d, old)
    c.ctx.write(r, mkstore(s, w.seq_of(op_add(k, v, m))))
    return t.ite(st_has(s, k), mkadt(d, 1, opq("app", "st.get", s, k, ty=c.W.types[d]["args"][0])), mk("adt", d, 0))


@pattern(r"^klavier_helper::store::Store::<K, T, M>::remove$")
def _(c):
    r, s = stref(c)
    k = c.v(1)
    d = c.dty()
    es = lit(s)
    if es is not None:
        es, old = lrem(c.ctx, es, k)
        c.ctx.write(r, lseq(es))
        storeev(c, s, "rem", k)
        return optional(c, d, old)
    c.ctx.write(r, mkstore(s, w.seq_of(op_rem(k, UNIT))))
    pt = c.W.types[d]["args"][0]
    return t.ite(st_has(s, k), mkadt(d, 1, mktup(k, opq("app", "st.get", s, k, ty=c.W.types[pt]["elems"][1]))), mk("adt", d, 0))


@pattern(r"^klavier_helper::bag_store::BagStore::<K, T, M>::add$")
def _(c):
    r, s = stref(c)
    k, v, m = c.v(1), c.prog.freeze(c.ctx, c.a[2]), c.prog.freeze(c.ctx, c.a[3])
    es = lit(s)
    if es is not None:
        c.ctx.write(r, lseq(lbadd(c.ctx, es, k, v)))
        storeev(c, s, "add", k, v, m)
        return UNIT
    c.ctx.write(r, mkstore(s, w.seq_of(op_add(k, v, m))))
    return UNIT


@pattern(r"^klavier_helper::bag_store::BagStore::<K, T, M>::remove$")
def _(c):
    r, s = stref(c)
    k, v = c.v(1), deep(c.ctx, c.a[2])
    es = lit(s)
    if es is not None:
        es, old = lbrem(c, es, k, v)
        c.ctx.write(r, lseq(es))
        storeev(c, s, "rem", k)
        return optional(c, c.dty(), old)
    c.ctx.write(r, mkstore(s, w.seq_of(op_rem(k, v))))
    return c.opq("st.removed", s, k, v)


def ops_of(c, recs, f):
    """sequence of operations for the records"""
    from .loops import flatseq
    n = seqlen(recs)
    v = mk("lv_k", "ops")
    et = w._guess_elem(recs)
    e = mkat(recs, A(v), et)
    return flatseq(n, close(w.seq_of(f(e)), v))


def pair(e):
    return mkfld(e, 0, 0), mkfld(e, 0, 1)


def drefs(ctx, x):
    while x.op == "ref":
        x = ctx.load(x.a[0], x.a[1])
    return x


def strip(x):
    while x.op == "ref" and isinstance(x.a[0], T) and not x.a[1]:
        x = x.a[0].a[0]
    return x


def litops(c, s, recs):
    """(entries, records) when both are known"""
    es = lit(s)
    if es is None:
        return None, None
    rs = recs_of(c.ctx, recs)
    return (es, rs) if rs is not None else (None, None)


@pattern(r"^klavier_helper::(store::Store|bag_store::BagStore)::<K, T, M>::bulk_add$")
def _(c):
    r, s = stref(c)
    recs = deep(c.ctx, c.a[1])
    m = c.prog.freeze(c.ctx, c.a[2])
    bag = "BagStore" in c.m["path"]
    es, rs = litops(c, s, recs)
    if es is not None:
        out = []
        for e in rs:
            k, v = strip(pair(e)[0]), strip(pair(e)[1])
            if bag:
                es = lbadd(c.ctx, es, k, v)
            else:
                es, old = ladd(c.ctx, es, k, v)
                if old is not None:
                    out.append(entry(k, old))
            storeev(c, s, "add", k, v, m)
        c.ctx.write(r, lseq(es))
        return UNIT if bag else lseq(out)
    ops = ops_of(c, recs, lambda e: op_add(strip(pair(e)[0]), strip(pair(e)[1]), m))
    c.ctx.write(r, mkstore(s, ops))
    if bag:
        return UNIT
    return c.opq("st.displaced", s, ops)


@pattern(r"^klavier_helper::(store::Store|bag_store::BagStore)::<K, T, M>::bulk_remove$")
def _(c):
    r, s = stref(c)
    recs = c.v(1)
    bag = "BagStore" in c.m["path"]
    es, rs = litops(c, s, recs)
    if es is not None:
        out = []
        for e in rs:
            if bag:
                k = strip(pair(e)[0])
                es, old = lbrem(c, es, k, strip(pair(e)[1]))
                if old is not None:
                    out.append(entry(k, old))
            else:
                k = strip(e)
                es, old = lrem(c.ctx, es, k)
                if old is not None:
                    out.append(old)
            storeev(c, s, "rem", k)
        c.ctx.write(r, lseq(es))
        return lseq(out)
    if bag:
        ops = ops_of(c, recs, lambda e: op_rem(strip(pair(e)[0]), strip(pair(e)[1])))
    else:
        ops = ops_of(c, recs, lambda e: op_rem(strip(e), UNIT))
    c.ctx.write(r, mkstore(s, ops))
    return c.opq("st.removedall", s, ops)


@pattern(r"^klavier_helper::(store::Store|bag_store::BagStore)::<K, T, M>::change$")
def _(c):
    r, s = stref(c)
    recs = c.v(1)
    m = c.prog.freeze(c.ctx, c.a[2])
    bag = "BagStore" in c.m["path"]
    es, rs = litops(c, s, recs)
    if es is not None:
        todo, out = [], []
        for e in rs:
            fr, to = pair(e)
            fr, to = strip(fr), strip(to)
            if bag:
                es, old = lbrem(c, es, strip(pair(fr)[0]), strip(pair(fr)[1]))
            else:
                es, old = lrem(c.ctx, es, fr)
            if old is not None:
                todo.append((strip(pair(to)[0]), strip(pair(to)[1])))
        for k, v in todo:
            if bag:
                es = lbadd(c.ctx, es, k, v)
            else:
                es, old = ladd(c.ctx, es, k, v)
                if old is not None:
                    out.append(entry(k, old))
            storeev(c, s, "add", k, v, m)
        c.ctx.write(r, lseq(es))
        return UNIT if bag else lseq(out)

    def one(e):
        fr, to = pair(e)
        fr, to = strip(fr), strip(to)
        if bag:
            fk, fv = strip(pair(fr)[0]), strip(pair(fr)[1])
        else:
            fk, fv = fr, UNIT
        tk, tv = strip(pair(to)[0]), strip(pair(to)[1])
        return mk("op", "chg", fk, fv, tk, tv, m)
    ops = ops_of(c, recs, one)
    # all sources are taken out first: one atomic operation
    c.ctx.write(r, mkstore(s, w.seq_of(mk("op", "change", ops))))
    if bag:
        return UNIT
    return c.opq("st.displaced", s, w.seq_of(mk("op", "change", ops)))


@pattern(r"^klavier_helper::(store::Store|bag_store::BagStore)::<K, T, M>::(len|is_empty)$")
def _(c):
    s = c.v(0)
    n = seqlen(s) if s.op != "emptystore" else t.ZERO
    return n if c.m["path"].endswith("len") else t.le0(n)


@pattern(r"^klavier_helper::store::Store::<K, T, M>::(find|index)$")
def _(c):
    s = c.v(0)
    k = c.v(1)
    d = c.dty()
    ctx = c.ctx
    es = lit(s)
    if es is not None:
        f, i = lfind(ctx, es, k)
        return mkadt(d, 0 if f else 1, C(i))
    u = st_upper(s, k)
    n = seqlen(s)
    ctx.assume(t.le(u, n))
    ctx.assume(t.le(C(0), u))
    if ctx.branch(st_has(s, k)):
        ctx.assume(t.le(C(1), u))
        return mkadt(d, 0, psub(u, t.ONE))
    return mkadt(d, 1, u)


@pattern(r"^klavier_helper::store::Store::<K, T, M>::(just_before|just_after)$")
def _(c):
    s, k, ctx = c.v(0), c.v(1), c.ctx
    es = lit(s)
    if es is None:
        raise Undecided("store operation %s has no model" % c.m["path"])
    f, i = lfind(ctx, es, k)
    if c.m["path"].endswith("just_before") and not f:
        if i == 0:
            return seq_iter(mkseq([]), "ref")
        i -= 1
    return seq_iter(lseq(es[i:]), "ref")


def lrange(ctx, es, lo, hi):
    """indices of the entries with lo <= key < hi (either may be None)"""
    a, b = 0, len(es)
    if lo is not None:
        while a < len(es) and ctx.branch(t.lt(mkfld(es[a], 0, 0), lo)):
            a += 1
    if hi is not None:
        b = a
        while b < len(es) and ctx.branch(t.lt(mkfld(es[b], 0, 0), hi)):
            b += 1
    return a, b


@pattern(r"^klavier_helper::store::Store::<K, T, M>::range$")
def _(c):
    s, ctx = c.v(0), c.ctx
    es = lit(s)
    if es is None:
        raise Undecided("store operation %s has no model" % c.m["path"])
    lo, hi = keyrange(c, c.a[1])
    a, b = lrange(ctx, es, lo, hi)
    if a == b:
        a = b = 0
    return mktup(C(a), refval(lseq(es[a:b])))


def keyrange(c, rg):
    """(low, high exclusive) of a range of keys; None is unbounded"""
    rg = deep(c.ctx, rg)
    p = c.W.adt_path(I.value_type(rg))
    n = p.rsplit("::", 1)[1]
    f = lambda i: mkfld(rg, 0, i)
    r = {"Range": lambda: (f(0), f(1)), "RangeFrom": lambda: (f(0), None), "RangeTo": lambda: (None, f(0)), "RangeFull": lambda: (None, None),
         "RangeInclusive": lambda: (f(0), padd(f(1), t.ONE)), "RangeToInclusive": lambda: (None, padd(f(0), t.ONE))}.get(n)
    if r is None:
        raise Undecided("range %s" % p)
    return r()


@pattern(r"^klavier_helper::(store::Store|bag_store::BagStore)::<K, T, M>::(peek_last|head_entry_option)$")
def _(c):
    s = c.v(0)
    d = c.dty()
    last = c.m["path"].endswith("peek_last")
    bag = "BagStore" in c.m["path"]
    es = lit(s)
    if es is not None:
        if not es:
            return mk("adt", d, 0)
        e = es[-1 if last else 0]
        if not bag:
            return mkadt(d, 1, refval(e))
        k = mkfld(e, 0, 0)
        vec = [mkfld(x, 0, 1) for x in es if x is e or c.ctx.branch(t.ieq(mkfld(x, 0, 0), k))]
        return mkadt(d, 1, mktup(refval(k), refval(w.seq_of(*vec))))
    n = seqlen(s)
    if not c.ctx.branch(t.lt(C(0), n)):
        return mk("adt", d, 0)
    ix = psub(n, t.ONE) if last else t.ZERO
    if bag:
        # (&K, &Vec<T>) of the greatest key
        pt = c.W.types[d]["args"][0]
        es = c.W.types[pt]["elems"]
        return mkadt(d, 1, mktup(opq("app", "bag.lastkey", s, ty=es[0]), opq("app", "bag.lastvec", s, ty=es[1])))
    return mkadt(d, 1, refval(mkat(s, ix, store_elem(I.value_type(s)))))


def content(s):
    return mkseq([]) if s.op == "emptystore" else s


@pattern(r"^klavier_helper::store::Store::<K, T, M>::(iter|as_ref)$")
def _(c):
    return seq_iter(content(c.v(0)), "ref")


@pattern(r"^klavier_helper::bag_store::BagStore::<K, T, M>::iter$")
def _(c):
    return seq_iter(content(c.v(0)), "bag")


@pattern(r"^klavier_helper::bag_store::BagStore::<K, T, M>::range$")
def _(c):
    s = c.v(0)
    es = lit(s)
    if es is not None:
        lo, hi = keyrange(c, c.a[1])
        a, b = lrange(c.ctx, es, lo, hi)
        return seq_iter(lseq(es[a:b]), "bag")
    rg = c.prog.freeze(c.ctx, deep(c.ctx, c.a[1]))
    return seq_iter(mk("app", "bag.range", s, rg, ty=I.value_type(s)), "bag")


@pattern(r"^klavier_helper::(store::Store|bag_store::BagStore)::<K, T, M>::clear_events$")
def _(c):
    r, s = stref(c)
    ctx = c.ctx
    ctx.event("clear_events", s)
    return UNIT


@pattern(r"^klavier_helper::(store::Store|bag_store::BagStore)::<K, T, M>::events$")
def _(c):
    return c.opq("st.events", c.v(0))


@pattern(r"^klavier_helper::(store::Store|bag_store::BagStore)::<K, T, M>::(clear|pop_first|update_at_idx|replace|replace_mut|retain_values|add_vec|remove_vec|get|range_vec|iter_vec)$")
def _(c):
    raise Undecided("store operation %s has no model" % c.m["path"])


# ---------------------------------------------------------------- serdo undo store
UNDO = r"^<serdo::undo_store::SqliteUndoStore<C, M, E> as serdo::undo_store::UndoStore>::"


def modelcell(c):
    v = c.v(0)
    W = c.W
    if v.ty is None:
        raise Undecided("undo store value")
    mt = W.types[v.ty]["args"][1]
    return mk("ocell", opq("app", "undo.model", v, ty=mt)), mt


@pattern(UNDO + r"model$")
def _(c):
    cell, mt = modelcell(c)
    return mk("ref", cell, ())


@pattern(UNDO + r"mutate$")
def _(c):
    cell, mt = modelcell(c)
    ctx = c.ctx
    before = ctx.cellval(cell)
    r = ctx.whnf(c.prog.call_value(ctx, c.a[1], [mk("ref", cell, ())]))
    d = c.dty()
    if ctx.branch(isvar(r, 0)):
        ctx.event("cmd", "mutate", before, ctx.cellval(cell), mkfld(r, 0, 0))
        return mk("adt", d, 0, UNIT)
    ctx.event("noop", "mutate", before, ctx.cellval(cell))
    return mkadt(d, 1, opq("app", "err", ty=c.W.types[d]["args"][1]))


@pattern(UNDO + r"add_cmd$")
def _(c):
    cell, mt = modelcell(c)
    ctx = c.ctx
    before = ctx.cellval(cell)
    cmd = c.a[1]
    W = c.W
    fid = [i for i, f in enumerate(W.fns) if f["path"] == "<crate::project::ProjectCmd as serdo::cmd::Cmd>::redo"]
    if len(fid) != 1:
        raise I.MissingAnchor("ProjectCmd::redo")
    c.prog.call(ctx, fid[0], [refval(cmd), mk("ref", cell, ())], None, None, c.site)
    ctx.event("cmd", "add_cmd", before, ctx.cellval(cell), cmd)
    return UNIT


@pattern(UNDO + r"irreversible_mutate$")
def _(c):
    cell, mt = modelcell(c)
    ctx = c.ctx
    before = ctx.cellval(cell)
    r = c.prog.call_value(ctx, c.a[1], [mk("ref", cell, ())])
    ctx.event("irrev", "irreversible_mutate", before, ctx.cellval(cell))
    return r


# ---------------------------------------------------------------- enumset
def eset_bits(W, ty):
    """(enum type, variants)"""
    e = W.types[ty]["args"][0]
    return e, W.variants(e)


def eset_of_mask(prog, ty, fs):
    W = prog.w
    v = fs[0]
    while v.op == "adt":
        v = v.a[2]
    if v.op == "poly" and is_const(v):
        e, vs = eset_bits(W, ty)
        m = v.a[0]
        return mk("eset", ty, *[t.boolc(bool(m >> x["d"] & 1)) for x in vs])
    return mk("adt", ty, 0, *fs)


def ebits(v):
    W = w.W
    if v.op == "eset":
        return list(v.a[1:])
    ty = I.value_type(v)
    if v.op == "adt":
        x = v.a[2]
        while x.op == "adt":
            x = x.a[2]
        if is_const(x):
            e, vs = eset_bits(W, ty)
            return [t.boolc(bool(x.a[0] >> y["d"] & 1)) for y in vs]
    if v.op == "ite":
        return [t.bor(t.band(v.a[0], x), t.band(t.bnot(v.a[0]), y)) for x, y in zip(ebits(v.a[1]), ebits(v.a[2]))]
    e, vs = eset_bits(W, ty)
    return [mk("app", "eset.has", v, i) for i in range(len(vs))]


def mkeset(ty, bits):
    # eta
    b0 = bits[0]
    if b0.op == "app" and b0.a[0] == "eset.has":
        s = b0.a[1]
        if all(b.op == "app" and b.a[0] == "eset.has" and b.a[1] is s and b.a[2] == i for i, b in enumerate(bits)):
            return s
    return mk("eset", ty, *bits)


@t.reb("eset")
def _(a, ty):
    return mkeset(a[0], list(a[1:]))


def eset_arg(c, i):
    """bits of an argument that is a set or a single variant"""
    v = deep(c.ctx, c.a[i])
    ty = I.value_type(v)
    W = c.W
    if v.op == "eset" or (ty is not None and W.adt_path(ty) == ESET):
        return ebits(v)
    # a single enum value
    n = len(W.variants(ty))
    return [isvar(v, j) for j in range(n)]


@pattern(r"enumset::impl_set::EnumSet|^enumset::")
def _(c):
    p = c.m["path"]
    nm = p.rsplit("::", 1)[1]
    W, ctx = c.W, c.ctx
    d = c.dest
    if nm in ("only",):
        return mkeset(d, eset_arg(c, 0))
    if nm in ("empty", "new", "default") and W.adt_path(d) == ESET and not c.a:
        e, vs = eset_bits(W, d)
        return mk("eset", d, *[FALSE] * len(vs))
    if nm == "all" and not c.a:
        e, vs = eset_bits(W, d)
        return mk("eset", d, *[TRUE] * len(vs))
    if nm in ("bitor", "union", "bitand", "intersection", "sub", "difference", "bitxor", "symmetrical_difference"):
        a, b = eset_arg(c, 0), eset_arg(c, 1)
        f = {"bitor": t.bor, "union": t.bor, "bitand": t.band, "intersection": t.band,
             "sub": lambda x, y: t.band(x, t.bnot(y)), "difference": lambda x, y: t.band(x, t.bnot(y)),
             "bitxor": I.boolxor, "symmetrical_difference": I.boolxor}[nm]
        return mkeset(d, [f(x, y) for x, y in zip(a, b)])
    if nm in ("not", "complement"):
        return mkeset(d, [t.bnot(x) for x in eset_arg(c, 0)])
    if nm in ("contains", "is_superset"):
        a, b = eset_arg(c, 0), eset_arg(c, 1)
        return t.band(*[t.bor(x, t.bnot(y)) for x, y in zip(a, b)])
    if nm == "is_subset":
        a, b = eset_arg(c, 0), eset_arg(c, 1)
        return t.band(*[t.bor(y, t.bnot(x)) for x, y in zip(a, b)])
    if nm == "is_disjoint":
        a, b = eset_arg(c, 0), eset_arg(c, 1)
        return t.band(*[t.bnot(t.band(x, y)) for x, y in zip(a, b)])
    if nm == "is_empty":
        return t.band(*[t.bnot(x) for x in eset_arg(c, 0)])
    if nm in ("eq", "ne"):
        a, b = eset_arg(c, 0), eset_arg(c, 1)
        e = t.band(*[t.bnot(I.boolxor(x, y)) for x, y in zip(a, b)])
        return e if nm == "eq" else t.bnot(e)
    if nm in ("insert", "remove", "insert_all", "remove_all"):
        r, s = vecref(c)
        a, b = ebits(s), eset_arg(c, 1)
        sty = I.value_type(s) if s.op != "eset" else s.a[0]
        if nm.startswith("insert"):
            ctx.write(r, mkeset(sty, [t.bor(x, y) for x, y in zip(a, b)]))
            ret = t.bnot(t.band(*[t.bor(x, t.bnot(y)) for x, y in zip(a, b)]))
        else:
            ctx.write(r, mkeset(sty, [t.band(x, t.bnot(y)) for x, y in zip(a, b)]))
            ret = t.bor(*[t.band(x, y) for x, y in zip(a, b)])
        return ret if nm in ("insert", "remove") else UNIT
    op = {"bitor_assign": t.bor, "bitand_assign": t.band, "bitxor_assign": I.boolxor, "sub_assign": lambda x, y: t.band(x, t.bnot(y))}.get(nm)
    if op:
        r, s = vecref(c)
        sty = I.value_type(s) if s.op != "eset" else s.a[0]
        ctx.write(r, mkeset(sty, [op(x, y) for x, y in zip(ebits(s), eset_arg(c, 1))]))
        return UNIT
    if nm == "clear":
        r, s = vecref(c)
        ctx.write(r, mkeset(I.value_type(s) if s.op != "eset" else s.a[0], [FALSE for _ in ebits(s)]))
        return UNIT
    if nm == "len":
        r = t.ZERO
        for x in eset_arg(c, 0):
            r = padd(r, t.ite(x, t.ONE, t.ZERO) if x not in (TRUE, FALSE) else (t.ONE if x is TRUE else t.ZERO))
        return r
    if nm in ("iter", "into_iter"):
        v = deep(ctx, c.a[0])
        ety = W.types[I.value_type(v) if v.op != "eset" else v.a[0]]["args"][0]
        has = [ctx.branch(b) if b not in (TRUE, FALSE) else b is TRUE for b in ebits(v)]
        return seq_iter(mkseq([mk("adt", ety, i) for i, h in enumerate(has) if h]), "val")
    if nm == "from_iter":
        x = deep(ctx, c.a[0])
        x = collect_seq(ctx, x) if x.op == "iter" else x
        n = seqlen(x)
        if not is_const(n) or n.a[0] > 64:
            raise Undecided("a set of an unknown number of elements")
        e, vs = eset_bits(W, d)
        bits = [FALSE] * len(vs)
        for k in range(n.a[0]):
            y = deep(ctx, mkat(x, C(k)))
            bits = [t.bor(b, isvar(y, j)) for j, b in enumerate(bits)]
        return mkeset(d, bits)
    if nm in ("get", "to_u16", "new", "from_u16"):
        return c.opq(nm, *[c.prog.freeze(ctx, a) for a in c.a])
    return NotImplemented


def eset_value_type(v):
    return v.a[0] if v.op == "eset" else I.value_type(v)


# ---------------------------------------------------------------- hash maps / sets
@pattern(r"std::collections::hash::(map::HashMap|set::HashSet).*::(new|with_capacity|default)$")
def _(c):
    return mk("hset", mkseq([]), ty=c.dty())


@pattern(r"<std::collections::hash::(set::HashSet<T, S>|map::HashMap<K, V, S>) as core::iter::traits::collect::FromIterator<.*>>::from_iter$|<std::collections::hash::(set::HashSet|map::HashMap)<.*> as core::convert::From<.*>>::from$")
def _(c):
    v = deep(c.ctx, c.a[0])
    if v.op == "iter":
        v = collect_seq(c.ctx, v)
    return mk("hset", v, ty=c.dty())


@pattern(r"std::collections::hash::(map::HashMap|set::HashSet)::<.*>::(get|contains|contains_key|insert|len|is_empty|iter|keys|values|remove)$")
def _(c):
    nm = c.m["path"].rsplit("::", 1)[1]
    r, s = vecref(c)
    ismap = "HashMap" in c.m["path"]
    ctx = c.ctx
    if s.op != "hset":
        if nm in ("get", "contains", "contains_key", "len", "is_empty"):
            vals = [s] + [deep(ctx, a) for a in c.a[1:]]
            if c.W.kind(c.dest) == "bool":
                return mk("app", "hm." + nm, *vals)
            return c.opq("hm." + nm, *vals)
        if nm == "insert":
            k = c.prog.freeze(ctx, c.a[1])
            ctx.write(r, mk("app", "hm.insert", s, k, *([c.prog.freeze(ctx, c.a[2])] if ismap else []), ty=s.ty))
            vals = [s, k]
            if c.W.kind(c.dest) == "bool":
                return mk("app", "hm.insert?", *vals)
            return c.opq("hm.insert?", *vals)
        return NotImplemented
    seq = s.a[0]
    n = seqlen(seq)
    if not is_const(n) or n.a[0] > 200:
        raise Undecided("hash container of unknown size")
    ents = [mkat(seq, C(i)) for i in range(n.a[0])]
    if nm == "len":
        return n
    if nm == "is_empty":
        return t.le0(n)
    if nm == "iter" and not ismap:
        return seq_iter(any_order(ctx, s), "ref")
    if nm in ("get", "contains", "contains_key"):
        k = deep(ctx, c.a[1])
        keys = [mkfld(e, 0, 0) if ismap else e for e in ents]
        conds = [mkeq(strip(x), k) for x in keys]
        if nm != "get":
            return t.bor(*conds)
        # later entries win
        for i in range(len(ents) - 1, -1, -1):
            if ctx.branch(conds[i]):
                return c.some(refval(mkfld(ents[i], 0, 1)))
        return c.none()
    if nm == "insert":
        k = c.a[1]
        conds = [mkeq(strip(mkfld(e, 0, 0) if ismap else e), strip(k)) for e in ents]
        e = mktup(k, c.a[2]) if ismap else k
        has = t.bor(*conds)
        if ismap:
            if not ctx.branch(has):
                ctx.write(r, mk("hset", mkseq([seq, item(e)]), ty=s.ty))
                return c.none()
            i = 0
            while i < len(ents) - 1 and not ctx.branch(conds[i]):
                i += 1
            new = [mktup(mkfld(x, 0, 0), c.a[2]) if j == i else x for j, x in enumerate(ents)]
            ctx.write(r, mk("hset", mkseq([item(x) for x in new]), ty=s.ty))
            return c.some(mkfld(ents[i], 0, 1))
        if ctx.branch(has):
            return FALSE
        ctx.write(r, mk("hset", mkseq([seq, item(e)]), ty=s.ty))
        return TRUE
    raise Undecided("hash container %s" % nm)


# ---------------------------------------------------------------- misc externals with plain meanings
@model("<u32 as gcd::Gcd>::gcd")
def _(c):
    a, b = c.v(0), c.v(1)
    if is_const(a) and is_const(b):
        from math import gcd
        return C(gcd(a.a[0], b.a[0]))
    if a is b:
        return a
    return c.opq("gcd", a, b)


@pattern(r"^core::str::<impl str>::parse$")
def _(c):
    d = c.dty()
    args = c.m.get("args") or []
    W = c.W
    if W.adt_path(d) == "core::result::Result":
        okt = W.types[d]["args"][0]
        # a local FromStr implementation is followed
        for i, f in enumerate(W.fns):
            if f.get("impl_trait") == "core::str::traits::FromStr" and f.get("name") == "from_str" and f.get("impl_self") == W.types[okt]["s"] and f.get("body"):
                return c.prog.call(c.ctx, i, [c.a[0]], None, d, c.site)
        s = c.v(0)
        return parse_result(c, s, d, okt)
    return NotImplemented


def parse_result(c, s, d, okt):
    W, ctx = c.W, c.ctx
    if W.is_int(okt):
        val = A(mk("parsed", s, ty=W.tyid.get("i128", None)))
        ok = mk("app", "parses", s, W.types[okt]["s"])
        if ctx.branch(ok):
            v = A(mk("parsedint", s, W.types[okt]["s"], ty=okt))
            return mkadt(d, 0, v)
        return mkadt(d, 1, opq("app", "ParseError", s, ty=W.types[d]["args"][1]))
    if ctx.branch(mk("app", "parses", s, W.types[okt]["s"])):
        return mkadt(d, 0, opq("app", "parsedval", s, ty=okt))
    return mkadt(d, 1, opq("app", "ParseError", s, ty=W.types[d]["args"][1]))


@pattern(r"^core::num::<impl core::str::traits::FromStr for \w+>::from_str$|^core::num::.*::from_str_radix$|^core::num::.*FromStr.*::from_str$")
def _(c):
    d = c.dty()
    if len(c.a) > 1:
        r = c.v(1)
        if not is_const(r) or r.a[0] != 10:
            raise Undecided("a number read in radix %s" % t.show(r))
    return parse_result(c, c.v(0), d, c.W.types[d]["args"][0])


@model("core::str::traits::FromStr::from_str")
def _(c):
    d = c.dty()
    W = c.W
    okt = W.types[d]["args"][0] if W.adt_path(d) == "core::result::Result" else None
    if okt is None or not (W.is_int(okt) or W.types[okt]["k"] == "float"):
        return NotImplemented
    return parse_result(c, c.v(0), d, okt)


@pattern(r"^core::option::Option::<T>::(as_ref|as_mut|as_deref|as_deref_mut)$|^core::option::Option::<&.*T>::(cloned|copied)$")
def _(c):
    nm = c.m["path"].rsplit("::", 1)[1]
    ctx = c.ctx
    d = c.dty()
    if nm in ("cloned", "copied"):
        v = ctx.whnf(c.a[0])
        if ctx.branch(isvar(v, 1)):
            return mkadt(d, 1, ctx.deref(mkfld(v, 1, 0)))
        return mk("adt", d, 0)
    if nm in ("as_ref", "as_deref"):
        v = c.v(0)
        if ctx.branch(isvar(v, 1)):
            return mkadt(d, 1, refval(mkfld(v, 1, 0)))
        return mk("adt", d, 0)
    r = ctx.whnf(c.a[0])
    v = ctx.whnf(ctx.deref(r))
    if ctx.branch(isvar(v, 1)):
        ft = c.W.types[I.value_type(v)]["args"][0]
        return mkadt(d, 1, mk("ref", r.a[0], r.a[1] + (("f", 1, 0, ft),)))
    return mk("adt", d, 0)


@pattern(r"^core::mem::(replace|swap|take)$")
def _(c):
    nm = c.m["path"].rsplit("::", 1)[1]
    ctx = c.ctx
    old = ctx.deref(c.a[0])
    if nm == "replace":
        ctx.write(c.a[0], c.a[1])
        return old
    if nm == "swap":
        o2 = ctx.deref(c.a[1])
        ctx.write(c.a[0], o2)
        ctx.write(c.a[1], old)
        return UNIT
    ty = I.value_type(old)
    if c.dest is not None and c.W.is_seq(c.dest):
        ctx.write(c.a[0], mkseq([]))
        return old
    return NotImplemented


@pattern(r"^core::mem::drop$|^core::mem::forget$|^core::ptr::drop_in_place")
def _(c):
    return UNIT


@pattern(r"^core::f(32|64)::|^std::f(32|64)::")
def _(c):
    vals = [deep(c.ctx, a) for a in c.a]
    if c.W.kind(c.dest) == "bool":
        return mk("app", c.m["path"].rsplit("::", 1)[1], *vals)
    return c.opq(c.m["path"].rsplit("::", 1)[1], *vals)


# ---------------------------------------------------------------- regular expressions
@pattern(r"^regex::regex::string::Regex::new$")
def _(c):
    from . import relang
    v = c.v(0)
    d = c.dty()
    if v.op != "str":
        return c.opq(None, v)
    if relang.wellformed(v.a[0]):
        return mkadt(d, 0, mk("app", "re", v, ty=c.W.types[d]["args"][0]))
    return mkadt(d, 1, opq("app", "RegexError", v, ty=c.W.types[d]["args"][1]))


def relit(v):
    return v.a[1].a[0] if v.op == "app" and v.a[0] == "re" else None


@pattern(r"^regex::regex::string::Regex::(captures|is_match)$")
def _(c):
    r, s = c.v(0), c.v(1)
    if relit(r) is None:
        return c.opq(None, r, s)
    m = mk("app", "re.match", r.a[1], s)
    if c.m["path"].endswith("is_match"):
        return m
    d = c.dty()
    return t.ite(m, mkadt(d, 1, opq("app", "re.caps", r.a[1], s, ty=c.W.types[d]["args"][0])), mk("adt", d, 0))


@pattern(r"^regex::regex::string::Captures::<'h>::get$")
def _(c):
    from . import relang
    v, i = c.v(0), c.v(1)
    d = c.dty()
    if v.op == "app" and v.a[0] == "re.caps" and is_const(i):
        g = relang.groups(v.a[1].a[0])
        if i.a[0] in g or i.a[0] == 0:
            return mkadt(d, 1, opq("app", "re.group", v.a[1], v.a[2], i, ty=c.W.types[d]["args"][0]))
        if i.a[0] > (max(g) if g else 0):
            return mk("adt", d, 0)
    return c.opq(None, v, i)


@pattern(r"^regex::regex::string::Match::<'h>::as_str$")
def _(c):
    return c.opq("re.text", c.v(0))


# ---------------------------------------------------------------- interval sets: sorted lists of disjoint, non-adjoining [lower, upper]
IVS = "interval::interval_set::IntervalSet"


def ivs_of(c, x):
    """list of (lower, upper) of an interval set whose intervals are known one by one"""
    v = deep(c.ctx, x)
    if v.op == "adt":
        v = deep(c.ctx, mkfld(v, 0, 0))
        n = seqlen(v)
        if is_const(n) and n.a[0] < 100:
            out = []
            for i in range(n.a[0]):
                e = deep(c.ctx, mkat(v, C(i)))
                out.append((mkfld(e, 0, 0), mkfld(e, 0, 1)))
            return out
    raise Undecided("interval set of unknown size")


def ivs_mk(c, ty, l):
    W = c.W
    fs = W.variants(ty)[0]["fields"]
    it = W.types[fs[0]["t"]]["args"][0]
    return mkadt(ty, 0, mkseq([item(mkadt(it, 0, a, b)) for a, b in l]), mk("ivsize", *[x for p in l for x in p]))


def ivs_push(c, out, lo, hi):
    """append an interval starting at or after the last one, joining overlapping or adjoining ones"""
    if c.ctx.branch(t.lt(hi, lo)):
        raise I.Panic(c.site, "empty interval")
    if out and c.ctx.branch(t.le(lo, padd(out[-1][1], t.ONE))):
        if c.ctx.branch(t.le(out[-1][1], hi)):
            out[-1] = (out[-1][0], hi)
    else:
        out.append((lo, hi))


def ivs_sorted(c, l):
    out = []
    for p in l:
        i = len(out)
        while i > 0 and c.ctx.branch(t.lt(p[0], out[i - 1][0])):
            i -= 1
        out.insert(i, p)
    return out


def ivs_join(c, l):
    out = []
    for lo, hi in ivs_sorted(c, l):
        ivs_push(c, out, lo, hi)
    return out


@pattern(r"^<.* as interval::interval_set::ToIntervalSet<.*>>::to_interval_set$")
def _(c):
    v = deep(c.ctx, c.a[0])
    if v.op == "tup":
        return ivs_mk(c, c.dty(), ivs_join(c, [(mkfld(v, 0, 0), mkfld(v, 0, 1))]))
    n = seqlen(v)
    if not is_const(n) or n.a[0] > 60:
        raise Undecided("interval set of unknown size")
    l = []
    for i in range(n.a[0]):
        e = deep(c.ctx, mkat(v, C(i)))
        l.append((mkfld(e, 0, 0), mkfld(e, 0, 1)))
    return ivs_mk(c, c.dty(), ivs_join(c, l))


@pattern(r"^<interval::interval_set::IntervalSet<Bound> as gcollections::ops::set::(Union|Intersection)>::(union|intersection)$")
def _(c):
    a, b = ivs_of(c, c.a[0]), ivs_of(c, c.a[1])
    if c.m["path"].endswith("union"):
        return ivs_mk(c, c.dty(), ivs_join(c, a + b))
    out = []
    br = c.ctx.branch
    for la, ha in a:
        for lb, hb in b:
            lo = lb if br(t.le(la, lb)) else la
            hi = ha if br(t.le(ha, hb)) else hb
            if br(t.le(lo, hi)):
                out.append((lo, hi))
    return ivs_mk(c, c.dty(), out)


@pattern(r"^<interval::interval_set::IntervalSet<Bound> as (core::iter::traits::collect::IntoIterator>::into_iter|gcollections::ops::.*::(is_empty|empty))$|^interval::interval_set::IntervalSet::<Bound>::(interval_count|iter)$")
def _(c):
    nm = c.m["path"].rsplit("::", 1)[1]
    if nm == "empty":
        return ivs_mk(c, c.dty(), [])
    n = len(ivs_of(c, c.a[0]))
    if nm == "interval_count":
        return C(n)
    if nm == "is_empty":
        return TRUE if n == 0 else FALSE
    v = deep(c.ctx, mkfld(deep(c.ctx, c.a[0]), 0, 0))
    return mk("iter", "seq", v, t.ZERO, C(n), "ref" if nm == "iter" else "val")


@pattern(r"^<interval::interval::Interval<Bound> as gcollections::ops::(.*::)?Bounded>::(lower|upper)$")
def _(c):
    v = deep(c.ctx, c.a[0])
    return mkfld(v, 0, 0 if c.m["path"].endswith("lower") else 1)


from . import stdmore  # noqa: E402,F401  (registers further models)
