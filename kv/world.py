"""The compiled program (dump of rustc MIR) and typed term constructors."""
import json
import re
from . import terms as t
from .terms import T, mk, A, C, is_const

INF = 1 << 200


def without_generics(path):
    """the path with every `::<..>` taken out"""
    out, i = [], 0
    while i < len(path):
        if path.startswith("::<", i) and not path.startswith("::<impl", i):
            d, i = 1, i + 3
            while d:
                if path[i] == ">" and path[i - 1] != "-":
                    d -= 1
                d += path[i] == "<"
                i += 1
        else:
            out.append(path[i])
            i += 1
    return "".join(out)


class World:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.types = d["types"]
        self.fns = d["fns"]
        self.impls = d["impls"]
        self.consts = d["consts"]
        self.roots = d["roots"]
        self.adts = d["adts"]
        self.tyid = {}
        for i, x in enumerate(self.types):
            self.tyid.setdefault(x["s"], i)
        self.bypath = {}
        for i, f in enumerate(self.fns):
            self.bypath.setdefault(f["path"], []).append(i)
        self._bare = None
        self._peel = {}
        self._range = {}
        t.FIELDS[0] = self.show_fields
        t.FIELDNAME[0] = self.show_field
        t.TYNAME[0] = lambda ty: self.types[ty]["s"]
        global W
        W = self
        self.inv = {}        # (adt path, field index) -> (lo, hi)
        self.u8 = self.tyid.get("u8")
        t.F32[0] = self.tyid.get("f32")

    # ---- functions
    def bare(self, path):
        """functions of this path whatever the names of its generic parameters"""
        if self._bare is None:
            self._bare = {}
            for p, fs in self.bypath.items():
                if p.startswith("crate::") and "::<" in p:
                    self._bare.setdefault(without_generics(p), []).extend(fs)
        return self._bare.get(without_generics(path))

    # ---- types
    def ty(self, i):
        return self.types[i]

    def peel(self, i):
        r = self._peel.get(i)
        if r is None:
            x = self.types[i]
            r = i
            if x["k"] == "adt" and x["path"] in TRANSPARENT and x["args"]:
                r = self.peel(x["args"][0])
            self._peel[i] = r
        return r

    def kind(self, i):
        return self.types[i]["k"]

    def is_ref(self, i):
        return self.types[i]["k"] in ("ref", "ptr")

    def pointee(self, i):
        return self.types[i]["to"]

    def strip_refs(self, i):
        i = self.peel(i)
        while self.is_ref(i):
            i = self.peel(self.pointee(i))
        return i

    def irange(self, i):
        """integer range of type i"""
        r = self._range.get(i)
        if r is None:
            x = self.types[i]
            if x["k"] == "int":
                b = x["bits"]
                r = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if x["signed"] else (0, (1 << b) - 1)
            elif x["k"] == "char":
                r = (0, 0x10FFFF)
            elif x["k"] == "bool":
                r = (0, 1)
            else:
                r = (-INF, INF)
            self._range[i] = r
        return r

    def is_int(self, i):
        return self.types[i]["k"] in ("int", "char")

    def adt_path(self, i):
        x = self.types[i]
        return x.get("path") if x["k"] == "adt" else None

    def is_enum(self, i):
        x = self.types[i]
        return x["k"] == "adt" and x.get("akind") == "enum"

    def variants(self, i):
        return self.types[i]["variants"]

    def discr_of(self, ty, v):
        return self.types[ty]["variants"][v]["d"]

    def variant_ix(self, ty, name):
        for i, v in enumerate(self.types[ty]["variants"]):
            if v["n"] == name:
                return i
        raise KeyError("%s has no variant %s" % (self.types[ty]["s"], name))

    def field_ix(self, ty, name, v=0):
        for i, f in enumerate(self.types[ty]["variants"][v]["fields"]):
            if f["n"] == name:
                return i
        raise KeyError("%s has no field %s" % (self.types[ty]["s"], name))

    def field_tys(self, ty, v):
        x = self.types[ty]
        if x["k"] == "adt":
            return [f["t"] for f in x["variants"][v]["fields"]]
        if x["k"] in ("tuple", "closure"):
            return x["elems"]
        raise TypeError("no fields: " + x["s"])

    def elem_ty(self, ty):
        x = self.types[ty]
        if x["k"] in ("slice", "array"):
            return x["to"]
        if x["k"] == "adt":
            p = x["path"]
            if p in SEQS:
                return x["args"][0]
        return None

    def is_seq(self, ty):
        x = self.types[ty]
        return x["k"] in ("slice", "array") or (x["k"] == "adt" and x["path"] in SEQS)

    def find_ty(self, pat):
        r = [i for i, x in enumerate(self.types) if re.fullmatch(pat, x["s"])]
        if not r:
            raise KeyError("no type " + pat)
        return r[0]

    def adt(self, path):
        """type id of a non generic local ADT"""
        r = self.tyid.get(path)
        if r is None:
            raise KeyError("no type " + path)
        return r

    # ---- printing
    def show_fields(self, ty, v):
        x = self.types[ty]
        if x["k"] != "adt":
            return x["s"], [str(i) for i in range(32)]
        vv = x["variants"][v]
        n = x["path"].split("::")[-1]
        if x["akind"] == "enum":
            n += "::" + vv["n"]
        return n, [f["n"] for f in vv["fields"]]

    def show_field(self, b, v, i):
        if isinstance(b, T) and b.ty is not None:
            x = self.types[b.ty]
            if x["k"] == "adt":
                try:
                    return x["variants"][v]["fields"][i]["n"]
                except IndexError:
                    return str(i)
        return str(i)


TRANSPARENT = {"alloc::rcs::rc::Rc", "alloc::rc::Rc", "alloc::boxed::Box", "alloc::rcs::arc::Arc", "alloc::sync::Arc"}
SEQS = {"alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque", "alloc::collections::VecDeque"}
W = None
HOOK_FLD = []      # canonical rewrites of field reads of opaque values


# ---------------------------------------------------------------- constructors
def ocell(v):
    return mk("ocell", v)


def refval(v):
    """a shared reference to value v"""
    return mk("ref", mk("ocell", v), ())


def opq(op, *a, ty):
    """opaque term of type ty"""
    ty = W.peel(ty)
    x = W.types[ty]
    k = x["k"]
    if k in ("ref", "ptr"):
        return refval(opq(op, *a, ty=x["to"]))
    if k in ("int", "char"):
        return A(mk(op, *a, ty=ty))
    if k == "tuple" and not x["elems"]:
        return t.UNIT
    if k == "adt" and x["akind"] == "struct" and len(x["variants"]) == 1 and not x["variants"][0]["fields"] and x["local"]:
        return mk("adt", ty, 0)
    return mk(op, *a, ty=ty)


def sym(name, ty):
    return opq("sym", name, ty=ty)


def mkadt(ty, v, *fs):
    """ADT value, eta-reduced"""
    x = W.types[ty]
    if fs and x["k"] == "adt" and x["akind"] == "struct":
        b = _fldbase(fs[0], 0, 0)
        if b is not None and b.ty == ty:
            for i, f in enumerate(fs):
                if f is not mkfld(b, 0, i, None):
                    break
            else:
                return b
    return mk("adt", ty, v, *fs)


def mktup(*fs):
    if fs:
        b = _fldbase(fs[0], 0, 0)
        if b is not None and b.ty is not None and W.kind(b.ty) == "tuple" and len(W.types[b.ty]["elems"]) == len(fs):
            for i, f in enumerate(fs):
                if f is not mkfld(b, 0, i, None):
                    break
            else:
                return b
    return mk("tup", *fs)


def _fldbase(f, v, i):
    if f.op == "poly":
        f = t.single_atom(f)
        if f is None:
            return None
    if f.op == "ref" and isinstance(f.a[0], T) and not f.a[1]:
        f = f.a[0].a[0]
        if f.op == "poly":
            f = t.single_atom(f)
            if f is None:
                return None
    if f.op == "fld" and f.a[1] == v and f.a[2] == i:
        return f.a[0]
    return None


def mkfld(b, v, i, ty=None):
    """project field i of variant v"""
    o = b.op
    if o == "adt":
        if b.a[1] == v:
            return b.a[2 + i]
        return mk("bad")
    if o == "tup":
        return b.a[i]
    if o == "closure":
        return b.a[1 + i]
    if o == "ite":
        return t.ite(b.a[0], mkfld(b.a[1], v, i, ty), mkfld(b.a[2], v, i, ty))
    if o == "bad":
        return b
    if b.ty is None:
        raise Undecided("field of untyped term %s" % t.show(b))
    for h in HOOK_FLD:
        r = h(b, v, i)
        if r is not None:
            return r
    if ty is None:
        ty = W.field_tys(b.ty, v)[i]
    return opq("fld", b, v, i, ty=ty)


class Undecided(Exception):
    """the analysis cannot interpret something: a check that meets this fails closed"""


def seqlen(s):
    o = s.op
    if o == "seq":
        r = t.ZERO
        for x in s.a:
            if x.op == "it":
                r = t.padd(r, t.ONE)
            else:
                r = t.padd(r, seqlen(x))
        return r
    if o == "mapseq":
        return s.a[0]
    if o == "sub":
        return t.psub(s.a[2], s.a[1])
    if o == "rev":
        return seqlen(s.a[0])
    if o == "ite":
        return t.ite(s.a[0], seqlen(s.a[1]), seqlen(s.a[2]))
    if o == "app" and s.a[0] in LENPRES:
        return seqlen(s.a[1])
    if o == "range":
        return t.psub(s.a[1], s.a[0])
    if s.ty is not None and W.kind(s.ty) == "array" and isinstance(W.types[s.ty].get("len"), int):
        return C(W.types[s.ty]["len"])
    return A(mk("len", s))


LENPRES = {"sort", "sort_by", "sort_by_key"}


def mkseq(segs):
    """sequence from segments (it(x) or whole sequences), flattened"""
    out = []
    for s in segs:
        if s.op == "seq":
            out += list(s.a)
        else:
            out.append(s)
    if len(out) == 1 and out[0].op != "it":
        return out[0]
    # eta: [s[0], s[1], ... s[n-1]] of an array
    if out and out[0].op == "it":
        f = out[0].a[0]
        if f.op == "poly":
            f = t.single_atom(f)
        if f is not None and f.op == "at" and is_const(f.a[1]) and f.a[1].a[0] == 0:
            b = f.a[0]
            if b.ty is not None and W.kind(b.ty) == "array" and W.types[b.ty].get("len") == len(out):
                if all(x.op == "it" and x.a[0] is mkat(b, C(i)) for i, x in enumerate(out)):
                    return b
    return mk("seq", *out)


def item(x):
    return mk("it", x)


def seq_of(*xs):
    return mkseq([item(x) for x in xs])


def seq_elem_ty(s):
    if s.ty is not None:
        return W.elem_ty(s.ty)
    return None


def _seqite(s, i, ty):
    """element at an arbitrary position of a concatenation, by segments"""
    out = []
    off = i
    for x in s.a:
        if x.op == "it":
            if isinstance(x.a[0], T) and x.a[0].op == "ref":
                return None
            out.append((t.le(off, t.ZERO), x.a[0]))
            off = t.psub(off, t.ONE)
        else:
            n = seqlen(x)
            try:
                e = mkat(x, off, ty)
            except Undecided:
                return None
            out.append((t.lt(off, n), e))
            off = t.psub(off, n)
    if not out:
        return None
    r = out[-1][1]
    for c, e in reversed(out[:-1]):
        r = t.ite(c, e, r)
    return r


def mkat(s, i, ty=None):
    o = s.op
    if o == "seq":
        off = i
        for x in s.a:
            if x.op == "it":
                if off is t.ZERO:
                    return x.a[0]
                if is_const(off) and off.a[0] < 0:
                    return mk("bad")
                off = t.psub(off, t.ONE)
            else:
                n = seqlen(x)
                # in this segment for sure?
                if is_const(off) and off.a[0] == 0 and x is s.a[-1]:
                    return mkat(x, off, ty)
                d = t.psub(off, n)
                if is_const(d):
                    if d.a[0] >= 0:
                        off = d
                        continue
                    if d.a[0] < 0:
                        return mkat(x, off, ty)
                elif x is s.a[-1] and len(s.a) == 1:
                    return mkat(x, off, ty)
                break
        if 1 < len(s.a) <= 16 and not t.has_bv(i) and all(x.op == "it" and (is_const(x.a[0]) or x.a[0].op == "adt" and len(x.a[0].a) == 2) for x in s.a):
            # a constant table: its entries by position
            r = s.a[-1].a[0]
            for j in range(len(s.a) - 2, -1, -1):
                r = t.ite(t.ieq(i, C(j)), s.a[j].a[0], r)
            return r
        if len(s.a) <= 4 and not t.has_bv(i) and not t.has_bv(s):
            r = _seqite(s, i, ty)
            if r is not None:
                return r
        if ty is None:
            ty = _guess_elem(s)
        if ty is None:
            if not s.a:
                return mk("bad")
            raise Undecided("element type of %s" % t.show(s)[:100])
        return opq("at", s, i, ty=ty)
    if o == "mapseq":
        return t.open_(s.a[1], i)
    if o == "sub":
        return mkat(s.a[0], t.padd(i, s.a[1]), ty)
    if o == "rev":
        return mkat(s.a[0], t.psub(t.psub(seqlen(s.a[0]), t.ONE), i), ty)
    if o == "range":
        return t.padd(s.a[0], i)
    if o == "ite":
        return t.ite(s.a[0], mkat(s.a[1], i, ty), mkat(s.a[2], i, ty))
    if ty is None:
        ty = seq_elem_ty(s)
        if ty is None:
            ty = ELEM.get(s.op, lambda s: None)(s)
    if ty is None:
        ty = _guess_elem(s)
    if ty is None:
        raise Undecided("element type of %s" % t.show(s))
    return opq("at", s, i, ty=ty)


ELEM = {}


def _guess_elem(s):
    if s.ty is not None:
        e = W.elem_ty(s.ty)
        if e is not None:
            return e
        f = STORE_ELEM[0](s.ty)
        if f is not None:
            return f
    if s.op == "seq":
        for x in s.a:
            if x.op == "it":
                y = x.a[0]
                r = value_ty(y)
                if r is not None:
                    return r
            else:
                r = _guess_elem(x)
                if r is not None:
                    return r
    if s.op in ("sub", "rev"):
        return _guess_elem(s.a[0])
    if s.op == "app" and len(s.a) > 1 and isinstance(s.a[1], T):
        return _guess_elem(s.a[1])
    return None


STORE_ELEM = [lambda ty: None]


def value_ty(y):
    if y.op == "adt":
        return y.a[0]
    if y.op == "ref":
        return None
    return y.ty


@t.reb("adt")
def _(a, ty):
    return mkadt(a[0], a[1], *a[2:])


@t.reb("tup")
def _(a, ty):
    return mktup(*a)


@t.reb("fld")
def _(a, ty):
    b = a[0]
    if b.op in ("ref",):
        b = b.a[0].a[0]
    r = mkfld(b, a[1], a[2], ty)
    return unref(r, ty)


def unref(r, ty):
    # opq() peels references of the original type: `ty` is the pointee type
    if r.op == "ref" and ty is not None and not W.is_ref(ty) and isinstance(r.a[0], T) and not r.a[1]:
        return unref(r.a[0].a[0], ty)
    return r


@t.reb("at")
def _(a, ty):
    return unref(mkat(a[0], a[1], ty), ty)


@t.reb("len")
def _(a, ty):
    return seqlen(a[0])


@t.reb("seq")
def _(a, ty):
    return mkseq(a)


@t.reb("discr")
def _(a, ty):
    if a[0].op == "adt":
        return C(W.discr_of(a[0].a[0], a[0].a[1]))
    return mk("discr", a[0], ty=ty)


@t.reb("isvar")
def _(a, ty):
    return isvar(a[0], a[1])


@t.reb("mapseq")
def _(a, ty):
    return mapseq(a[0], a[1], ty)


@t.reb("eq")
def _(a, ty):
    return mkeq(a[0], a[1])


def isvar(x, v):
    if x.op == "adt":
        return t.boolc(x.a[1] == v)
    if x.op == "ite":
        return t.bor(t.band(x.a[0], isvar(x.a[1], v)), t.band(t.bnot(x.a[0]), isvar(x.a[2], v)))
    if x.ty is not None and W.kind(x.ty) == "adt":
        n = len(W.variants(x.ty))
        if n == 1:
            return t.TRUE
        if n == 2 and v == 0:
            return t.bnot(isvar(x, 1))
    return mk("isvar", x, v)


def discr(x, ty):
    if x.op == "adt":
        return C(W.discr_of(x.a[0], x.a[1]))
    if x.op == "ite":
        return t.ite(x.a[0], discr(x.a[1], ty), discr(x.a[2], ty))
    return A(mk("discr", x, ty=x.ty))


def mapseq(n, lam, ty=None):
    # eta: mapseq(len(s), k -> s[k]) == s
    h, body = lam.a
    k = t.bv(h)
    b = body
    if b.op == "poly":
        b = t.single_atom(b) or b
    if b.op == "ref" and isinstance(b.a[0], T) and not b.a[1]:
        bb = b.a[0].a[0]
    else:
        bb = b
    if bb.op == "at" and bb is b:
        ix = bb.a[1]
        if not t.contains(bb.a[0], k) and ix is A(k) and seqlen(bb.a[0]) is n:
            return bb.a[0]
    if bb.op == "at" and bb is b:
        off = t.psub(bb.a[1], A(k))
        if not t.contains(bb.a[0], k) and not t.contains(off, k):
            return mk("sub", bb.a[0], off, t.padd(off, n))
        off = t.padd(bb.a[1], A(k))
        if not t.contains(bb.a[0], k) and not t.contains(off, k):
            # at(s, off - k): reversed slice
            return mk("rev", mksub(bb.a[0], t.padd(t.psub(off, n), t.ONE), t.padd(off, t.ONE)))
    if is_const(n) and 0 <= n.a[0] <= 16:
        return mkseq([item(t.open_(lam, C(i))) for i in range(n.a[0])])
    return mk("mapseq", n, lam, ty=ty)


def mksub(s, a, b):
    if a is t.ZERO and b is seqlen(s):
        return s
    if is_const(a) and is_const(b) and b.a[0] - a.a[0] <= 32 and (s.op == "seq" and all(x.op == "it" for x in s.a)):
        if 0 <= a.a[0] <= b.a[0] <= len(s.a):
            return mkseq(s.a[a.a[0]:b.a[0]])
    if is_const(a) and is_const(b) and 0 <= b.a[0] - a.a[0] <= 32 and s.op == "mapseq" and is_const(s.a[0]) and b.a[0] <= s.a[0].a[0]:
        return mkseq([item(t.open_(s.a[1], C(i))) for i in range(a.a[0], b.a[0])])
    if s.op == "sub":
        return mk("sub", s.a[0], t.padd(s.a[1], a), t.padd(s.a[1], b))
    return mk("sub", s, a, b)


@t.reb("sub")
def _(a, ty):
    return mksub(*a)


def mkrev(s):
    if s.op == "rev":
        return s.a[0]
    if s.op == "seq":
        return mkseq([x if x.op == "it" else mkrev(x) for x in reversed(s.a)])
    return mk("rev", s)


@t.reb("rev")
def _(a, ty):
    return mkrev(*a)


def is_fieldless(ty):
    return W.kind(ty) == "adt" and all(not v["fields"] for v in W.variants(ty))


def mkeq(a, b, d=0):
    """structural equality as a boolean term (types with derived or structural PartialEq)"""
    if a is b:
        if _float_free(a):
            return t.TRUE
        return t.TRUE
    if a.op == "poly" and b.op == "poly":
        return t.ieq(a, b)
    if a.op == "ref" and b.op == "ref" and isinstance(a.a[0], T) and isinstance(b.a[0], T):
        return mkeq(a.a[0].a[0], b.a[0].a[0], d + 1)
    if a in (t.TRUE, t.FALSE):
        return b if a is t.TRUE else t.bnot(b)
    if b in (t.TRUE, t.FALSE):
        return a if b is t.TRUE else t.bnot(a)
    if a.op == "ite":
        return t.bor(t.band(a.a[0], mkeq(a.a[1], b, d + 1)), t.band(t.bnot(a.a[0]), mkeq(a.a[2], b, d + 1)))
    if b.op == "ite":
        return mkeq(b, a, d)
    if a.op == "adt" and b.op == "adt":
        if a.a[1] != b.a[1]:
            return t.FALSE
        return t.band(*[mkeq(x, y, d + 1) for x, y in zip(a.a[2:], b.a[2:])])
    if a.op == "tup" and b.op == "tup":
        return t.band(*[mkeq(x, y, d + 1) for x, y in zip(a.a, b.a)])
    if b.op in ("adt", "tup") and a.op not in ("adt", "tup"):
        a, b = b, a
    if a.op == "adt" and b.ty is not None:
        v = a.a[1]
        return t.band(isvar(b, v), *[mkeq(x, mkfld(b, v, i), d + 1) for i, x in enumerate(a.a[2:])])
    if a.op == "tup" and b.ty is not None:
        return t.band(*[mkeq(x, mkfld(b, 0, i), d + 1) for i, x in enumerate(a.a)])
    if a.op == "str" and b.op == "str":
        return t.boolc(a.a[0] == b.a[0])
    if a.op == "seq" and b.op == "seq" and len(a.a) == len(b.a) and all(x.op == "it" for x in a.a + b.a):
        return t.band(*[mkeq(x.a[0], y.a[0], d + 1) for x, y in zip(a.a, b.a)])
    if a.ty is not None and a.ty == b.ty and d < 12:
        x = W.types[a.ty]
        if x["k"] == "adt" and x["akind"] == "struct" and x["local"] and x["variants"][0]["fields"]:
            return t.band(*[mkeq(mkfld(a, 0, i), mkfld(b, 0, i), d + 1) for i in range(len(x["variants"][0]["fields"]))])
        if x["k"] == "tuple":
            return t.band(*[mkeq(mkfld(a, 0, i), mkfld(b, 0, i), d + 1) for i in range(len(x["elems"]))])
        if x["k"] == "array":
            la, lb = seqlen(a), seqlen(b)
            if is_const(la) and la is lb and la.a[0] <= 8:
                return t.band(*[mkeq(mkat(a, C(i)), mkat(b, C(i)), d + 1) for i in range(la.a[0])])
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def _float_free(a):
    return True


# ---------------------------------------------------------------- atom ranges
_ar = {}


def arange(x):
    """default interval of an integer atom (independent of any path)"""
    key = (x.id, len(W.inv))
    r = _ar.get(key)
    if r is None:
        r = _ar[key] = _arange(x)
    return r


def prange(p):
    """default interval of a polynomial"""
    if p.op != "poly":
        return -INF, INF
    lo = hi = p.a[0]
    if not p.a[1]:
        return lo, hi
    for m, c in p.a[1]:
        l1, h1 = arange(m[0])
        for y in m[1:]:
            l2, h2 = arange(y)
            cs = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
            l1, h1 = min(cs), max(cs)
        lo += c * l1 if c > 0 else c * h1
        hi += c * h1 if c > 0 else c * l1
    return max(lo, -INF), min(hi, INF)


def _arange(x):
    o = x.op
    if o == "ite":
        rs = [prange(q) for q in x.a[1:]]
        return min(r[0] for r in rs), max(r[1] for r in rs)
    if o in ("max", "min"):
        f = max if o == "max" else min
        rs = [prange(q) for q in x.a]
        return f(r[0] for r in rs), f(r[1] for r in rs)
    if o in ("fdiv", "tdiv"):
        a, b = prange(x.a[0]), prange(x.a[1])
        if b[0] > 0:
            cands = [0] if a[0] <= 0 <= a[1] else []
            for n in a:
                for q in b:
                    if o == "fdiv":
                        cands.append(n // q)
                    else:
                        v = abs(n) // q
                        cands.append(v if n >= 0 else -v)
            return min(cands), max(cands)
    if o == "fld":
        b = x.a[0]
        if b.ty is not None:
            p = W.adt_path(b.ty)
            r = W.inv.get((p, x.a[2]))
            if r is not None:
                return r
    if o == "len":
        return (0, (1 << 63) - 1)
    if o == "discr":
        if x.ty is not None:
            ds = [v["d"] for v in W.variants(x.ty)]
            return (min(ds), max(ds))
    if o in ("firstidx", "lv_k"):
        return (0, (1 << 64))
    if o == "pow2":
        return (1, INF)
    if o in ("st.upper",):
        return (0, (1 << 63) - 1)
    if x.ty is not None:
        return W.irange(x.ty)
    return (-INF, INF)
