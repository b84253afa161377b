"""Models of serde's generic interfaces: a serializer that records what is written as a
tree, and a deserializer that hands such a tree back to the visitors of the crate.

Nodes of the tree:
  prim(value, type)              a number, a bool, a string, or an external value kept whole
  val(value, type)               a value of a crate type, not yet looked into
  newtype(node)                  written transparently, as serde_json and bincode do
  struct(name, key, node, ...)   tuple(node, ...)   seq(sequence, element type)
  none  some(node)
  variant(name, index, kind, payload)   kind u/n/t/s
Two readings of the same tree: by name (self-describing formats such as JSON) and by
position (bincode, which the undo store uses)."""
import re

from . import world as w
from . import interp as I
from . import terms as t
from .interp import Undecided
from .terms import C
from .models import (model, pattern, mk, mkadt, opq, mkfld, mkat, mkseq, item, seqlen, mktup, refval, is_const, UNIT, deep)


def node(kind, *a):
    return mk("node", kind, *a)


def lit_str(c, x):
    from .models import strip
    v = strip(deep(c.ctx, x))
    if v.op == "str":
        return v.a[0]
    raise Undecided("serde name %s" % t.show(v)[:80])


def peel_ty(W, ty):
    """through references, Rc and Box"""
    while True:
        ty = W.strip_refs(ty)
        p = W.adt_path(ty) or ""
        if p.rsplit("::", 1)[-1] in ("Rc", "Box", "Arc"):
            ty = W.types[ty]["args"][0]
        else:
            return ty


def impl_of(W, trait, name, ty):
    """the crate's method of a trait for a type"""
    key = (trait, name, ty)
    if key not in IMPLS.setdefault(id(W), {}):
        want = LIFE.sub("", W.types[ty]["s"])
        fs = [i for i, f in enumerate(W.fns) if f.get("impl_trait") == trait and f.get("name") == name and f.get("body") and LIFE.sub("", f.get("impl_self") or "") == want]
        # types of the same name, declared in different blocks
        exact = [i for i in fs if W.fns[i]["body"]["argc"] and W.strip_refs(W.fns[i]["body"]["locals"][1]) == ty]
        IMPLS[id(W)][key] = (exact or fs or [None])[0]
    return IMPLS[id(W)][key]


IMPLS = {}
LIFE = re.compile(r"<'[^<>]*>$")


# ---------------------------------------------------------------- writing
def write(c, x, ty):
    """the node a value of type ty is written as"""
    W, ctx = c.W, c.ctx
    ty = peel_ty(W, ty)
    while x.op == "ref":
        x = ctx.whnf(ctx.deref(x))
    k = W.kind(ty)
    p = W.adt_path(ty) or ""
    if W.is_int(ty) or k in ("bool", "str", "char", "float") or p.rsplit("::", 1)[-1] in ("String", "EnumSet"):
        return node("prim", x, W.types[ty]["s"])
    if p == "core::option::Option":
        x = ctx.whnf(x)
        if x.op == "adt":
            some = x.a[1] == 1
        else:
            some = ctx.branch(w.isvar(x, 1))
        return node("some", write(c, mkfld(x, 1, 0), W.types[ty]["args"][0])) if some else node("none")
    if p == "alloc::vec::Vec":
        return node("seq", x, W.types[ty]["args"][0])
    if k == "array":
        return node("seq", x, W.types[ty]["to"])
    if k == "tuple":
        return node("tuple", *[write(c, mkfld(x, 0, i), e) for i, e in enumerate(W.types[ty]["args"])])
    if impl_of(W, "serde_core::ser::Serialize", "serialize", ty) is not None:
        return node("val", x, ty)
    raise Undecided("writing a %s" % W.types[ty]["s"])


def look(c, n):
    """one step into a value of a crate type"""
    while n.a[0] in ("val", "newtype"):
        if n.a[0] == "newtype":
            n = n.a[1]
            continue
        f = impl_of(c.W, "serde_core::ser::Serialize", "serialize", n.a[2])
        if f is None:
            raise Undecided("serializer of %s" % c.W.types[n.a[2]]["s"])
        n = written(c, f, n.a[1])
    return n


def written(c, f, x):
    """what serializer f writes of x"""
    r = c.ctx.whnf(c.prog.call(c.ctx, f, [refval(x), mk("serializer")], None, c.W.fns[f]["body"]["locals"][0], c.site))
    if r.op != "adt" or r.a[1] != 0:
        raise Undecided("serializer result %s" % t.show(r)[:80])
    n = c.ctx.whnf(mkfld(r, 0, 0))
    if n.op != "node":
        raise Undecided("serializer result %s" % t.show(n)[:80])
    return n


def okr(c, x):
    return mkadt(c.dty(), 0, x)


def err(c, what):
    return mkadt(c.dty(), 1, opq("app", "serde error", mk("str", what), ty=c.W.types[c.dty()]["args"][1]))


SER = "serde_core::ser::"


@pattern(r"^serde_core::ser::(Serialize::serialize|impls::<impl serde_core::ser::Serialize for .*>::serialize)$")
def _(c):
    if c.ctx.whnf(c.a[1]).op != "serializer":
        return NotImplemented
    return okr(c, write(c, c.a[0], c.argtys[0]))


@pattern(r"^serde_core::ser::Serializer::(serialize_\w+)$")
def _(c):
    nm = c.m["path"].rsplit("::serialize_", 1)[1]
    args = c.m["args"]
    if nm in ("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "bool", "str", "usize"):
        return okr(c, node("prim", c.v(1), nm))
    if nm == "none":
        return okr(c, node("none"))
    if nm == "some":
        return okr(c, node("some", write(c, c.a[1], args[1])))
    if nm == "newtype_struct":
        return okr(c, node("newtype", write(c, c.a[2], args[1])))
    if nm == "struct":
        return okr(c, mk("serst", "struct", lit_str(c, c.a[1])))
    if nm in ("tuple_struct", "tuple", "seq"):
        return okr(c, mk("serst", "tuple", ""))
    if nm == "unit_variant":
        return okr(c, node("variant", lit_str(c, c.a[3]), c.v(2).a[0], "u"))
    if nm == "newtype_variant":
        return okr(c, node("variant", lit_str(c, c.a[3]), c.v(2).a[0], "n", write(c, c.a[4], args[1])))
    if nm in ("tuple_variant", "struct_variant"):
        return okr(c, mk("serst", nm, lit_str(c, c.a[3]), c.v(2).a[0]))
    raise Undecided("Serializer::serialize_%s" % nm)


@pattern(r"^serde_core::ser::Serialize(Struct|TupleStruct|Tuple|Seq|StructVariant|TupleVariant)::(serialize_field|serialize_element|skip_field|end)$")
def _(c):
    nm = c.m["path"].rsplit("::", 1)[1]
    if nm == "skip_field":
        return okr(c, UNIT)
    if nm == "end":
        st = c.v(0)
        k = st.a[0]
        if k == "struct":
            return okr(c, node("struct", *st.a[1:]))
        if k == "tuple":
            return okr(c, node("tuple", *st.a[2:]))
        if k == "tuple_variant":
            return okr(c, node("variant", st.a[1], st.a[2], "t", node("tuple", *st.a[3:])))
        return okr(c, node("variant", st.a[1], st.a[2], "s", node("struct", st.a[1], *st.a[3:])))
    r = c.ctx.whnf(c.a[0])
    st = c.v(0)
    if st.op != "serst":
        raise Undecided("serializer state")
    while c.ctx.whnf(c.ctx.load(r.a[0], r.a[1])).op == "ref":
        r = c.ctx.whnf(c.ctx.load(r.a[0], r.a[1]))
    named = st.a[0] in ("struct", "struct_variant")
    n = write(c, c.a[2 if named else 1], c.m["args"][1])
    c.ctx.write(r, mk("serst", *(st.a + ((lit_str(c, c.a[1]), n) if named else (n,)))))
    return okr(c, UNIT)


# ---------------------------------------------------------------- reading
def read(c, n, ty):
    """the value of type ty read from a node, or None for an error"""
    W, ctx = c.W, c.ctx
    ty = peel_ty(W, ty)
    k = W.kind(ty)
    p = W.adt_path(ty) or ""
    byname = c.prog.serde_byname
    if n.a[0] == "val" and n.a[2] == ty:
        return n.a[1]
    if W.is_int(ty) or k in ("bool", "str", "char", "float") or p.rsplit("::", 1)[-1] in ("String", "EnumSet"):
        n = look(c, n)
        if n.a[0] != "prim":
            return None
        if n.a[2] == W.types[ty]["s"]:
            return n.a[1]
        if byname and W.is_int(ty) and n.a[1].op == "poly":
            lo, hi = W.irange(ty)
            return n.a[1] if ctx.branch(t.band(t.le(C(lo), n.a[1]), t.le(n.a[1], C(hi)))) else None
        return None
    if p == "core::option::Option":
        n = look(c, n)
        et = W.types[ty]["args"][0]
        if n.a[0] == "none":
            return mk("adt", ty, 0)
        if n.a[0] == "some":
            x = read(c, n.a[1], et)
            return None if x is None else mkadt(ty, 1, x)
        if byname:
            x = read(c, n, et)
            return None if x is None else mkadt(ty, 1, x)
        return None
    if p == "alloc::vec::Vec" or k == "array":
        n = look(c, n)
        et = W.types[ty]["to"] if k == "array" else W.types[ty]["args"][0]
        if n.a[0] != "seq":
            return None
        if peel_ty(W, n.a[2]) == peel_ty(W, et):
            return n.a[1]
        ln = seqlen(n.a[1])
        if not is_const(ln):
            raise Undecided("list of %s read as list of %s" % (W.types[n.a[2]]["s"], W.types[et]["s"]))
        out = []
        for i in range(ln.a[0]):
            x = read(c, write(c, mkat(n.a[1], C(i)), n.a[2]), et)
            if x is None:
                return None
            out.append(item(x))
        return mkseq(out)
    f = impl_of(W, "serde_core::de::Deserialize", "deserialize", ty)
    if f is not None:
        r = ctx.whnf(c.prog.call(ctx, f, [mk("deser", n)], None, W.fns[f]["body"]["locals"][0], c.site))
        if r.op != "adt":
            raise Undecided("result of reading a %s" % W.types[ty]["s"])
        return mkfld(r, 0, 0) if r.a[1] == 0 else None
    raise Undecided("reading a %s" % W.types[ty]["s"])


def visit(c, visitor, name, *args):
    """call a method of a visitor of the crate; None where it has none"""
    W = c.W
    vt = I.value_type(visitor)
    f = impl_of(W, "serde_core::de::Visitor", name, vt)
    if f is None:
        return None
    return c.prog.call(c.ctx, f, [visitor] + list(args), None, W.fns[f]["body"]["locals"][0], c.site)


def deser_node(c, i=0):
    d = c.ctx.whnf(c.a[i])
    if d.op != "deser":
        raise Undecided("deserializer")
    return d.a[0]


@pattern(r"^serde_core::de::(Deserialize::deserialize|impls::<impl serde_core::de::Deserialize<'de> for .*>::deserialize)$")
def _(c):
    if c.ctx.whnf(c.a[0]).op != "deser":
        return NotImplemented
    x = read(c, deser_node(c), c.W.types[c.dty()]["args"][0])
    return err(c, "type") if x is None else okr(c, x)


def strlit(s):
    return refval(mk("str", s))


@pattern(r"^serde_core::de::Deserializer::(deserialize_\w+)$")
def _(c):
    nm = c.m["path"].rsplit("::deserialize_", 1)[1]
    n = deser_node(c)
    if n.op == "key":
        byname = c.prog.serde_byname
        r = visit(c, c.a[-1], "visit_str" if byname else "visit_u64", strlit(n.a[0]) if byname else C(n.a[1]))
        return r if r is not None else err(c, "identifier")
    v = c.a[-1]
    if nm == "newtype_struct":
        r = visit(c, v, "visit_newtype_struct", mk("deser", n.a[1] if n.a[0] == "newtype" else n if n.a[0] != "val" else one(c, n)))
        return r if r is not None else err(c, "newtype")
    n = look(c, n)
    if nm in ("struct", "tuple_struct", "tuple", "seq", "map"):
        return fields(c, n, v)
    if nm == "enum":
        if n.a[0] != "variant":
            return err(c, "enum")
        r = visit(c, v, "visit_enum", mk("deser", n))
        return r if r is not None else err(c, "enum")
    if nm in ("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "bool", "str", "string"):
        if n.a[0] != "prim":
            return err(c, nm)
        r = visit(c, v, "visit_" + {"string": "str"}.get(n.a[2], n.a[2]), n.a[1])
        return r if r is not None else err(c, nm)
    raise Undecided("Deserializer::deserialize_%s" % nm)


def one(c, n):
    """a crate value one step looked into, keeping what is below a newtype"""
    f = impl_of(c.W, "serde_core::ser::Serialize", "serialize", n.a[2])
    m = written(c, f, n.a[1])
    return m.a[1] if m.a[0] == "newtype" else m


def fields(c, n, v):
    byname = c.prog.serde_byname
    if n.a[0] == "struct" and byname:
        r = visit(c, v, "visit_map", mk("mapacc", n, 0))
    elif n.a[0] == "struct":
        r = visit(c, v, "visit_seq", mk("seqacc", node("tuple", *n.a[3::2]), 0))
    elif n.a[0] == "tuple":
        r = visit(c, v, "visit_seq", mk("seqacc", n, 0))
    elif n.a[0] == "seq":
        ln = seqlen(n.a[1])
        if not is_const(ln):
            raise Undecided("list read field by field")
        r = visit(c, v, "visit_seq", mk("seqacc", node("tuple", *[write(c, mkat(n.a[1], C(i)), n.a[2]) for i in range(ln.a[0])]), 0))
    else:
        r = None
    return r if r is not None else err(c, "fields")


def acc_ref(c):
    r = c.ctx.whnf(c.a[0])
    while c.ctx.whnf(c.ctx.load(r.a[0], r.a[1])).op == "ref":
        r = c.ctx.whnf(c.ctx.load(r.a[0], r.a[1]))
    return r, c.ctx.whnf(c.ctx.load(r.a[0], r.a[1]))


@model("serde_core::de::SeqAccess::next_element")
def _(c):
    r, a = acc_ref(c)
    if a.op != "seqacc":
        raise Undecided("seq access")
    ot = c.W.types[c.dty()]["args"][0]
    ns = a.a[0].a[1:]
    if a.a[1] >= len(ns):
        return okr(c, mk("adt", ot, 0))
    c.ctx.write(r, mk("seqacc", a.a[0], a.a[1] + 1))
    x = read(c, ns[a.a[1]], c.m["args"][1])
    return err(c, "element") if x is None else okr(c, mkadt(ot, 1, x))


@model("serde_core::de::MapAccess::next_key")
def _(c):
    r, a = acc_ref(c)
    if a.op != "mapacc":
        raise Undecided("map access")
    ot = c.W.types[c.dty()]["args"][0]
    kv = a.a[0].a[2:]
    if 2 * a.a[1] >= len(kv):
        return okr(c, mk("adt", ot, 0))
    f = impl_of(c.W, "serde_core::de::Deserialize", "deserialize", c.m["args"][1])
    if f is None:
        raise Undecided("key type")
    k = c.ctx.whnf(c.prog.call(c.ctx, f, [mk("deser", mk("key", kv[2 * a.a[1]], a.a[1]))], None, c.W.fns[f]["body"]["locals"][0], c.site))
    if k.op != "adt":
        raise Undecided("key")
    return okr(c, mkadt(ot, 1, mkfld(k, 0, 0))) if k.a[1] == 0 else err(c, "key")


@model("serde_core::de::MapAccess::next_value")
def _(c):
    r, a = acc_ref(c)
    if a.op != "mapacc":
        raise Undecided("map access")
    kv = a.a[0].a[2:]
    c.ctx.write(r, mk("mapacc", a.a[0], a.a[1] + 1))
    if "IgnoredAny" in c.W.types[c.m["args"][1]]["s"]:
        return okr(c, opq("app", "ignored", ty=c.m["args"][1]))
    x = read(c, kv[2 * a.a[1] + 1], c.m["args"][1])
    return err(c, "value") if x is None else okr(c, x)


@pattern(r"^serde::(__?private\w*|private)::de::missing_field$|^serde::.*::de::missing_field$")
def _(c):
    if (c.W.adt_path(c.m["args"][0]) or "") == "core::option::Option":
        return okr(c, mk("adt", c.m["args"][0], 0))
    return err(c, "missing field")


@model("serde_core::de::EnumAccess::variant")
def _(c):
    n = deser_node(c)
    f = impl_of(c.W, "serde_core::de::Deserialize", "deserialize", c.m["args"][1])
    k = c.ctx.whnf(c.prog.call(c.ctx, f, [mk("deser", mk("key", n.a[1], n.a[2]))], None, c.W.fns[f]["body"]["locals"][0], c.site))
    if k.op != "adt":
        raise Undecided("variant key")
    return okr(c, mktup(mkfld(k, 0, 0), mk("deser", n))) if k.a[1] == 0 else err(c, "variant")


@pattern(r"^serde_core::de::VariantAccess::(unit_variant|newtype_variant|tuple_variant|struct_variant)$")
def _(c):
    nm = c.m["path"].rsplit("::", 1)[1]
    n = deser_node(c)
    if n.a[3] != nm[0]:
        return err(c, "kind of variant")
    if nm[0] == "u":
        return okr(c, UNIT)
    if nm[0] == "n":
        x = read(c, n.a[4], c.m["args"][1])
        return err(c, "variant") if x is None else okr(c, x)
    return fields(c, n.a[4], c.a[-1])


# ---------------------------------------------------------------- JSON text
# text(part, ...): a string or byte vector; a part is str(literal) or a node written as JSON
def text_of(c, v):
    """text parts of a string, byte slice, byte vector or cursor value; None when not known"""
    while v.op in ("ref",):
        v = c.ctx.whnf(c.ctx.deref(v))
    if v.op == "text":
        return list(v.a)
    if v.op == "cursor":
        return text_of(c, v.a[0])
    if v.op == "str":
        return [v] if v.a[0] else []
    if v.op == "app" and v.a[0] == "bytes":
        return text_of(c, v.a[1])
    if v.op == "seq":
        out = []
        for x in v.a:
            if x.op == "it" and is_const(x.a[0]):
                out.append(mk("str", chr(x.a[0].a[0])))
            else:
                return None
        return join(out)
    if v.op == "sub" and v.a[0].op == "app" and v.a[0].a[0] == "bytes":
        ps = text_of(c, v.a[0])
        if ps is None or not is_const(v.a[1]) or v.a[2] is not seqlen(v.a[0]):
            return None
        k = v.a[1].a[0]
        while k and ps:
            if ps[0].op != "str":
                return None
            if len(ps[0].a[0]) <= k:
                k -= len(ps[0].a[0])
                ps = ps[1:]
            else:
                ps = [mk("str", ps[0].a[0][k:])] + ps[1:]
                k = 0
        return ps if k == 0 else None
    return None


def join(ps):
    out = []
    for p in ps:
        if out and p.op == "str" and out[-1].op == "str":
            out[-1] = mk("str", out[-1].a[0] + p.a[0])
        else:
            out.append(p)
    return out


def text(*ps):
    ps = join(ps)
    return ps[0] if len(ps) == 1 and ps[0].op == "str" else mk("text", *ps)


@model("core::io::cursor::Cursor::<T>::new", "std::io::cursor::Cursor::<T>::new")
def _(c):
    return mk("cursor", c.a[0])


@pattern(r"^(core|std)::io::cursor::Cursor::<T>::(get_ref|into_inner)$")
def _(c):
    v = c.v(0)
    if v.op != "cursor":
        return NotImplemented
    x = v.a[0]
    return refval(x) if c.m["path"].endswith("get_ref") else x


def append(c, r, parts):
    """write text behind what a cursor, vector or string holds; False when either is not known"""
    r = c.ctx.whnf(r)
    v = c.ctx.whnf(c.ctx.deref(r))
    while v.op == "ref":
        r, v = v, c.ctx.whnf(c.ctx.deref(v))
    old = text_of(c, v)
    if old is None or parts is None:
        return False
    new = text(*(old + parts))
    c.ctx.write(r, mk("cursor", new) if v.op == "cursor" else new)
    return True


@pattern(r"^<(core|std)::io::cursor::Cursor<W> as (core|std)::io::(write::)?Write>::(write_all|write|flush)$|^<alloc::vec::Vec<u8.*> as .*io::.*Write>::(write_all|write|flush)$|.*io::(write::)?Write::(write_all|flush)$|^alloc::string::String::push_str$")
def _(c):
    nm = c.m["path"].rsplit("::", 1)[1]
    if nm == "flush":
        return okr(c, UNIT)
    p = text_of(c, c.ctx.whnf(c.a[1]))
    if not append(c, c.a[0], p):
        return NotImplemented
    if nm == "push_str":
        return UNIT
    return okr(c, UNIT if nm == "write_all" else C(sum(len(x.a[0]) for x in p)))


@pattern(r"^serde_json::ser::(to_writer|to_string|to_vec)$")
def _(c):
    nm = c.m["path"].rsplit("::", 1)[1]
    ty = c.m["args"][1 if nm == "to_writer" else 0]
    c.prog.serde_byname = True
    n = write(c, c.a[1 if nm == "to_writer" else 0], ty)
    if nm != "to_writer":
        return okr(c, text(n))
    if not append(c, c.a[0], [n]):
        raise Undecided("writing JSON into an unknown buffer")
    return okr(c, UNIT)


@pattern(r"^alloc::string::String::(from_utf8_lossy|from_utf8|from_utf8_unchecked|into_bytes|as_bytes|as_str|into_string)$|^core::str::<impl str>::(as_bytes|to_owned|to_string)$|^alloc::borrow::Cow::<'_, B>::into_owned$|^core::str::converts::from_utf8$")
def _(c):
    nm = c.m["path"].rsplit("::", 1)[1]
    v = c.v(0)
    if nm == "as_bytes":
        if v.op == "seq":
            return NotImplemented
        return refval(opq("app", "bytes", v, ty=c.W.strip_refs(c.dty())))
    ps = text_of(c, v)
    if ps is None:
        return NotImplemented
    if nm == "from_utf8":
        return okr(c, text(*ps))
    return text(*ps)


@model("serde_json::de::Deserializer::<serde_json::read::StrRead<'a>>::from_str", "serde_json::de::Deserializer::<serde_json::read::SliceRead<'a>>::from_slice")
def _(c):
    v = c.v(0)
    return mk("jsonde", v)


@model("serde_json::de::Deserializer::<R>::into_iter")
def _(c):
    v = c.v(0)
    if v.op != "jsonde":
        return NotImplemented
    return mk("jsonstream", v.a[0], None)


NUM = re.compile(r"[ \n\t\r]*(-?(?:0|[1-9]\d*)(?:\.\d+)?(?:[eE][+-]?\d+)?)")


@model("<serde_json::de::StreamDeserializer<'de, R, T> as core::iter::traits::iterator::Iterator>::next")
def _(c):
    r = c.ctx.whnf(c.a[0])
    st = c.ctx.whnf(c.ctx.deref(r))
    if st.op != "jsonstream" or st.a[1] is not None:
        return NotImplemented
    W, ctx = c.W, c.ctx
    rt = W.types[c.dty()]["args"][0]
    vt, et = W.types[rt]["args"][:2]
    if (W.adt_path(vt) or "") != "serde_json::value::Value":
        return NotImplemented
    s = st.a[0]
    ps = text_of(c, s)

    def bad():
        ctx.write(r, mk("jsonstream", s, opq("app", "json.offset", s, ty=W.tyid["usize"])))
        return c.some(mkadt(rt, 1, opq("app", "json.error", s, ty=et)))
    if ps is not None:
        if not ps or all(p.op == "str" and not p.a[0].strip(" \n\t\r") for p in ps):
            return c.none()
        if ps[0].op == "str":
            m = NUM.match(ps[0].a[0])
            if m:
                rest = ps[0].a[0][m.end():]
                nxt = rest[:1] or ("{" if len(ps) > 1 else "")
                if nxt and nxt not in ' \n\t\r"[]{},:':
                    return bad()
                if not rest and len(ps) > 1 and look(c, ps[1]).a[0] not in ("struct",):
                    raise Undecided("JSON value right behind a number")
                ctx.write(r, mk("jsonstream", s, C(m.end())))
                return c.some(mkadt(rt, 0, mkadt(vt, W.variant_ix(vt, "Number"), mk("jsonnum", m.group(1)))))
        raise Undecided("first JSON value of a known text")
    # any text: nothing but white space, a value, or an error
    if ctx.branch(mk("app", "json.blank", s)):
        return c.none()
    if not ctx.branch(mk("app", "json.first ok", s)):
        return bad()
    ctx.write(r, mk("jsonstream", s, opq("app", "json.offset", s, ty=W.tyid["usize"])))
    return c.some(mkadt(rt, 0, opq("app", "json.first", s, ty=vt)))


@model("serde_json::de::StreamDeserializer::<'de, R, T>::byte_offset")
def _(c):
    st = c.v(0)
    if st.op != "jsonstream":
        return NotImplemented
    off = st.a[1]
    if off is None:
        return t.ZERO
    if off.op != "poly":
        off = t.A(off)
    n = seqlen(opq("app", "bytes", st.a[0], ty=c.W.tyid.get("[u8]")))
    c.ctx.facts.assume(t.le(off, n))
    return off


@model("serde_json::value::Value::as_u64")
def _(c):
    v = c.v(0)
    ty = c.W.tyid["serde_json::value::Value"]
    num = c.W.variant_ix(ty, "Number")
    if not c.ctx.branch(w.isvar(v, num)):
        return c.none()
    return as_u64(c, mkfld(v, num, 0))


@model("serde_json::number::Number::as_u64")
def _(c):
    return as_u64(c, c.v(0))


def as_u64(c, v):
    if v.op == "jsonnum":
        s = v.a[0]
        if s.isdigit() and int(s) < 1 << 64:
            return c.some(C(int(s)))
        return c.none()
    return c.opt(mk("app", "json.isu64", v), lambda: t.A(opq("app", "json.u64", v, ty=c.W.tyid["u64"])))


@pattern(r"^serde_json::de::(from_slice|from_str)$")
def _(c):
    ty = c.m["args"][0]
    v = c.v(0)
    ps = text_of(c, v)
    if ps is not None:
        while ps and ps[0].op == "str" and not ps[0].a[0].strip(" \n\t\r"):
            ps = ps[1:]
        if len(ps) == 1 and ps[0].op == "node":
            c.prog.serde_byname = True
            x = read(c, ps[0], ty)
            return err(c, "json") if x is None else okr(c, x)
        if all(p.op == "str" for p in ps) and not "".join(p.a[0] for p in ps).strip():
            return err(c, "json")
        raise Undecided("reading a known JSON text")
    x = c.prog.freeze(c.ctx, v)
    if c.ctx.branch(mk("app", "json.parses", x, c.W.types[ty]["s"])):
        return okr(c, opq("app", "json.parsed", x, ty=ty))
    return mkadt(c.dty(), 1, opq("app", "json.error", x, ty=c.W.types[c.dty()]["args"][1]))


def rest_of(W, s):
    """what follows the first JSON value of a text, as bytes"""
    b = opq("app", "bytes", s, ty=W.tyid["[u8]"])
    return w.mksub(b, t.A(opq("app", "json.offset", s, ty=W.tyid["usize"])), seqlen(b))


@model("core::str::traits::<impl core::ops::index::Index<I> for str>::index", "<alloc::string::String as core::ops::index::Index<I>>::index")
def _(c):
    v, ix = c.v(0), c.ctx.whnf(c.a[1])
    b = opq("app", "bytes", v, ty=c.W.tyid["[u8]"])
    if ix.op != "adt" or not (c.W.adt_path(ix.a[0]) or "").endswith("RangeFrom"):
        return NotImplemented
    lo = mkfld(ix, 0, 0)
    if not any(x.op == "app" and x.a[0] == "json.offset" for x in t.walk(lo)) and not is_const(lo):
        return NotImplemented
    c.ctx.canpanic(c.site, "string range", t.le(lo, seqlen(b)))
    return refval(w.mksub(b, lo, seqlen(b)))


# ---------------------------------------------------------------- a deserializer used by hand
def parses(c, x, ty):
    return mk("app", "json.parses", x, c.W.types[ty]["s"])


@pattern(r"serde(_core)?::de::Deserialize(<'de>)? for .*>::deserialize$|^serde(_core)?::de::Deserialize::deserialize$")
def _(c):
    """a value read by hand from the front of a text, whatever follows it"""
    ctx = c.ctx
    r = ctx.whnf(c.a[0])
    d = ctx.whnf(ctx.deref(r)) if r.op == "ref" else r
    if d.op != "jsonde" or c.dest is None or r.op != "ref":
        return NotImplemented
    rt = c.W.types[c.dty()]["args"]
    ty, ety = rt[0], rt[1]
    v = ctx.whnf(d.a[0])
    while v.op == "ref":
        v = ctx.whnf(ctx.deref(v))
    if text_of(c, v) is not None:
        raise Undecided("reading a known JSON text by hand")
    x = c.prog.freeze(ctx, v)
    if ctx.branch(mk("app", "json.begins", x, c.W.types[ty]["s"])):
        ctx.write(r, mk("jsonde", d.a[0], ty))
        return okr(c, opq("app", "json.parsed", x, ty=ty))
    ctx.facts.assume(t.bnot(parses(c, x, ty)))
    return mkadt(c.dty(), 1, opq("app", "json.error", x, ty=ety))


@model("serde_json::de::Deserializer::<R>::end")
def _(c):
    d = c.v(0)
    if d.op != "jsonde" or len(d.a) < 2:
        return NotImplemented
    v = c.ctx.whnf(d.a[0])
    while v.op == "ref":
        v = c.ctx.whnf(c.ctx.deref(v))
    x = c.prog.freeze(c.ctx, v)
    if c.ctx.branch(parses(c, x, d.a[1])):
        return okr(c, UNIT)
    return mkadt(c.dty(), 1, opq("app", "json.error", x, ty=c.W.types[c.dty()]["args"][1]))
