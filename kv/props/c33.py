"""C33 what a value is shown as reads back as that value.

The text a value's Display or to_string builds is taken apart piece by piece (literal
text, integers in decimal, floats as printed) and handed to the parser of its type and to
the verdict of a text field: both must give the value again, for every value."""
from .. import inv, shown, models
from .util import *

V = "crate::text_input::Validated"
FS = "core::str::traits::FromStr"


def build(env):
    W = env.W
    inv.install(W)
    s24 = setups(unroll=24)

    def show(q, x, tyid):
        """the text of a value: its own to_string, else its Display"""
        p = W.types[tyid]["s"]
        for f in W.fns:
            if f.get("impl_self") == p and f.get("name") == "to_string" and f.get("body") and f["body"]["argc"] == 1:
                return q.call(f["path"], q.ctx.ref_to(x))
        c = models.Call(q.prog, q.ctx, None, {"path": "shown", "args": [tyid]}, [x], [tyid], None, "C33")
        return shown.text(*shown.display(c, x, tyid))

    def value(q, r, want, what):
        if q.variant(r) not in ("Ok", "Some"):
            q.fail(what, "refused: %s" % t.show(r)[:100])
            return
        q.eq(what, q.payload(r), want)

    def field(q, path, s, x, what, percent=False):
        """the verdict of a text field showing s"""
        target = [f for f in W.fns if f.get("impl_trait") == FS and f.get("impl_self") == "%s<core::option::Option<%s>>" % (V, path) and f.get("name") == "from_str" and f.get("body")]
        r = q.call(target[0]["path"], q.ctx.ref_to(s))
        if q.variant(r) != "Ok":
            q.fail(what, "refused")
            return
        o = q.fld(q.payload(r), "0")
        if q.variant(o) != "Some":
            q.fail(what, "no value")
            return
        q.eq(what, q.payload(o), x)

    def roundtrip(path, *parsers, is_field=True):
        def f(q):
            tyid = ty(q, path)
            x = q.sym("x", tyid)
            s = show(q, x, tyid)
            for what, p in parsers:
                p(q, s, x, what)
            if is_field:
                field(q, path, s, x, "read by a text field")
        env.forall(path.split("::", 1)[1], f, path, setup=s24)

    def by(fn):
        return lambda q, s, x, what: value(q, q.call(fn, q.ctx.ref_to(s)), x, what)

    roundtrip("crate::location::Location", ("parsed", by("crate::location::Location::parse")))
    roundtrip("crate::grid::Grid", ("parsed", by("crate::grid::Grid::value_of")), is_field=False)
    roundtrip("crate::rhythm::Numerator", ("parsed", by(impl_fn(W, FS, "crate::rhythm::Numerator", "from_str"))))
    roundtrip("crate::duration::Denominator")
    roundtrip("crate::velocity::Velocity")
    roundtrip("crate::percent::PercentU16")

    def number(q, s, x, what):
        """the shown text is a number, from which the value is made"""
        ps = shown.text_of(models.Call(q.prog, q.ctx, None, {"path": "x"}, [], [], None, "C33"), s)
        if ps is None or len(ps) != 1 or ps[0].op not in ("dec", "str"):
            q.fail(what, "shown as %s" % t.show(s)[:100])
        n = ps[0].a[0] if ps[0].op == "dec" else C(int(ps[0].a[0]))
        value(q, q.call("crate::rhythm::Denominator::from_value", n), x, what)
    roundtrip("crate::rhythm::Denominator", ("made from the number shown", number), is_field=False)

    def plain(q, tyid, vi):
        """the text shown for one variant, None if it is not a fixed text"""
        ps = shown.text_of(models.Call(q.prog, q.ctx, None, {"path": "x"}, [], [], None, "C33"), show(q, w.mk("adt", tyid, vi), tyid))
        if ps is None or any(p.op != "str" for p in ps):
            raise I.Undecided("the text shown for %s" % W.variants(tyid)[vi]["n"])
        return "".join(p.a[0] for p in ps)

    def letters(q):
        tyid = ty(q, "crate::solfa::Solfa")
        for i, v in enumerate(W.variants(tyid)):
            s = plain(q, tyid, i)
            if s != v["n"]:
                q.fail("letter", "%s is shown as %s" % (v["n"], s))
    env.forall("letters", letters, "crate::solfa::Solfa", setup=s24)

    def signs(q):
        tyid = ty(q, "crate::bar::Repeat")
        seen = {}
        for i, v in enumerate(W.variants(tyid)):
            s = plain(q, tyid, i)
            if not s or s in seen:
                q.fail("signs", "%s is shown as \"%s\"%s" % (v["n"], s, ", as is " + seen[s] if s in seen else ""))
            seen[s] = v["n"]
    env.forall("signs of repeat marks", signs, "crate::bar::Repeat", setup=s24)
