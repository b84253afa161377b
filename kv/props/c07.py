"""C07 what is copied can be pasted, and nothing else is taken for it.

For any items: the clipboard text is the version number followed by the items as JSON, and
both readers give exactly these items back. For any text at all, each reader's answer is
decided by the first JSON value of the text (none, not JSON, not a whole number, another
version) and, for the right version, by what follows it."""
from .. import inv, serde
from .util import *

XP = "crate::exported_project::ExportedProject"


def build(env):
    W = env.W
    inv.install(W)
    s24 = setups(unroll=24)
    LISTS = ["notes", "bars", "tempos", "dumpers", "softs"]

    def read(q, p, s):
        return q.call(p + "::from_clipboard_text", s)

    def okay(q, label, r):
        if q.variant(r) != "Ok":
            q.fail(label, "refused: %s" % t.show(r)[:200])
        return q.payload(r)

    def lists(q, label, got, want):
        for k in LISTS:
            q.eq("%s: %s" % (label, k), q.fld(got, k), q.fld(want, k))

    def known(q, s):
        if s.op != "text":
            raise I.Undecided("clipboard text %s" % t.show(s)[:100])
        return s

    def copy(q):
        m = q.sym("m", ty(q, MODELS))
        s = known(q, q.call(MODELS + "::to_clipboard_text", q.ctx.ref_to(m)))
        if s.a[0] is not w.mk("str", "1"):
            q.fail("version", "the text starts with %s" % t.show(s.a[0])[:80])
        lists(q, "pasted", okay(q, "paste", read(q, MODELS, s)), m)
        x = okay(q, "import", read(q, XP, s))
        lists(q, "imported", q.call(XP + "::to_models", x), m)
        for a in ("key", "rhythm"):
            q.holds("imported: no " + a, is_(q, q.fld(x, a), "None"))
    env.forall("copy and paste", copy, MODELS, setup=s24)

    def export(q):
        x = q.sym("x", ty(q, XP))
        s = serde.text(w.mk("str", "1"), serde.node("val", x, ty(q, XP)))
        y = okay(q, "import", read(q, XP, s))
        for f in W.variants(ty(q, XP))[0]["fields"]:
            q.eq("imported: " + f["n"], q.fld(y, f["n"]), q.fld(x, f["n"]))
        lists(q, "items", q.call(XP + "::to_models", x), x)
        lists(q, "pasted", okay(q, "paste", read(q, MODELS, s)), x)
    env.forall("export and import", export, XP, setup=s24)

    def version(p, ver):
        def f(q):
            m = q.sym("m", ty(q, MODELS))
            r = read(q, p, serde.text(w.mk("str", ver), serde.node("val", m, ty(q, MODELS))))
            v = ver.strip()
            if q.variant(r) == "Ok":
                if v != "1":
                    q.fail("version", "version %s is read" % ver)
                return
            if v == "1":
                q.fail("version", "version 1 is refused")
            e = q.payload(r)
            n = q.variant(e)
            if v.isdigit() and int(v) < 1 << 64:
                if n != "VersionErr":
                    q.fail("version", "version %s gives %s" % (ver, n))
                q.eq("version reported", q.fld(e, "detected_ver", n), C(int(v)))
            elif n != "VersionNotU64":
                q.fail("version", "version %s gives %s" % (ver, n))
        env.forall("version|%s|%s" % (p, ver), f, p, setup=s24)

    def anytext(p):
        def f(q):
            s = q.sym("s", W.tyid["alloc::string::String"])
            r = read(q, p, s)
            app = lambda *a: w.mk("app", *a)
            number = W.tyid["serde_json::value::Value"]
            if q.branch(app("json.blank", s)):
                want = "EmptyString"
            elif not q.branch(app("json.first ok", s)):
                want = "CannotParse"
            else:
                v = I.opq("app", "json.first", s, ty=number)
                num = W.variant_ix(number, "Number")
                no = w.mkfld(v, num, 0)
                if not q.branch(w.isvar(v, num)) or not q.branch(app("json.isu64", no)):
                    want = "VersionNotU64"
                else:
                    u = t.A(I.opq("app", "json.u64", no, ty=W.tyid["u64"]))
                    rest = serde.rest_of(W, s)
                    if not q.branch(ieq(u, C(1))):
                        want = "VersionErr"
                    elif q.branch(app("json.parses", rest, p)):
                        if q.variant(r) != "Ok":
                            q.fail("well-formed text", "refused with %s" % t.show(q.payload(r))[:100])
                        q.eq("items", q.payload(r), I.opq("app", "json.parsed", rest, ty=ty(q, p)))
                        return
                    else:
                        want = "CannotParse"
            if q.variant(r) != "Err":
                q.fail("other text", "is read although it should give " + want)
            e = q.payload(r)
            n = q.variant(e)
            if n != want:
                q.fail("other text", "gives %s, expected %s" % (n, want))
            if want in ("CannotParse", "VersionNotU64"):
                q.eq("text reported", q.fld(e, "err_json", n), s)
            if want == "VersionErr":
                q.eq("version reported", q.fld(e, "detected_ver", n), u)
        env.forall("any text|" + p, f, p, setup=s24)
    for p in (MODELS, XP):
        anytext(p)
        for ver in ("1", " 1", "1 ", "0", "2", "10", "11", "18446744073709551615", "18446744073709551616", "-1", "1.0", "1e0"):
            version(p, ver)
