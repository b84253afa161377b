"""C23 text fields: what is shown, what it means and what the user typed never disagree.

TextInput is analysed for an arbitrary validated type (its parser is an unknown
function): after every constructor and every operation that can change it, the buffer is
the text given or left by the caller's edit, the verdict is the parser's verdict on
exactly that buffer, and the edit runs once, on the buffer.  Every public function taking
a field mutably is covered.  Each of the seven parsers behind the fields is then decided for
every text: empty means 'no value', anything else is accepted exactly when it denotes a
value of the type, clamped where the type clamps, and rejected, never panicking, otherwise."""
from .. import interp as I, inv, models
from .util import *

T = "crate::text_input::TextInput"
V = "crate::text_input::Validated"
FS = "core::str::traits::FromStr"


def buffer_of(q, x):
    return q.ctx.deref(q.call(T + "::<T, E>::input", q.ctx.ref_to(x)))


def verdict_of(q, x):
    return q.ctx.deref(q.call(T + "::<T, E>::validate", q.ctx.ref_to(x)))


def build(env):
    W = env.W
    inv.install(W)
    names = [f for f in W.fns if (f.get("impl_self") or "").startswith(T + "<") and f.get("vis") == "pub" and f.get("body")]

    def agree(q, x, text, what):
        q.eq(what + ": the text is kept", buffer_of(q, x), text)
        q.eq(what + ": the verdict is the parser's on the text", verdict_of(q, x), q.call("crate::text_input::from_str", q.ctx.ref_to(text)))

    def make(q):
        (s,), _ = q.args(T + "::<T, E>::from_string")
        agree(q, q.call(T + "::<T, E>::from_string", s), s, "made from a text")
    env.forall("made from a text", make, T + "::<T, E>::from_string")

    def mutate(q):
        body = W.fns[q.prog.fid(T + "::<T, E>::mutate")]["body"]
        (s,), _ = q.args(T + "::<T, E>::from_string")
        x = q.call(T + "::<T, E>::from_string", s)
        r = q.ctx.ref_to(x)
        sty = I.value_type(s)
        edited, res = q.sym("edited", sty), q.sym("result", body["locals"][0])
        seen = []

        def edit(ctx, ref):
            seen.append(ctx.deref(ref))
            ctx.write(ref, edited)
            return res
        I.PYFN.append(edit)
        got = q.call(T + "::<T, E>::mutate", r, w.mk("pyfn", len(I.PYFN) - 1))
        if len(seen) != 1:
            q.fail("the edit is applied once", "applied %d times" % len(seen))
            return
        q.eq("the edit sees the text", seen[0], s)
        q.eq("the edit's result is returned", got, res)
        agree(q, q.ctx.deref(r), edited, "after an edit")
    env.forall("after an edit", mutate, T + "::<T, E>::mutate")

    # nothing else may change a field
    other = [f["path"] for f in names if f["body"]["argc"] and W.is_ref(f["body"]["locals"][1]) and W.types[f["body"]["locals"][1]].get("mut") and not f["path"].endswith("::mutate")]
    env.structural("operations that can change a field", T, [("undecided", "%s can change a field and is not covered" % p) for p in other], len(names))

    def parser(target, num, want, accepts):
        """num: the number type the text is read as; want(q, number) -> the value; accepts(q, number) -> condition"""
        path = impl_fn(W, FS, V + "<core::option::Option<%s>>" % target, "from_str")

        def f(q):
            (s,), _ = q.args(path)
            r = q.call(path, s)
            text = q.ctx.deref(s)
            empty = ieq(models.seqlen(text), C(0))
            if q.branch(empty):
                if q.variant(r) != "Ok":
                    q.fail("an empty field means no value", "rejected")
                elif q.variant(q.fld(q.payload(r), "0")) != "None":
                    q.fail("an empty field means no value", "some value")
                return
            odd = [str(y.a[2]) for y in q.ctx.facts.bools if y.op == "app" and y.a[0] == "parses" and y.a[2] != num]
            if odd:
                raise I.Undecided("read as %s" % ", ".join(odd))
            if not q.branch(w.mk("app", "parses", text, num)):
                if q.variant(r) != "Err":
                    q.fail("a text that is no number is rejected", "accepted")
                return
            n = models.A(w.mk("parsedint", text, num, ty=W.tyid[num])) if W.is_int(W.tyid[num]) else w.mk("app", "parsedval", text, ty=W.tyid[num])
            if accepts is not None and not q.branch(accepts(q, n)):
                if q.variant(r) != "Err":
                    q.fail("a number out of range is rejected", "accepted")
                return
            if q.variant(r) != "Ok":
                q.fail("a valid text is accepted", "rejected")
                return
            o = q.fld(q.payload(r), "0")
            if q.variant(o) != "Some":
                q.fail("a valid text gives its value", "no value")
                return
            q.eq("a valid text gives its value", q.payload(o), want(q, n))
        env.forall("text to " + target.rsplit("::", 2)[-2] + "::" + target.rsplit("::", 1)[-1] if "::" in target else "text to " + target, f, path)

    def clamp(n, lo, hi):
        return ite(lt(n, C(lo)), C(lo), ite(lt(C(hi), n), C(hi), n))

    def by(build, access, lo, hi):
        """a value made from the number, checked through its accessor"""
        def f(q, n):
            v = build(q, n)
            q.eq("number behind the value", q.call(access, v), clamp(n, lo, hi))
            return v
        return f

    within = lambda lo, hi: lambda q, n: band(le(C(lo), n), le(n, C(hi)))
    D, N, TV, VE, PC = "crate::duration::Denominator", "crate::rhythm::Numerator", "crate::tempo::TempoValue", "crate::velocity::Velocity", "crate::percent::PercentU16"
    num = lambda q, r: q.payload(r) if q.variant(r) in ("Ok", "Some") else q.fail("a valid number is accepted", "rejected") or r
    parser("i16", "i16", lambda q, n: n, None)
    parser(TV, "u16", by(lambda q, n: q.call(TV + "::safe_new", n), TV + "::as_u16", 1, 999), None)
    parser(VE, "u8", by(lambda q, n: q.call(VE + "::new", n), VE + "::as_u8", 0, 127), None)
    parser(N, "u8", by(lambda q, n: num(q, q.call(N + "::from_value", n)), N + "::value", 1, 99), within(1, 99))
    parser(D, "u8", by(lambda q, n: num(q, q.call(D + "::from_value", n)), D + "::value", 2, 255), within(2, 255))
    parser(PC, "f32", lambda q, n: q.call("<%s as core::convert::From<f32>>::from" % PC, n), None)

    # a location field: what the location parser says
    lp = impl_fn(W, FS, V + "<core::option::Option<crate::location::Location>>", "from_str")

    def location(q):
        (s,), _ = q.args(lp)
        r = q.call(lp, s)
        if q.branch(ieq(models.seqlen(q.ctx.deref(s)), C(0))):
            if q.variant(r) != "Ok" or q.variant(q.fld(q.payload(r), "0")) != "None":
                q.fail("an empty field means no value", "rejected, or a value")
            return
        o = q.call("crate::location::Location::parse", s)
        if q.variant(o) == "None":
            return q.variant(r) == "Err" or q.fail("a text that is no location is rejected", "accepted")
        if q.variant(r) != "Ok":
            return q.fail("a location is accepted", "rejected")
        q.eq("a location gives its value", q.fld(q.payload(r), "0"), o)
    env.forall("text to location", location, lp)

    def same_number(q, what, got, p):
        """got is p, decided by an analysis of rounding errors; another way to compute it is left undecided"""
        n = q.norm(raw(q, got))
        for y in t.walk(n):
            if y.op == "app" and y.a[0] == "f2i":
                x = y.a[1]
                if q.ctx.facts.faffine(x.a[1] if x.op == "app" and x.a[0] == "fRound" else x) is None:
                    raise I.Undecided("rounding of %s" % t.show(x)[:200])
        q.eq(what, got, p)

    # what is shown for a percentage reads back as the same percentage
    def percent(q):
        p = q.sym("p", ty(q, PC))
        same_number(q, "a percentage read back from its number is itself", q.call("<%s as core::convert::From<f32>>::from" % PC, q.call(PC + "::to_f32", p)), p)
    env.forall("percentages read back", percent, "<%s as core::convert::From<f32>>::from" % PC)

    def single(q):
        RT = "crate::trimmer::RateTrimmer"
        p = q.sym("p", ty(q, PC))
        one = q.const(PC + "::HUNDRED")
        i = cases(q, q.sym("i", W.tyid["usize"]), 0, 3)
        x = q.call(RT + "::from_array", w.mkseq([w.item(p if j == i else one) for j in range(4)]))
        same_number(q, "one rate among 100% ones is the whole rate", q.call(RT + "::sum", q.ctx.ref_to(x)), p)
    env.forall("a single rate", single, "crate::trimmer::RateTrimmer::from_array")
