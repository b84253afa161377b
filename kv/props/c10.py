"""C10 locations (bar number and offset) and ticks convert consistently.

For every project with up to a bound of bars (arbitrary ascending ticks and settings)
and an arbitrary location or tick: location_to_tick is compared with the documented
extrapolation (a bar's own tick plus the offset; beyond the last bar whole bars of the
time signature in force there; with no bars whole bars of the project's), overflow is
reported exactly when the sum is not a 32-bit tick, and tick_to_location gives the
last bar not after the tick and the distance from it, so that going there and back is
the identity.  Parsing accepts exactly `digits:digits` whose numbers are representable."""
from .. import inv, models
from .util import *

P = "crate::project::ProjectImpl"
BAR = "crate::bar::Bar"
LOC = "crate::location::Location"
UMAX = (1 << 64) - 1


def build(env):
    W = env.W
    inv.install(W)

    def loc(q):
        b, o = q.sym("bar_no", W.tyid["usize"]), q.sym("offset", W.tyid["usize"])
        l = q.call(LOC + "::new", b, o)
        return l, b, o

    def new(q):
        l, b, o = loc(q)
        q.eq("bar number", q.call(LOC + "::bar_no", q.ctx.ref_to(l)), b)
        q.eq("offset", q.call(LOC + "::offset", q.ctx.ref_to(l)), o)
    env.forall("new", new, LOC + "::new")

    def rlen(q, p, last):
        rh = q.call(P + "::rhythm", q.ctx.ref_to(p)) if last is None else q.call(P + "::rhythm_at", q.ctx.ref_to(p), q.fld(last, "start_tick"))
        return q.call("crate::rhythm::Rhythm::tick_len", rh)

    def to_tick(k, beyond):
        def f(q):
            bars = entries(q, k, BAR)
            p = project(q, bar_repo=bars)
            o = q.sym("offset", W.tyid["usize"])
            m = q.sym("m", W.tyid["usize"])
            if beyond:
                b = padd(m, C(k))
                q.assume(band(le(C(1), m), le(b, C(UMAX))))
            else:
                b = m
                q.assume(le(b, C(k)))
            res = q.call(P + "::location_to_tick", q.ctx.ref_to(p), q.call(LOC + "::new", b, o))
            want = None
            if not beyond:
                want = o
                for i, x in enumerate(bars):
                    if q.branch(ieq(b, C(i + 1))):
                        want = padd(q.fld(x, "start_tick"), o)
            elif q.branch(lt(C(U32), b)):
                want = b            # no tick can have that many bars before it
            elif k == 0:
                want = padd(t.pmul(m, rlen(q, p, None)), o)
            else:
                want = padd(padd(t.pmul(m, rlen(q, p, bars[-1])), o), q.fld(bars[-1], "start_tick"))
            if q.variant(res) == "Ok":
                q.eq("tick", q.payload(res), want)
            else:
                q.holds("refused only when no 32-bit tick", lt(C(U32), want))
        env.forall("to tick, %s%d bars" % ("beyond " if beyond else "", k), f, P + "::location_to_tick", setup=abstract(P + "::rhythm_at"))

    def to_loc(k):
        def f(q):
            bars = entries(q, k, BAR)
            p = project(q, bar_repo=bars)
            tick = q.sym("tick", W.tyid["u32"])
            l = q.call(P + "::tick_to_location", q.ctx.ref_to(p), tick)
            no, base = C(0), C(0)
            for i, x in enumerate(bars):
                c = le(q.fld(x, "start_tick"), tick)
                no, base = ite(c, C(i + 1), no), ite(c, q.fld(x, "start_tick"), base)
            r = q.ctx.ref_to(l)
            q.eq("bar number", q.call(LOC + "::bar_no", r), no)
            q.eq("offset", q.call(LOC + "::offset", r), psub(tick, base))
            back = q.call(P + "::location_to_tick", q.ctx.ref_to(p), l)
            if q.variant(back) != "Ok":
                q.fail("location of a tick refused")
            q.eq("there and back", q.payload(back), tick)
        env.forall("to location, %d bars" % k, f, P + "::tick_to_location", setup=abstract(P + "::rhythm_at"))
    for k in range(4 if env.tier == "quick" else 6):
        to_tick(k, False)
        to_tick(k, True)
        to_loc(k)

    def general(q):
        p = q.sym("p", ty(q, P))
        tick = q.sym("tick", W.tyid["u32"])
        s = accessed(q, p, "bar_repo")
        n, u = w.seqlen(s), models.st_upper(s, tick)
        l = q.call(P + "::tick_to_location", q.ctx.ref_to(p), tick)
        r = q.ctx.ref_to(l)
        q.assume(band(le(C(0), u), le(u, n)))
        e = q.fld(w.mkfld(w.mkat(s, psub(u, C(1)), models.store_elem(I.value_type(s))), 0, 1), "start_tick")
        if q.branch(models.st_has(s, tick)):
            q.assume(le(C(1), u))
            q.assume(ieq(e, tick))
        elif q.branch(le(C(1), u)):
            q.assume(lt(e, tick))
        shape_eq(q, "bar number", q.call(LOC + "::bar_no", r), u)
        shape_eq(q, "offset", q.call(LOC + "::offset", r), psub(tick, ite(le(u, C(0)), C(0), e)))
    env.forall("to location, any number of bars", general, P + "::tick_to_location", panics="allow")

    def parse(q):
        from .. import relang
        (s,), _ = q.args(LOC + "::parse")
        x = q.call(LOC + "::parse", s)
        txt = s
        while txt.op == "ref" or (txt.ty is not None and W.is_ref(txt.ty)):
            txt = q.ctx.deref(txt)
        pats = {y.a[1].a[0] for y in t.walk(q.norm(x)) if y.op == "app" and y.a[0] == "re.match"}
        if len(pats) != 1:
            raise I.Undecided("how the text is taken apart: %s" % t.show(x)[:200])
        pat = pats.pop()
        d = relang.difference(pat, r"^(\d+):(\d+)$")
        if d is not None:
            q.fail("accepted texts", "pattern %s differs from digits:digits on %r" % (pat, d))
        lit = [y for y in t.walk(q.norm(x)) if y.op == "app" and y.a[0] == "re.match"][0].a[1]
        k = q.variant(x)
        m = q.branch(w.mk("app", "re.match", lit, txt))
        if k == "None":
            # a matching text is refused only when one of its numbers is not representable
            bad = [y for y, v in q.ctx.facts.bools.items() if y.op == "app" and y.a[0] == "parses" and not v]
            return q.holds("refused only when it does not match or a number is too large", t.boolc(not m or bool(bad)))
        q.holds("only matching texts are accepted", t.boolc(m))
        r = q.ctx.ref_to(q.payload(x))
        for i, f in ((1, "bar_no"), (2, "offset")):
            v = q.norm(q.call(LOC + "::" + f, r))
            z = t.single_atom(v) if v.op == "poly" else v
            gs = [y.a[3].a[0] for y in t.walk(z) if y.op == "app" and y.a[0] == "re.group"] if z is not None and z.op == "parsedint" else None
            if gs is None:
                raise I.Undecided("number of the group: %s" % t.show(v)[:200])
            q.holds("%s is group %d as a number" % (f, i), t.boolc(set(gs) == {i}))
    env.forall("parse", parse, LOC + "::parse")
    delegates(env, "location_to_tick", "tick_to_location", "bar_no")
