"""C25 what is made has exactly the attributes asked for, and the defaults for the rest.

The builders of notes and pitches are analysed in an arbitrary state (any subset of
attributes set, to any value): a setter changes its attribute only, and building gives each set
attribute as set and each other one at its default, a pitch only when it is one.
Constructors keep their arguments. The defaults themselves are compared with a table."""
from .. import interp as I, inv, models
from . import edits as E
from .util import *

P = "crate::pitch::Pitch"
PB = "crate::pitch::PitchBuilder"
NB = "crate::note::NoteBuilder"
N = "crate::note::Note"


def build(env):
    W = env.W
    inv.install(W)

    def deref(q, v):
        while v.op == "ref":
            v = q.ctx.deref(v)
        return q.ctx.whnf(v)

    def default(q, path):
        return q.call("<%s as core::default::Default>::default" % path)

    def value(q, v):
        return q.ctx.whnf(v)

    def setters(B, attrs):
        def f(q, a):
            b = q.sym("b", ty(q, B))
            (_, x), _d = q.args(B + "::" + a)
            before = q.ctx.whnf(b)
            bt = ty(q, B)
            r = q.ctx.ref_to(b)
            fb = q.W.fns[q.prog.fid(B + "::" + a)]["body"]
            got = deref(q, q.call(B + "::" + a, r if W.is_ref(fb["locals"][1]) else b, x))
            for k in attrs:
                o = q.fld(got, k)
                if k == a:
                    q.holds("%s is set" % k, is_(q, o, "Some"))
                    q.eq("%s as given" % k, q.payload(o), x)
                else:
                    q.eq("%s is left alone" % k, o, q.fld(before, k))
        for a in attrs:
            env.forall("setter " + B.rsplit("::", 1)[1] + " " + a, lambda q, a=a: f(q, a), B + "::" + a)

    na = [x["n"] for x in W.variants(W.tyid[N])[0]["fields"]]
    setters(NB, na)
    pa = ["solfa", "octave", "sharp_flat"]
    setters(PB, pa)

    def fresh(q):
        for B, attrs in ((NB, na), (PB, pa)):
            b = default(q, B)
            for a in attrs:
                q.holds("a new builder has no %s" % a, is_(q, q.fld(b, a), "None"))
    env.forall("new builders", fresh, "<%s as core::default::Default>::default" % NB)

    def note(q):
        b = q.sym("b", ty(q, NB))
        d = default(q, N)
        k = cases(q, q.sym("attr", W.tyid["u8"]), 0, len(na) - 1)
        r = q.call(NB + "::build", q.ctx.ref_to(b))
        if q.variant(r) != "Ok":
            return q.fail("a note is built", "refused")
        n = q.payload(r)
        a = na[k]
        if q.variant(q.fld(b, a)) == "Some":
            q.eq("%s as set" % a, q.fld(n, a), q.payload(q.fld(b, a)))
        else:
            q.eq("%s at its default" % a, q.fld(n, a), q.fld(d, a))
    env.forall("a note is built", note, NB + "::build")

    def pitch(q):
        b = q.sym("b", ty(q, PB))
        d = default(q, P)
        parts = []
        for a in pa:
            o = q.fld(b, a)
            parts.append(q.payload(o) if q.variant(o) == "Some" else q.call(P + "::" + a, d))
        want = q.call(P + "::value_of", *parts)
        r = q.call(PB + "::build", q.ctx.ref_to(b))
        if q.variant(want) == "Err":
            return q.variant(r) == "Err" or q.fail("only pitches are built", "built")
        if q.variant(r) != "Ok":
            return q.fail("a pitch is built", "refused")
        q.eq("the pitch of the parts", q.payload(r), q.payload(want))
    env.forall("a pitch is built", pitch, PB + "::build")

    def new(path, attrs, anchor=None):
        def f(q):
            args, _ = q.args(path)
            x = q.call(path, *args)
            for a, y in zip(attrs, args):
                q.eq("%s as given" % a, q.fld(x, a), y)
        env.forall("new " + path.split("::")[-2], f, path)
    new(N + "::new", na)
    new("crate::duration::Duration::new", ["numerator", "denominator", "dots"])
    new("crate::ctrl_chg::CtrlChg::new", ["start_tick", "velocity"])

    def bar(q):
        f = BARP + "::new"
        args, _ = q.args(f)
        x = q.call(f, *args)
        for a, y in zip(("start_tick", "rhythm", "key", "repeats"), args):
            q.eq("%s as given" % a, q.fld(x, a), y)
    env.forall("new Bar", bar, BARP + "::new")

    def tempo(q):
        (tk, v), _ = q.args(TEMPO + "::new")
        q.assume(band(le(C(1), v), le(v, C(999))))
        x = q.call(TEMPO + "::new", tk, v)
        q.eq("start_tick as given", q.fld(x, "start_tick"), tk)
        q.eq("tempo as given", q.call("crate::tempo::TempoValue::as_u16", q.fld(x, "value")), v)
        q.eq("both accessors agree", q.call("crate::tempo::TempoValue::value", q.fld(x, "value")), v)
    env.forall("new Tempo", tempo, TEMPO + "::new")

    R = "crate::rhythm::Rhythm"

    def rhythm(q):
        (n, d), _ = q.args(R + "::value_of")
        r = q.call(R + "::value_of", n, d)
        okn = band(le(C(1), n), le(n, C(99)))
        okd = bor(*[ieq(d, C(1 << i)) for i in range(1, 7)])
        if q.variant(r) != "Ok":
            return q.holds("refused only out of range", bnot(band(okn, okd)))
        x = q.payload(r)
        q.holds("a time signature", band(okn, okd))
        q.eq("beats", q.call("crate::rhythm::Numerator::value", q.call(R + "::numerator", x)), n)
        q.eq("beat unit", q.call("crate::rhythm::Denominator::value", q.call(R + "::denominator", x)), d)
        q.eq("made directly", q.call(R + "::new", n, d), x)
    env.forall("time signature", rhythm, R + "::value_of")

    def rates(q):
        f = "crate::trimmer::RateTrimmer::new"
        args, _ = q.args(f)
        x = q.ctx.ref_to(q.call(f, *args))
        for i, a in enumerate(args):
            got = q.call("crate::trimmer::RateTrimmer::value", x, C(i))
            q.eq("rate %d" % i, raw(q, got), raw(q, q.call("<crate::percent::PercentU16 as core::convert::From<f32>>::from", a)))
    env.forall("rates", rates, "crate::trimmer::RateTrimmer::new", max_paths=20000)

    def changes(q):
        M = "crate::models::ModelChanges"
        kinds = ["notes", "bars", "tempos", "dumpers", "softs"]
        x = q.sym("x", ty(q, M))
        for k in kinds:
            (_, l), _d = q.args(M + "::with_" + k)
            same_but(q, "with_" + k, q.call(M + "::with_" + k, x, l), x, **{k: l})
        args, _ = q.args(M + "::with_capacity")
        for e in (q.call(M + "::empty"), q.call(M + "::with_capacity", *args)):
            for k in kinds:
                q.eq("no %s at first" % k, models.seqlen(q.ctx.whnf(q.fld(e, k))), C(0))
    env.forall("change lists", changes, "crate::models::ModelChanges", panics="allow")

    def defaults(q):
        q.eq("tempo 120", q.call("crate::tempo::TempoValue::as_u16", default(q, "crate::tempo::TempoValue")), C(120))
        tm = default(q, TEMPO)
        q.eq("a tempo change at 0", q.fld(tm, "start_tick"), C(0))
        q.eq("of 120", q.call("crate::tempo::TempoValue::as_u16", q.fld(tm, "value")), C(120))
        r = default(q, R)
        q.eq("4 beats", q.call("crate::rhythm::Numerator::value", q.call(R + "::numerator", r)), C(4))
        q.eq("in quarters", q.call("crate::rhythm::Denominator::value", q.call(R + "::denominator", r)), C(4))
        q.eq("no accidentals", q.call("crate::key::Key::offset", default(q, "crate::key::Key")), C(0))
        q.eq("grid of a sixteenth", q.call("crate::grid::Grid::as_u32", default(q, "crate::grid::Grid")), C(60))
        d = default(q, "crate::duration::Duration")
        q.eq("a quarter note", q.call("crate::duration::Duration::tick_length", d), C(240))
        q.eq("without dots", q.call("crate::duration::Dots::value", q.fld(d, "dots")), C(0))
        q.eq("not a tuplet", q.call("crate::duration::Denominator::value", q.fld(d, "denominator")), C(2))
        p = default(q, P)
        q.eq("A4", q.call(P + "::value", p) if W.fns[q.prog.fid(P + "::value")]["body"]["argc"] else None, C(69 + 12))
        q.eq("first pass", q.call("crate::play_iter::PlayIter::iter", default(q, "crate::play_iter::PlayIter")), C(1))
        q.eq("no trim", q.call("crate::trimmer::Trimmer::sum", q.ctx.ref_to(default(q, "crate::trimmer::Trimmer"))), C(0))
        q.eq("full length", raw(q, q.call("crate::trimmer::RateTrimmer::sum", q.ctx.ref_to(default(q, "crate::trimmer::RateTrimmer")))), C(1000))
        q.eq("first channel", q.call("crate::channel::Channel::as_u8", default(q, "crate::channel::Channel")), C(0))
        n = default(q, N)
        q.eq("a note at 0", q.fld(n, "base_start_tick"), C(0))
        for a in ("tie", "tied"):
            q.holds("no " + a, bnot(q.fld(n, a)))
        for a, path in (("pitch", P), ("duration", "crate::duration::Duration"), ("channel", "crate::channel::Channel"), ("base_velocity", "crate::velocity::Velocity")):
            q.eq("a note's %s is the default one" % a, q.fld(n, a), default(q, path))
        pr = default(q, PROJ)
        q.eq("a new project is in 4/4", accessed(q, pr, "rhythm"), r)
        q.eq("a new project has no key", accessed(q, pr, "key"), default(q, "crate::key::Key"))
        for k, es in E.content(q, pr).items():
            q.eq("a new project has no " + k, C(len(es)), C(0))
    env.forall("defaults", defaults, "<%s as core::default::Default>::default" % N)

