"""C26 the small code tables are complete, ordered and mutually inverse.

Note values and ordinals, dot and tuplet numbers, time-signature denominators,
variation numbers, octaves, solfa positions and accidental offsets: each
conversion is analysed on every variant and on an arbitrary integer; going there
and back is the identity and integers outside the table are rejected."""
from .. import inv
from .util import *

DN = "crate::duration::Numerator"
NUMS = ["Whole", "Half", "Quarter", "N8th", "N16th", "N32nd", "N64th", "N128th"]


def roundtrip(env, key, path, to, frm, tab, itype, fail="none"):
    """to(v) == tab[v];  frm(i) is the variant with that number, None/Err otherwise"""
    def there(q):
        v = q.sym("v", ty(q, path))
        q.eq("number", q.call(to, v), table(q, v, tab))
        if frm is not None:
            x = q.call(frm, q.call(to, v))
            if q.variant(x) not in ("Ok", "Some"):
                q.fail("own number rejected")
            q.eq("back", q.payload(x), v)
    env.forall(key + "|to", there, to)
    if frm is None:
        return

    def back(q):
        (i,), _ = q.args(frm)
        x = q.call(frm, i)
        inside = bor(*[ieq(i, C(n)) for n in tab.values()])
        if q.variant(x) in ("Ok", "Some"):
            q.eq("number of the variant", q.call(to, q.payload(x)), i)
            q.holds("in the table", inside)
        else:
            q.holds("rejects only what is outside the table", bnot(inside))
    env.forall(key + "|from", back, frm)


def build(env):
    inv.install(env.W)
    roundtrip(env, "note value", DN, DN + "::ord", DN + "::from_ord", {n: i for i, n in enumerate(NUMS)}, "u8")
    RD = "crate::rhythm::Denominator"
    dens = {"D2": 2, "D4": 4, "D8": 8, "D16": 16, "D32": 32, "D64": 64}
    roundtrip(env, "rhythm denominator", RD, RD + "::value", RD + "::from_value", dens, "u8")
    VI = "crate::bar::VarIndex"
    roundtrip(env, "variation", VI, VI + "::value", VI + "::from_value", {"VI1": 1, "VI2": 2, "VI3": 3, "VI4": 4}, "u8")
    OC = "crate::octave::Octave"
    roundtrip(env, "octave", OC, OC + "::value", OC + "::value_of", OCT, "i32")
    roundtrip(env, "octave offset", OC, OC + "::offset", OC + "::from_score_offset", {k: v + 2 for k, v in OCT.items()}, "i32")
    SO = "crate::solfa::Solfa"
    roundtrip(env, "solfa", SO, SO + "::score_offset", None, SOLFA, "i32")
    roundtrip(env, "solfa semitones", SO, SO + "::pitch_offset", None, SEMI, "i32")
    roundtrip(env, "accidental", "crate::sharp_flat::SharpFlat", "crate::sharp_flat::SharpFlat::offset", None, ACC, "i32")

    def solfa_from(q):
        (i,), _ = q.args(SO + "::from_score_offset")
        q.eq("clamped", q.call(SO + "::score_offset", q.call(SO + "::from_score_offset", i)), clamp(i, 0, 6))
    env.forall("solfa from", solfa_from, SO + "::from_score_offset")

    def arith(path, names, lo, hi, num):
        short = path.split("crate::")[1]
        tag = path.split("::")[-1].lower()

        def at(name):
            def assign(q):
                v, n = unit(q, ty(q, path), name), names[name]
                k = q.sym("k", q.W.tyid["i32"])
                up = q.branch(q.sym("up", q.W.tyid["bool"]))
                tr, m = ("AddAssign", "add_assign") if up else ("SubAssign", "sub_assign")
                d = padd(C(n), k) if up else psub(C(n), k)
                q.assume(band(le(C(lo), d), le(d, C(hi))))
                r = q.ctx.ref_to(v)
                q.call(impl_fn(q.W, "core::ops::arith::" + tr, short, m), r, k)
                q.eq(m, q.call(path + "::" + num, q.ctx.deref(r)), d)
            env.forall("arithmetic of %s|%s" % (tag, name), assign, path)

            def add(q):
                b = q.sym("b", ty(q, path))
                d = padd(C(names[name]), table(q, b, names))
                q.assume(band(le(C(lo), d), le(d, C(hi))))
                q.eq("add", q.call(path + "::" + num, q.call(impl_fn(q.W, "core::ops::arith::Add", short, "add"), unit(q, ty(q, path), name), b)), d)
            if path == OC:
                env.forall("sum of %ss|%s" % (tag, name), add, path)
        for name in names:
            at(name)
    arith(OC, OCT, -2, 8, "value")
    arith(SO, SOLFA, 0, 6, "score_offset")

    def steps(q):
        v = q.sym("v", ty(q, VI))
        n = table(q, v, {"VI1": 1, "VI2": 2, "VI3": 3, "VI4": 4})
        for m, d in (("next", 1), ("prev", -1)):
            r = q.call(VI + "::" + m, v)
            if q.variant(r) == "Ok":
                q.eq(m, q.call(VI + "::value", q.payload(r)), padd(n, C(d)))
            else:
                q.holds(m + " fails only at the end", ieq(n, C(4 if d > 0 else 1)))
        for i in range(1, 5):
            if q.branch(ieq(n, C(i))):
                q.eq("to_repeat", q.call(VI + "::to_repeat", v), unit(q, ty(q, "crate::bar::Repeat"), "Var%d" % i))
    env.forall("variation steps", steps, VI)

    # small restricted numbers: accepted range, value kept
    for key, path, frm, val, lo, hi in (("dots", "crate::duration::Dots", "from_value", "value", 0, 7),
                                        ("tuplet denominator", "crate::duration::Denominator", "from_value", "value", 2, 255),
                                        ("rhythm numerator", "crate::rhythm::Numerator", "from_value", "value", 1, 99)):
        def f(q, path=path, frm=frm, val=val, lo=lo, hi=hi):
            (i,), _ = q.args(path + "::" + frm)
            r = q.call(path + "::" + frm, i)
            ins = band(le(C(lo), i), le(i, C(hi)))
            if q.variant(r) in ("Ok", "Some"):
                q.holds("accepted", ins)
                q.eq("value kept", q.call(path + "::" + val, q.payload(r)), i)
            else:
                q.holds("rejected", bnot(ins))
        env.forall(key, f, path + "::" + frm)

    def clamped(q):
        for path, acc, lo, hi in (("crate::velocity::Velocity", "as_u8", 0, 127), ("crate::play_iter::PlayIter", "iter", 1, 5), ("crate::percent::PercentU16", None, 0, 2000)):
            f = path + ("::from_value" if acc is None else "::new")
            (i,), _ = q.args(f)
            i = q.sym("i" + path, i.ty if i.op == "sym" else None) if False else i
            r = q.call(f, i)
            q.eq("clamps: " + path, raw(q, r) if acc is None else q.call(path + "::" + acc, r), clamp(i, lo, hi))
        (i,), _ = q.args("crate::tempo::TempoValue::safe_new")
        q.eq("clamps: tempo", q.call("crate::tempo::TempoValue::as_u16", q.call("crate::tempo::TempoValue::safe_new", i)), clamp(i, 1, 999))
    env.forall("clamping constructors", clamped, "crate::velocity::Velocity::new")

    def lists(q):
        for path, tys, want in (("crate::octave::Octave::ALL", "crate::octave::Octave", list(OCT)),
                                ("crate::solfa::Solfa::ALL", "crate::solfa::Solfa", list(SOLFA)),
                                ("crate::rhythm::DENOMINATORS", RD, list(dens))):
            s = q.const(path)
            while s.op == "ref":
                s = q.ctx.deref(s)
            s = q.ctx.whnf(s)
            q.eq("length of " + path, w.seqlen(s), C(len(want)))
            for i, n in enumerate(want):
                q.eq("%s[%d]" % (path, i), w.mkat(s, C(i)), unit(q, ty(q, tys), n))
        s = q.const("crate::key::Key::ALL")
        while s.op == "ref":
            s = q.ctx.deref(s)
        s = q.ctx.whnf(s)
        q.eq("number of keys", w.seqlen(s), C(15))
        got = []
        for i in range(15):
            v = q.norm(raw(q, w.mkat(s, C(i))))
            got.append(v.a[0] if v.op == "poly" and not v.a[1] else None)
        q.holds("every key once", t.boolc(sorted(x for x in got if x is not None) == list(range(-7, 8))))
        for i in range(1, 8):
            for nm, sgn in (("SHARP_%d", 1), ("FLAT_%d", -1)):
                k = q.const("crate::key::Key::" + nm % i)
                q.eq(nm % i, q.call("crate::key::Key::offset", k), C(sgn * i))
        k = q.sym("k", ty(q, "crate::key::Key"))
        o = q.call("crate::key::Key::offset", k)
        q.eq("is_flat", q.call("crate::key::Key::is_flat", k), lt(o, C(0)))
        q.eq("is_sharp", q.call("crate::key::Key::is_sharp", k), lt(C(0), o))
    env.forall("lists", lists, "crate::key::Key::ALL")

    def constants(q):
        NB = W = q.W
        for n, v in zip("ZERO ONE TWO THREE FOUR FIVE SIX SEVEN".split(), range(8)):
            q.eq("Dots::" + n, q.call("crate::duration::Dots::value", q.const("crate::duration::Dots::" + n)), C(v))
        for path, acc, v in (("crate::velocity::MIN", "crate::velocity::Velocity::as_u8", 0), ("crate::velocity::MAX", "crate::velocity::Velocity::as_u8", 127),
                             ("crate::tempo::MIN_TEMPO", "crate::tempo::TempoValue::as_u16", 1), ("crate::tempo::MAX_TEMPO", "crate::tempo::TempoValue::as_u16", 999),
                             ("crate::octave::MIN", "crate::octave::Octave::value", -2), ("crate::octave::MAX", "crate::octave::Octave::value", 8),
                             ("crate::key::Key::NONE", "crate::key::Key::offset", 0),
                             ("crate::pitch::MIN", "crate::pitch::Pitch::value", 0), ("crate::pitch::MAX", "crate::pitch::Pitch::value", 127)):
            x = q.const(path)
            f = W.fns[q.prog.fid(acc)]["body"]["locals"][1]
            q.eq(path[7:], q.call(acc, q.ctx.ref_to(x) if W.is_ref(f) else x), C(v))
        for path, v in (("crate::velocity::MIN_VALUE", 0), ("crate::velocity::MAX_VALUE", 127), ("crate::tempo::MIN_TEMPO_VALUE", 1), ("crate::tempo::MAX_TEMPO_VALUE", 999),
                        ("crate::rhythm::MIN_NUMERATOR", 1), ("crate::rhythm::MAX_NUMERATOR", 99), ("crate::pitch::MIN_VALUE", 0), ("crate::pitch::MAX_VALUE", 127),
                        ("crate::play_iter::MAX_ITER", 5), ("crate::trimmer::COUNT", 4)):
            q.eq(path[7:], q.const(path), C(v))
        for n, v in (("MIN", 0), ("MAX", 2000), ("ZERO", 0), ("HUNDRED", 1000)):
            q.eq("PercentU16::" + n, raw(q, q.const("crate::percent::PercentU16::" + n)), C(v))
        for n, v in (("TICK_RESOLUTION", 240), ("MIN_DENOMINATOR", 2), ("MAX_DENOMINATOR", 255), ("MAX_DOT", 7), ("MAX_NUMERATOR", 7)):
            q.eq("Duration::" + n, q.const("crate::duration::Duration::" + n), C(v))
    env.forall("named constants", constants, "crate::duration::Dots::ZERO")
