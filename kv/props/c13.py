"""C13 moving a pitch (up/down, toggles, staff offset, key signature) changes
exactly what it names and fails only when the target is not a pitch.

Each operation is analysed on an arbitrary valid pitch; the target is described
by independent tables (staff position = solfa + 7*octave, accidental cycle, key
signature order F C G D A E B).  An Ok result must report the target's staff
position / solfa / octave / accidental; an Err result must imply that no pitch
with the target's attributes has a note number in 0..=127 (or that the staff
position is outside the documented 0..=74)."""
from .util import *

SHARPS = ["F", "C", "G", "D", "A", "E", "B"]


def semi_of(so):
    """semitones of the natural note at an integer staff position"""
    return 12 * (so // 7) + [0, 2, 4, 5, 7, 9, 11][so % 7]


def parts(q):
    """an arbitrary valid pitch, one path per solfa, octave and accidental"""
    s, o, a = soa(q)
    ks, ko, ka = q.variant(s), q.variant(o), q.variant(a)
    p = ok(q, q.call(PITCH + "::value_of", s, o, a))
    return p, a, SOLFA[ks] + 7 * (OCT[ko] + 2), ACC[ka], ka


def build(env):
    for nm, d in (("up", 1), ("down", -1)):
        def step(q, nm=nm, d=d):
            p, a, so, acc, _ = parts(q)
            r = q.call(PITCH + "::" + nm, p)
            if q.variant(r) == "Ok":
                x = q.payload(r)
                q.eq("staff position moves by one", q.call(PITCH + "::score_offset", x), C(so + d))
                q.eq("accidental kept", q.call(PITCH + "::sharp_flat", x), a)
            elif 0 <= so + d < 77 and 0 <= semi_of(so + d) + acc <= 127:
                q.fail("fails although there is such a pitch")
        env.forall(nm, step, PITCH + "::" + nm)

    CYC = {"toggle_sharp": {"Sharp": "DoubleSharp", "DoubleSharp": "Null", None: "Sharp"},
           "toggle_flat": {"Flat": "DoubleFlat", "DoubleFlat": "Null", None: "Flat"},
           "toggle_natural": {"Natural": "Null", None: "Natural"}}
    for nm, cyc in CYC.items():
        def tog(q, nm=nm, cyc=cyc):
            p, s, o, a = pitch(q)
            k = q.variant(a)
            tgt = cyc.get(k, cyc[None])
            v = padd(padd(table(q, s, SEMI), pscale(padd(table(q, o, OCT), C(2)), 12)), C(ACC[tgt]))
            r = q.call(PITCH + "::" + nm, p)
            if q.variant(r) == "Ok":
                x = q.payload(r)
                q.eq("solfa kept", q.call(PITCH + "::solfa", x), s)
                q.eq("octave kept", q.call(PITCH + "::octave", x), o)
                q.eq("accidental", q.call(PITCH + "::sharp_flat", x), unit(q, ty(q, "crate::sharp_flat::SharpFlat"), tgt))
            else:
                q.holds("fails only outside 0..127", bor(lt(v, C(0)), lt(C(127), v)))
        env.forall(nm, tog, PITCH + "::" + nm)

    def from_so(q):
        (x,), _ = q.args(PITCH + "::from_score_offset")
        p = q.call(PITCH + "::from_score_offset", x)
        q.eq("clamped staff position", q.call(PITCH + "::score_offset", p), clamp(x, 0, 74))
        q.eq("no accidental", q.call(PITCH + "::sharp_flat", p), unit(q, ty(q, "crate::sharp_flat::SharpFlat"), "Null"))
    env.forall("from_score_offset", from_so, PITCH + "::from_score_offset")

    for ka, acc in ACC.items():
        def delta(q, ka=ka, acc=acc):
            p = q.sym("p", ty(q, PITCH))
            so = q.call(PITCH + "::score_offset", p)
            a = q.call(PITCH + "::sharp_flat", p)
            q.assume(band(le(C(0), so), le(so, C(74))))
            q.assume(is_(q, a, ka))
            d = q.args(PITCH + "::with_score_offset_delta")[0][1]
            to = padd(so, d)
            r = q.call(PITCH + "::with_score_offset_delta", p, d)
            if q.variant(r) == "Ok":
                x = q.payload(r)
                q.eq("staff position moves by the delta", q.call(PITCH + "::score_offset", x), to)
                q.eq("accidental kept", q.call(PITCH + "::sharp_flat", x), a)
                q.holds("within 0..74", band(le(C(0), to), le(to, C(74))))
            else:
                # a pitch exists at every staff position 0..=74 whose number stays in range
                lo = next(i for i in range(75) if semi_of(i) + acc >= 0)
                hi = next(i for i in range(74, -1, -1) if semi_of(i) + acc <= 127)
                q.holds("fails only when there is no such pitch", bor(lt(to, C(lo)), lt(C(hi), to)))
        env.forall("with_score_offset_delta %s" % ka, delta, PITCH + "::with_score_offset_delta")

    for k in range(-7, 8):
        def key(q, k=k):
            p, s, o, a = pitch(q)
            kv = w.mkadt(ty(q, "crate::key::Key"), 0, C(k))
            r = q.call(PITCH + "::apply_key", p, kv)
            sig = SHARPS[:k] if k > 0 else list(reversed(SHARPS))[:-k] if k < 0 else []
            ka, ks = q.variant(a), q.variant(s)
            tgt = ka
            if ka == "Null" and ks in sig:
                tgt = "Sharp" if k > 0 else "Flat"
            v = padd(padd(C(SEMI[ks]), pscale(padd(table(q, o, OCT), C(2)), 12)), C(ACC[tgt]))
            if q.variant(r) == "Ok":
                x = q.payload(r)
                q.eq("solfa kept", q.call(PITCH + "::solfa", x), s)
                q.eq("octave kept", q.call(PITCH + "::octave", x), o)
                q.eq("accidental", q.call(PITCH + "::sharp_flat", x), unit(q, ty(q, "crate::sharp_flat::SharpFlat"), tgt))
            else:
                q.holds("fails only outside 0..127", bor(lt(v, C(0)), lt(C(127), v)))
        env.forall("apply_key(%d)" % k, key, PITCH + "::apply_key")
