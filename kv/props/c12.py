"""C12 a pitch is a MIDI number 0..=127 and its derived attributes agree with its
solfa / octave / accidental, whichever way it was made.

Part 1 (value_of/new/to_value): for an arbitrary solfa, octave and accidental
(all 462 combinations, as one symbolic triple) the note number computed by an
independent table decides Ok / TooLow / TooHigh, and an Ok pitch reports exactly
the parts it was made of, that number, and score offset solfa + 7*octave.
Part 2 (sites): every place of the crate that builds a Pitch is enumerated from
the MIR, and each externally callable function reaching it is analysed on
arbitrary arguments: the built value must satisfy the same relation."""
from .. import models, sites
from .. import terms as t
from .util import *


def relation(q, p, s=None, o=None, a=None):
    vs = q.call(PITCH + "::value", p)
    so = q.call(PITCH + "::score_offset", p)
    s = s or q.call(PITCH + "::solfa", p)
    o = o or q.call(PITCH + "::octave", p)
    a = a or q.call(PITCH + "::sharp_flat", p)
    return vs, so, s, o, a


def build(env):
    W = env.W

    def value_of(q):
        s, o, a = soa(q)
        v = pitch_value(q, s, o, a)
        r = q.call(PITCH + "::value_of", s, o, a)
        q.eq("to_value", q.call(PITCH + "::to_value", s, o, a), v)
        k = q.variant(r)
        q.holds("accepts exactly 0..=127", band(le(C(0), v), le(v, C(127))) if k == "Ok" else bor(lt(v, C(0)), lt(C(127), v)))
        if k == "Ok":
            p = q.payload(r)
            q.eq("solfa", q.call(PITCH + "::solfa", p), s)
            q.eq("octave", q.call(PITCH + "::octave", p), o)
            q.eq("sharp_flat", q.call(PITCH + "::sharp_flat", p), a)
            q.eq("value", q.call(PITCH + "::value", p), v)
            q.eq("score_offset", q.call(PITCH + "::score_offset", p), pitch_so(q, s, o))
        else:
            e = q.payload(r)
            kk = q.variant(e)
            q.holds("error kind", lt(v, C(0)) if kk == "TooLow" else lt(C(127), v) if kk == "TooHigh" else t.FALSE)
    env.forall("value_of", value_of, PITCH + "::value_of")

    def new(q):
        s, o, a = soa(q)
        v = pitch_value(q, s, o, a)
        q.assume(band(le(C(0), v), le(v, C(127))))
        p = q.call(PITCH + "::new", s, o, a)
        q.eq("value", q.call(PITCH + "::value", p), v)
        q.eq("solfa", q.call(PITCH + "::solfa", p), s)
        q.eq("octave", q.call(PITCH + "::octave", p), o)
        q.eq("sharp_flat", q.call(PITCH + "::sharp_flat", p), a)
    env.forall("new", new, PITCH + "::new")

    def bounds(q):
        for nm, v in (("MIN", 0), ("MAX", 127)):
            p = q.const("crate::pitch::" + nm)
            q.eq(nm, q.call(PITCH + "::value", p), C(v))
    env.forall("bounds", bounds, "crate::pitch::MIN")

    def conds(q, vs):
        p = w.mkadt(ty(W, PITCH), 0, *vs)
        old, models.AGGHOOK[0] = models.AGGHOOK[0], None
        try:
            val, so, s, o, a = relation(q, p)
            v = pitch_value(q, s, o, a)
            return [("note number differs from its parts", ieq(val, v)), ("note number outside 0..127", band(le(C(0), val), le(val, C(127)))),
                    ("score offset differs from its parts", ieq(so, pitch_so(q, s, o)))]
        finally:
            models.AGGHOOK[0] = old

    sites.invariant_obligations(env, PITCH, conds, "pitch relation")
