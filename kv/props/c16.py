"""C16 editing one attribute of a note, bar, tempo or pedal event changes only that
attribute, by exactly the requested amount, and refuses what is out of range.

For an arbitrary item and arbitrary arguments every attribute of the result of
with_tick_added, drag, with_duration*, add_dots, the pitch motions, toggle_tie and
the tempo steps is compared with the attribute it came from."""
from .. import inv
from .util import *

N, B, T_, CC = "crate::note::Note", "crate::bar::Bar", "crate::tempo::Tempo", "crate::ctrl_chg::CtrlChg"
TV = "crate::tempo::TempoValue"
U32MAX = (1 << 32) - 1
DU = "crate::duration::Duration"


def build(env):
    W = env.W
    inv.install(W)

    def item(q, p):
        x = q.sym("x", ty(q, p))
        return x, q.ctx.ref_to(x)

    def tick_of(p):
        return "base_start_tick" if p == N else "start_tick"

    for p in (N, B, T_, CC):
        def added(q, p=p):
            x, r = item(q, p)
            d = q.sym("tick_delta", q.W.tyid["i32"])
            args = [r, d]
            trim = False
            if p == N:
                b = q.sym("is_trim", q.W.tyid["bool"])
                args.append(b)
                trim = q.branch(b)
            base = q.fld(x, tick_of(p))
            q.assume(le(padd(base, d), C(U32MAX)))
            res = q.call(p + "::with_tick_added", *args)
            if q.variant(res) == "Ok":
                y = q.payload(res)
                q.holds("accepted only when not before the start", le(C(0), padd(base, d)))
                if trim:
                    same_but(q, "trim", y, x, start_tick_trimmer=q.call("crate::trimmer::Trimmer::added", q.fld(x, "start_tick_trimmer"), d))
                else:
                    same_but(q, "move", y, x, **{tick_of(p): padd(base, d)})
            else:
                q.holds("refused only when before the start", lt(padd(base, d), C(0)))
        env.forall("with_tick_added of " + p, added, p + "::with_tick_added")

    def moved(base, d):
        return clamp(padd(base, d), 0, U32MAX)

    for p in (B, CC):
        def drag(q, p=p):
            x, r = item(q, p)
            d = q.sym("tick_delta", q.W.tyid["i32"])
            same_but(q, "drag", q.call(p + "::drag", r, d), x, start_tick=moved(q.fld(x, "start_tick"), d))
        env.forall("drag of " + p, drag, p + "::drag")

    def tdrag(q):
        x, r = item(q, T_)
        d, v = q.sym("tick_delta", q.W.tyid["i32"]), q.sym("tempo_delta", q.W.tyid["i32"])
        y = q.call(T_ + "::drag", r, d, v)
        q.eq("drag: tick", q.fld(y, "start_tick"), moved(q.fld(x, "start_tick"), d))
        q.eq("drag: tempo", q.call(TV + "::as_u16", q.fld(y, "value")), clamp(padd(q.call(TV + "::as_u16", q.fld(x, "value")), v), 1, 999))
    env.forall("drag of " + T_, tdrag, T_ + "::drag")

    def ndrag(q):
        x, r = item(q, N)
        d, s = q.sym("tick_delta", q.W.tyid["i32"]), q.sym("score_offset_delta", q.W.tyid["i32"])
        y = q.call(N + "::drag", r, d, s)
        m = q.call(PITCH + "::with_score_offset_delta", q.fld(x, "pitch"), s)
        pit = q.payload(m) if q.variant(m) == "Ok" else q.fld(x, "pitch")
        same_but(q, "drag", y, x, base_start_tick=moved(q.fld(x, "base_start_tick"), d), pitch=pit)
    # with_score_offset_delta itself is decided by C13: here it is a function of the pitch and the delta
    env.forall("drag of " + N, ndrag, N + "::drag", setup=abstract(PITCH + "::with_score_offset_delta"))

    def pitches(q):
        x, r = item(q, N)
        for m, g in (("up_score_offset", "up"), ("down_score_offset", "down"), ("toggle_sharp", "toggle_sharp"), ("toggle_flat", "toggle_flat"), ("toggle_natural", "toggle_natural")):
            res = q.call(N + "::" + m, r)
            want = q.call(PITCH + "::" + g, q.fld(x, "pitch"))
            k = q.variant(want)
            if q.variant(res) != k:
                q.fail(m + " accepts what the pitch motion refuses, or the reverse")
            if k == "Ok":
                same_but(q, m, q.payload(res), x, pitch=q.payload(want))
            else:
                q.eq(m + " error", q.payload(res), q.payload(want))

    hide = abstract(*(PITCH + "::" + g for g in ("up", "down", "toggle_sharp", "toggle_flat", "toggle_natural")))
    env.forall("pitch motions", pitches, N + "::up_score_offset", setup=hide)

    def durations(q):
        x, r = item(q, N)
        d = q.sym("d", ty(q, DU))
        same_but(q, "with_duration", q.call(N + "::with_duration", r, d), x, duration=d)
        n = q.sym("numerator", ty(q, "crate::duration::Numerator"))
        y = q.call(N + "::with_duration_numerator", r, n)
        du = q.fld(x, "duration")
        same_but(q, "with_duration_numerator", y, x, duration=q.fld(y, "duration"))
        same_but(q, "with_duration_numerator duration", q.fld(y, "duration"), du, numerator=n)
    env.forall("durations", durations, N + "::with_duration")

    def dots(q):
        x, r = item(q, N)
        k = q.sym("dots_to_add", q.W.tyid["i32"])
        du = q.fld(x, "duration")
        cur = raw(q, q.fld(du, "dots"))
        res = q.call(N + "::add_dots", r, k)
        ins = band(le(C(0), padd(cur, k)), le(padd(cur, k), C(7)))
        if q.variant(res) == "Ok":
            y = q.payload(res)
            q.holds("accepted", ins)
            same_but(q, "add_dots", y, x, duration=q.fld(y, "duration"))
            nd = q.fld(y, "duration")
            same_but(q, "add_dots duration", nd, du, dots=q.fld(nd, "dots"))
            q.eq("dot count", raw(q, q.fld(nd, "dots")), padd(cur, k))
        else:
            q.holds("refused", bnot(ins))
    env.forall("add_dots", dots, N + "::add_dots")

    def tie(q):
        x, r = item(q, N)
        a, b = q.branch(q.fld(x, "tie")), q.branch(q.fld(x, "tied"))
        y = q.call(N + "::toggle_tie", r)
        na, nb = {(False, False): (True, False), (True, False): (False, True), (False, True): (True, True), (True, True): (False, False)}[(a, b)]
        same_but(q, "toggle_tie", y, x, tie=t.boolc(na), tied=t.boolc(nb))
    env.forall("toggle_tie", tie, N + "::toggle_tie")

    def tempo(q):
        x, r = item(q, T_)
        v = q.call(TV + "::as_u16", q.fld(x, "value"))
        for m, d, lim in (("up", 1, 999), ("down", -1, 1)):
            res = q.call(T_ + "::" + m, r)
            res2 = q.call(TV + "::" + m, q.fld(x, "value"))
            if q.variant(res) == "Ok":
                y = q.payload(res)
                q.eq(m + ": tick", q.fld(y, "start_tick"), q.fld(x, "start_tick"))
                q.eq(m + ": tempo", q.call(TV + "::as_u16", q.fld(y, "value")), padd(v, C(d)))
                q.holds(m + " of the value agrees", t.boolc(q.variant(res2) == "Ok"))
                q.eq(m + ": value", q.payload(res2), q.fld(y, "value"))
            else:
                q.holds(m + " fails only at the limit", ieq(v, C(lim)))
                q.holds(m + " of the value fails too", t.boolc(q.variant(res2) == "Err"))
    env.forall("tempo steps", tempo, T_ + "::up")

    def news(q):
        for p in (N, B, CC):
            a, _ = q.args(p + "::new")
            x = q.call(p + "::new", *a)
            fs = [f["n"] for f in q.W.variants(ty(q, p))[0]["fields"]]
            for i, (n, v) in enumerate(zip(fs, a)):
                q.eq("new keeps " + n, w.mkfld(x, 0, i), v)
    env.forall("new", news, N + "::new")
