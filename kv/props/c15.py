"""C15 the effective start, length and velocity of a note are its base values with
the trimmers applied, clamped to their range.

For an arbitrary note (arbitrary base values, arbitrary trimmer values through
the public constructors) start_tick / tick_len / velocity and the start-tick
traits of Note, Rc<Note> and the other events are compared with closed forms;
no overflow or panic may be reachable."""
from .. import inv
from .util import *
from .c14 import trimmer, rates, TR, RT, total

N = "crate::note::Note"
HB, HS = "crate::have_start_tick::HaveBaseStartTick", "crate::have_start_tick::HaveStartTick"
U32MAX = (1 << 32) - 1


def note(q, name="n"):
    n = q.sym(name, ty(q, N))
    st, sv, _ = trimmer(q, name + ".st")
    vt, vv, _ = trimmer(q, name + ".vt")
    return with_(q, n, start_tick_trimmer=st, velocity_trimmer=vt), sv, vv


def build(env):
    inv.install(env.W)

    def start(q):
        n, sv, vv = note(q)
        r = q.ctx.ref_to(n)
        want = clamp(padd(q.fld(n, "base_start_tick"), total(sv)), 0, U32MAX)
        q.eq("start tick", q.call(N + "::start_tick", r), want)
        q.eq("base start tick", q.call("<%s as %s>::base_start_tick" % (N, HB), r), q.fld(n, "base_start_tick"))
        q.eq("trait start tick", q.call("<%s as %s>::start_tick" % (N, HS), r), want)
    env.forall("start_tick", start, N + "::start_tick")

    def rc(q):
        for tr, m, g in ((HS, "start_tick", N + "::start_tick"), (HB, "base_start_tick", "<%s as %s>::base_start_tick" % (N, HB))):
            f = impl_fn(q.W, tr, "Rc<%s>" % N, m)
            (r,), _ = q.args(f)
            n = r
            while n.op == "ref" or (n.ty is not None and q.W.is_ref(n.ty)):
                n = q.ctx.deref(n)
            q.eq("%s behind a shared pointer" % m, q.call(f, r), q.call(g, q.ctx.ref_to(n)))
    env.forall("shared", rc, HS)

    def length(q):
        n, _, _ = note(q)
        r = q.ctx.ref_to(n)
        q.variant(q.fld(q.fld(n, "duration"), "numerator"))
        cases(q, raw(q, q.fld(q.fld(n, "duration"), "dots")), 0, 7)
        L = q.call("crate::duration::Duration::tick_length", q.fld(n, "duration"))
        rate = raw(q, q.call(RT + "::sum", q.ctx.ref_to(q.fld(n, "duration_trimmer"))))
        T = q.call(N + "::tick_len", r)
        q.eq("length", T, t.fdiv(t.pmul(rate, L), C(1000)))
        q.holds("length within the longest", le(T, C(2 * 1913)))
    env.forall("tick_len", length, N + "::tick_len")

    def longest(q):
        z = const_value(q, N + "::LONGEST_TICK_LEN")
        q.holds("no note is longer than the longest note length", le(C(2 * 1913), z))
    env.forall("longest", longest, N + "::LONGEST_TICK_LEN")

    def vel(q):
        n, _, vv = note(q)
        r = q.ctx.ref_to(n)
        b = raw(q, q.fld(n, "base_velocity"))
        q.eq("velocity", raw(q, q.call(N + "::velocity", r)), clamp(padd(b, total(vv)), 0, 127))
        q.eq("base velocity", q.call(N + "::base_velocity", r), q.fld(n, "base_velocity"))
    env.forall("velocity", vel, N + "::velocity")

    for p in ("crate::bar::Bar", "crate::tempo::Tempo", "crate::ctrl_chg::CtrlChg"):
        def other(q, p=p):
            x = q.sym("x", ty(q, p))
            r = q.ctx.ref_to(x)
            for tr, m in ((HB, "base_start_tick"), (HS, "start_tick")):
                q.eq(m, q.call("<%s as %s>::%s" % (p, tr, m), r), q.fld(x, "start_tick"))
        env.forall("start_tick of %s" % p, other, p)
