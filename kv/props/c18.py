"""C18 making a tuplet.

All groupings of up to four notes over four note values (six in the thorough tier),
starting ticks and every other attribute arbitrary, input order rotated;
every pair of plain or dotted values; and longer runs of equal notes. The expected ticks are computed here from the note values."""
import itertools
from math import gcd

from .. import inv
from .util import *

TP = "crate::tuple::tuplize"
DUR = "crate::duration::Duration"
NUM = ["Whole", "Half", "Quarter", "N8th", "N16th", "N32nd", "N64th", "N128th"]


def unit_of(d):
    n = 256 >> NUM.index(d[0])
    return 2 * n - (n >> d[1])


def plain_len(d):
    n = 960 // (1 << NUM.index(d[0]))
    return 2 * n - (n >> d[1])


def expected(ds, groups):
    """(denominator or None, tick offsets of the groups)"""
    least = [min((plain_len(ds[i]), unit_of(ds[i])) for i in g) for g in groups]
    total, units = sum(x[0] for x in least), sum(x[1] for x in least)
    u = 0
    for d in ds:
        u = gcd(u, unit_of(d))
    den = units // u
    if den < 2 or den > 255:
        return None, None
    tick, at, offs = total // den * 2, 0, []
    for x in least:
        offs.append(tick * at // units)
        at += x[1]
    return den, offs


def dur(q, d):
    n = unit(q, ty(q, "crate::duration::Numerator"), d[0])
    den = ok(q, q.call("crate::duration::Denominator::from_value", C(d[2])))
    dots = ok(q, q.call("crate::duration::Dots::from_value", C(d[1])))
    return q.call(DUR + "::new", n, den, dots)


def build(env):
    inv.install(env.W)

    def pat(ds, groups, rot=0):
        """notes of note values ds, those of one group starting together, given in rotated order"""
        def f(q):
            notes, starts = [None] * len(ds), []
            for gi, g in enumerate(groups):
                k = q.sym("t%d" % gi, q.W.tyid["u32"])
                for p in starts:
                    q.assume(lt(p, k))
                starts.append(k)
                for i in g:
                    n = q.sym("n%d" % i, ty(q, NOTE))
                    notes[i] = with_(q, n, base_start_tick=k, duration=dur(q, ds[i]))
            den, offs = expected(ds, groups)
            q.assume(le(padd(starts[0], C((offs or [0])[-1])), C(U32)))
            given = notes[rot:] + notes[:rot]
            got = q.call(TP, w.mkseq([w.mk("it", n) for n in given]))
            while got.op == "ref":
                got = q.ctx.deref(got)
            n = w.seqlen(got)
            if n.op != "poly" or n.a[1]:
                raise I.Undecided("number of notes")
            if n.a[0] != len(ds):
                q.fail("number of notes", "%d notes out of %d" % (n.a[0], len(ds)))
            out = [w.mkat(got, C(i)) for i in range(len(ds))]
            out = [q.ctx.deref(x) if x.op == "ref" else x for x in out]
            left = list(range(len(ds)))
            for x in out:
                vel = q.fld(x, "base_velocity")
                hit = [i for i in left if q.ctx.facts.decide(w.mkeq(vel, w.mkfld(notes[i], 0, vix(q, notes[i])))) is True]
                if len(hit) != 1:
                    q.fail("notes", "a resulting note is none of the given ones, or stands for two")
                i = hit[0]
                left.remove(i)
                gi = [k for k, g in enumerate(groups) if i in g][0]
                if den is None:
                    same_but(q, "unchanged", x, notes[i])
                else:
                    same_but(q, "note %d" % (i + 1), x, notes[i], base_start_tick=padd(starts[0], C(offs[gi])), duration=dur(q, (ds[i][0], ds[i][1], den)))
        env.forall("tuplet|%s|%s|%d" % (" ".join("%s%s/%d" % (d[0], "." * d[1], d[2]) for d in ds), groups, rot), f, TP, setup=setups(unroll=24))

    def vix(q, n):
        return [f["n"] for f in q.W.variants(q.W.peel(I.value_type(n)))[0]["fields"]].index("base_velocity")

    def groupings(n):
        for cut in itertools.product((0, 1), repeat=n - 1):
            gs = [[0]]
            for i, c in enumerate(cut):
                if c:
                    gs.append([i + 1])
                else:
                    gs[-1].append(i + 1)
            yield gs
    D = [("Half", 0, 2), ("Quarter", 0, 2), ("Quarter", 1, 2), ("N8th", 0, 3)] + ([("N16th", 1, 2), ("Whole", 2, 7)] if env.tier != "quick" else [])
    k = 0
    for n in range(1, 5):
        for ds in itertools.product(D, repeat=n):
            for gs in groupings(n):
                pat(ds, gs, k % n)
                k += 1
    for n in (4, 5, 6, 7, 9):
        for d in (("N8th", 0, 2), ("N16th", 0, 5)):
            pat((d,) * n, [[i] for i in range(n)], 1)
    pat((("Whole", 0, 2), ("N128th", 0, 2)), [[0], [1]])
    pat((("Whole", 0, 2), ("N128th", 0, 2)), [[0, 1]])
    pat((("Whole", 0, 2), ("Half", 1, 2), ("N128th", 0, 2), ("N64th", 0, 2)), [[0], [1], [2, 3]])
    pat((("Whole", 2, 2), ("Whole", 0, 2), ("N128th", 0, 2)), [[0], [1], [2]])

    # every pair of plain or thrice-dotted values, one after the other: totals of every remainder
    V = [(n, d, 2) for n in NUM for d in ((0, 3) if env.tier == "quick" else (0, 1, 2, 3, 6))]
    for a, b in itertools.combinations(V, 2):
        pat((a, b), [[0], [1]])

    def none(q):
        got = q.call(TP, w.mkseq([]))
        q.holds("nothing", t.le0(w.seqlen(got)))
    env.forall("no notes", none, TP)
