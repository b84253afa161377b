"""Shared by C20 and C21: bars whose repeat marks are known one by one and whose ticks are
arbitrary (ascending), rendered by the crate and expanded by an independent reading of the
marks."""
import itertools
from .. import models
from .util import *

RS, RP = "crate::bar::RepeatSet", "crate::bar::Repeat"
RR = "crate::repeat::render_region"
CH = "crate::repeat::Chunk"
RLEN = "crate::rhythm::Rhythm::tick_len"
NAME = {"S": "Start", "E": "End", "C": "Dc", "D": "Ds", "F": "Fine", "G": "Segno", "O": "Coda", "1": "Var1", "2": "Var2", "3": "Var3", "4": "Var4"}
ERR = "crate::repeat::RenderRegionError"


class Score:
    """bars: a word per bar (letters as in NAME, "-" for none, "0" for a first bar at tick 0)"""

    def __init__(self, q, words):
        self.q, self.bars = q, []
        self.rhythm = q.sym("rhythm", ty(q, "crate::rhythm::Rhythm"))
        prev = []
        for i, wd in enumerate(words):
            b = q.sym("b%d" % i, ty(q, BARP))
            s = q.const(RS + "::EMPTY")
            ms = [NAME[x] for x in wd if x in NAME]
            for m in ms:
                s = ok(q, q.call(RS + "::try_add", s, unit(q, ty(q, RP), m)))
            tick = C(0) if "0" in wd else q.fld(b, "start_tick")
            b = with_(q, b, repeats=s, start_tick=tick)
            if "0" not in wd:
                for p in prev or [C(0)]:
                    q.assume(lt(p, tick))
            prev.append(tick)
            self.bars.append((tick, set(ms), b))

    def render(self):
        q = self.q
        seq = w.mkseq([w.mk("it", q.ctx.ref_to(b)) for _, _, b in self.bars])
        return q.call(RR, self.rhythm, seq)


def error_of(q, r):
    """the error a report was made for"""
    found = []

    def walk(x, n=0):
        if isinstance(x, t.T) and not found and n < 60:
            if x.op == "adt" and isinstance(x.a[0], int) and q.W.types[x.a[0]].get("path") == ERR:
                found.append(x)
                return
            for y in x.a:
                walk(y, n + 1)
                if isinstance(y, tuple):
                    for z in y:
                        walk(z, n + 1)
    walk(r)
    if not found:
        raise I.Undecided("no rendering error in the report")
    return found[0]


class Fault(Exception):
    pass


def sections(sc):
    """independent reading of repeat bars and endings: list of (kind, ranges) or Fault(name, fields)"""
    out, end = [], C(U32)
    mode, start, alts, last = "top", C(0), [], None
    dcds = None
    for tick, ms, _ in sc.bars:
        var = [int(m[3]) for m in ms if m.startswith("Var")]
        if mode == "alt":
            if "End" in ms:
                raise Fault("RepeatInVariation", {"tick": tick})
            if var:
                if var[0] == len(alts):
                    pass
                elif var[0] == len(alts) + 1:
                    alts.append(tick)
                else:
                    raise Fault("InvalidRegionIndex", {"tick": tick, "actual": "VI%d" % var[0], **({"expected": "VI%d" % (len(alts) + 1)} if len(alts) < 4 else {})})
                if ms & {"Dc", "Ds"}:
                    raise Fault("DcDsWhileVariation", {})
            else:
                out.append(("var", start, alts + [tick]))
                mode, start = ("open" if "Start" in ms else "plain"), tick
        else:
            if "End" in ms:
                if mode == "plain":
                    raise Fault("OrphanRepeatEnd", {"tick": tick})
                if mode == "top" and dcds is not None:
                    raise Fault("DcDsWhileRepeat", {})
                out.append(("rep", start, tick))
                mode, start = ("open" if "Start" in ms else "plain"), tick
            elif "Start" in ms:
                if mode == "open":
                    raise Fault("DuplicatedRepeatStart", {"tick": tick})
                out.append(("seq", start, tick))
                mode, start = "open", tick
            elif var:
                if mode == "plain":
                    return None                      # endings without a repeat to end: not specified
                if mode == "top" and dcds is not None:
                    raise Fault("DcDsWhileVariation", {})
                if var[0] != 1:
                    raise Fault("InvalidRegionIndex", {"tick": tick, "actual": "VI%d" % var[0], "expected": "VI1"})
                mode, alts = "alt", [tick]
            elif mode == "open" and ms & {"Dc", "Ds"}:
                raise Fault("DcDsWhileRepeat", {"tick": tick})
        if ms & {"Dc", "Ds"} and dcds is None:
            dcds = tick
    if mode == "open":
        raise Fault("NoRepeatEnd", {"tick": start})
    if mode == "alt":
        raise Fault("VariationNotClosed", {"tick": alts[-1]})
    out.append(("seq", start, end))
    return out


def full(sec):
    """ranges played, with repeats"""
    k = sec[0]
    if k == "seq":
        return [(sec[1], sec[2])]
    if k == "rep":
        return [(sec[1], sec[2])] * 2
    r = []
    for a, b in zip(sec[2], sec[2][1:]):
        r += [(sec[1], sec[2][0]), (a, b)]
    return r


def once(sec):
    """ranges played without repeats, with the last ending"""
    if sec[0] == "var":
        return [(sec[1], sec[2][0]), (sec[2][-2], sec[2][-1])]
    return [(sec[1], sec[2])]


def last_tick(sec):
    return sec[2][-1] if sec[0] == "var" else sec[2]


def normal(q, ranges, empties=True):
    """no empty ranges, adjoining ones joined: what is played, in order"""
    out = []
    for a, b in ranges:
        if empties and q.branch(le(b, a)):
            continue
        if out and q.branch(ieq(out[-1][1], a)):
            out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return out


def chunk_list(q, v):
    while v.op == "ref":
        v = q.ctx.deref(v)
    v = q.ctx.whnf(v)
    n = q.norm(w.seqlen(v))
    if not t.is_const(n):
        raise I.Undecided("number of chunks")
    r = []
    for i in range(n.a[0]):
        c = w.mkat(v, C(i))
        r.append((q.call(CH + "::start_tick", c), q.call(CH + "::end_tick", c)))
    return r


def same_play(q, label, got, want, empties=True):
    g, x = normal(q, got, empties), normal(q, want, empties)
    if len(g) != len(x):
        q.fail(label, "%s: plays %s, expected %s" % (label, show(g), show(x)))
    for i, (a, b) in enumerate(zip(g, x)):
        q.eq("%s: start of section %d" % (label, i + 1), a[0], b[0])
        q.eq("%s: end of section %d" % (label, i + 1), a[1], b[1])


def show(l):
    return "[" + ", ".join("%s..%s" % (t.show(a), t.show(b)) for a, b in l) + "]"


def expect_fault(q, r, faults):
    if q.variant(r) != "Err":
        q.fail("accepted", "accepted, expected %s" % "/".join(f.args[0] for f in faults))
    e = error_of(q, q.payload(r))
    vn = [x["n"] for x in q.W.variants(e.a[0])][e.a[1]]
    for f in faults:
        if f.args[0] == vn:
            fs = [x["n"] for x in q.W.variants(e.a[0])[e.a[1]]["fields"]]
            for k, v in f.args[1].items():
                if k in fs:
                    if isinstance(v, str):
                        v = unit(q, ty(q, "crate::bar::VarIndex"), v)
                    q.eq("%s of the error" % k, w.mkfld(e, e.a[1], fs.index(k)), v)
            return
    q.fail("error", "refused with %s, expected %s" % (vn, "/".join(f.args[0] for f in faults)))


def setup():
    return setups(abstract(RLEN), unroll=12)
