"""Every edit of a project, on a project whose contents are known items with arbitrary
ticks and attributes: used by the properties about editing.

An Edit prepares a project holding exactly the given items, performs one edit of the
undo store, and says what the contents have to be afterwards (bars added to reach the
end of the music apart).  How many bars that takes is bounded by assuming that the
music ends within two bars of tick 0; the length of a bar is an arbitrary positive
number per time signature."""
from .. import models
from .util import *

RLEN = "crate::rhythm::Rhythm::tick_len"
NSTART = NOTE + "::start_tick"
NLEN = NOTE + "::tick_len"
KINDS = ("notes", "bars", "tempos", "dumpers", "softs")
ADD = {"notes": "add_note", "bars": "add_bar", "tempos": "add_tempo", "dumpers": "add_dumper", "softs": "add_soft"}
META = "crate::project::ModelChangeMetadata"
CHANGES = "crate::models::ModelChanges"
CMD = "crate::project::ProjectCmd"
MAXTICK = 1 << 30
LONGEST = 3826          # ticks: a whole note with seven dots at 200 % (established by C05)


def start(q, kind, x):
    """the tick an item is filed under"""
    return q.call(NSTART, q.ctx.ref_to(x)) if kind == "notes" else q.fld(x, "start_tick")


def end(q, kind, x):
    """the tick at which the item's music ends"""
    return padd(start(q, kind, x), q.call(NLEN, q.ctx.ref_to(x))) if kind == "notes" else start(q, kind, x)


def ordered(q, kind, n, tag, strict=False):
    """n arbitrary items in the order a repository keeps them in (notes: strictly, if asked)"""
    xs = [q.sym("%s%d" % (tag, i), ty(q, KIND[kind][0])) for i in range(n)]
    for a, b in zip(xs, xs[1:]):
        q.assume((le if kind == "notes" and not strict else lt)(start(q, kind, a), start(q, kind, b)))
    return xs


def store_of(q, kind, xs):
    return w.mkseq([w.item(w.mktup(start(q, kind, x), x)) for x in xs])


class Run:
    """one edit carried out on one abstract path"""

    def __init__(self, q, counts, strict=False):
        self.q = q
        self.items = {k: ordered(q, k, counts.get(k, 0), k[:-1], strict) for k in KINDS}
        self.p = project(q, **{KIND[k][2]: store_of(q, k, xs) for k, xs in self.items.items()})
        self.st, self.cell = undo_project(q, self.p)
        self.want = {k: list(models.lit(store_of(q, k, xs))) for k, xs in self.items.items()}
        self.meta = self.sel = self.set = None
        self.noop = False

    def bound(self, *new):
        """the music, including these further (kind, item)s, ends within two bars of the start"""
        q = self.q
        xs = [(k, x) for k in KINDS for x in self.items[k]] + list(new)
        ends = [end(q, k, x) for k, x in xs if k != "bars"]
        for k, x in xs:
            if k == "notes":
                q.assume(le(q.call(NLEN, q.ctx.ref_to(x)), C(LONGEST)))
        rh = [q.call(PROJ + "::rhythm", q.ctx.ref_to(self.p))]
        for k, x in xs:
            if k == "bars":
                if q.variant(q.fld(x, "rhythm")) == "Some":
                    rh.append(q.payload(q.fld(x, "rhythm")))
                q.assume(le(q.fld(x, "start_tick"), C(MAXTICK)))
        for r in rh:
            L = q.call(RLEN, r)
            q.assume(band(le(C(1), L), le(L, C(MAXTICK))))
            for e in ends:
                q.assume(le(e, pscale(L, 2)))

    def select(self):
        q = self.q
        s = q.sym("select", q.W.tyid["bool"])
        self.sel = s
        return s

    def perform(self, name, *args):
        q = self.q
        n = len(q.ctx.events)
        q.call(impl_fn(q.W, PRJ, "", name), self.st, *args)
        self.events = [e for e in q.ctx.events[n:]]
        self.cmds = [e for e in self.events if e[0] == "cmd"]
        self.after = q.ctx.whnf(q.ctx.deref(self.cell))

    def cmd(self):
        """the one record of the edit"""
        q = self.q
        if len(self.cmds) != 1:
            q.fail("recorded once", "%d records" % len(self.cmds))
        return self.cmds[0][4]

    def apply(self, cmd, which, p):
        """what undoing / redoing a record makes of a project"""
        q = self.q
        r = q.ctx.ref_to(p)
        q.call("<%s as serdo::cmd::Cmd>::%s" % (CMD, which), q.ctx.ref_to(cmd), r)
        return q.ctx.whnf(q.ctx.deref(r))


def content(q, p):
    """{kind: entries} of a project with known contents"""
    out = {}
    for k in KINDS:
        s = accessed(q, p, KIND[k][2])
        es = models.lit(s)
        if es is None:
            raise I.Undecided("contents of %s: %s" % (k, t.show(s)[:200]))
        out[k] = es
    return out


def same_entries(q, label, kind, got, want):
    """same items under the same ticks; notes of equal tick in any order"""
    q.eq("%s: number of %s" % (label, kind), C(len(got)), C(len(want)))
    if kind != "notes":
        for i, (a, b) in enumerate(zip(got, want)):
            q.eq("%s: tick of %s %d" % (label, kind, i), w.mkfld(a, 0, 0), w.mkfld(b, 0, 0))
            same_item(q, "%s: %s %d" % (label, kind, i), w.mkfld(a, 0, 1), w.mkfld(b, 0, 1))
        return
    item = lambda e: val(q, w.mkfld(e, 0, 1))
    left, todo = list(got), []
    for b in want:      # the very same note first
        for a in left:
            if item(a) is item(b) and q.ctx.facts.equal(w.mkfld(a, 0, 0), w.mkfld(b, 0, 0)):
                left.remove(a)
                break
        else:
            todo.append(b)
    for i, b in enumerate(todo):
        a = ([a for a in left if q.ctx.facts.equal(item(a), item(b))] or left)[0]
        q.eq("%s: tick of %s %d" % (label, kind, i), w.mkfld(a, 0, 0), w.mkfld(b, 0, 0))
        same_item(q, "%s: %s %d" % (label, kind, i), w.mkfld(a, 0, 1), w.mkfld(b, 0, 1))
        left.remove(a)


def val(q, x):
    while x.op == "ref":
        x = q.ctx.deref(x)
    return q.ctx.whnf(x)


def same_item(q, label, a, b):
    a, b = val(q, a), val(q, b)
    if a is b or q.ctx.facts.equal(a, b):
        return
    if q.W.adt_path(I.value_type(b)) == NOTE:
        return q.holds(label, q.call("<%s as core::cmp::PartialEq>::eq" % NOTE, q.ctx.ref_to(a), q.ctx.ref_to(b)))
    q.eq(label, a, b)


def same_project(q, label, a, b, repos=True):
    for f in ("rhythm", "key", "grid"):
        q.eq("%s: %s" % (label, f), accessed(q, a, f), accessed(q, b, f))
    if repos:
        ca, cb = content(q, a), content(q, b)
        for k in KINDS:
            same_entries(q, label, k, ca[k], cb[k])


def setup(n=4):
    return setups(abstract(RLEN, NSTART, NLEN), unroll=n)


# ---------------------------------------------------------------- the edits
def add(kind, counts):
    def make(q):
        r = Run(q, counts)
        x = q.sym("x", ty(q, KIND[kind][0]))
        if kind != "bars":
            r.bound((kind, x))
        r.perform(ADD[kind], x, r.select())
        k = start(q, kind, x)
        if kind == "notes":
            r.want[kind] = models.lbadd(q.ctx, r.want[kind], k, x)
        else:
            r.want[kind], old = models.ladd(q.ctx, r.want[kind], k, x)
        return r
    return "%s to %s" % (ADD[kind], show(counts)), PRJ + "::" + ADD[kind], make, kind != "bars"


def show(counts):
    return "+".join("%d %s" % (n, k) for k, n in counts.items() if n) or "nothing"


def param(name, get):
    def make(q):
        r = Run(q, {k: 1 for k in KINDS})
        old = accessed(q, r.p, get)
        x = q.sym("x", I.value_type(old))
        r.perform(name, x)
        r.set = (get, x)
        return r
    return name, PRJ + "::" + name, make, False


def remove(counts, rem):
    """remove some items that are there: {kind: indices}"""
    def make(q):
        r = Run(q, counts)
        gone = {k: [r.items[k][i] for i in ix] for k, ix in rem.items()}
        r.meta = q.sym("meta", ty(q, META))
        r.perform("bulk_remove", models_of(q, gone), r.meta)
        for k, ix in rem.items():
            r.want[k] = [e for i, e in enumerate(r.want[k]) if i not in ix]
        return r
    return "bulk_remove %s of %s" % (",".join("%s%s" % (k, list(ix)) for k, ix in rem.items()), show(counts)), PRJ + "::bulk_remove", make, False


def badd(counts, new):
    def make(q):
        r = Run(q, counts)
        its = {k: [q.sym("new %s%d" % (k[:-1], i), ty(q, KIND[k][0])) for i in range(n)] for k, n in new.items()}
        distinct(q, its)
        r.bound(*[(k, x) for k, xs in its.items() for x in xs])
        r.meta = q.sym("meta", ty(q, META))
        r.perform("bulk_add", models_of(q, its), r.meta)
        for k, xs in its.items():
            for x in xs:
                put(q, r, k, x)
        return r
    return "bulk_add %s to %s" % (show(new), show(counts)), PRJ + "::bulk_add", make, True


def distinct(q, its):
    """items of one kind go to different ticks"""
    for k, xs in its.items():
        if k != "notes":
            for i, a in enumerate(xs):
                for b in xs[:i]:
                    q.assume(bnot(ieq(start(q, k, a), start(q, k, b))))


def put(q, r, k, x):
    if k == "notes":
        r.want[k] = models.lbadd(q.ctx, r.want[k], start(q, k, x), x)
    else:
        r.want[k], _ = models.ladd(q.ctx, r.want[k], start(q, k, x), x)


def change(counts, ch):
    """replace some items that are there by others: {kind: indices}"""
    def make(q):
        r = Run(q, counts)
        fro = {k: [r.items[k][i] for i in ix] for k, ix in ch.items()}
        to = {k: [q.sym("new %s%d" % (k[:-1], i), ty(q, KIND[k][0])) for i in ix] for k, ix in ch.items()}
        distinct(q, to)
        r.bound(*[(k, x) for k, xs in to.items() for x in xs])
        r.meta = q.sym("meta", ty(q, META))
        mt = ty(q, CHANGES)
        fs = [f["n"] for f in q.W.variants(mt)[0]["fields"]]
        m = w.mkadt(mt, 0, *[w.seq_of(*[w.mktup(a, b) for a, b in zip(fro.get(n, []), to.get(n, []))]) for n in fs])
        r.perform("change", m, r.meta)
        for k, ix in ch.items():
            r.want[k] = [e for i, e in enumerate(r.want[k]) if i not in ix]
            for x in to[k]:
                put(q, r, k, x)
        return r
    return "change %s of %s" % (",".join("%s%s" % (k, list(ix)) for k, ix in ch.items()), show(counts)), PRJ + "::change", make, True


def tuplize(counts, ix):
    """make tuplets of some notes that are there; the notes they become are arbitrary (another property's business)"""
    def make(q):
        r = Run(q, counts, strict=len(ix) < counts["notes"])
        fro = [r.items["notes"][i] for i in ix]
        to = [q.sym("tuplet%d" % i, ty(q, NOTE)) for i in range(len(ix))]
        q.prog.overrides["crate::tuple::tuplize"] = lambda ctx, m, args: w.seq_of(*to)
        r.bound(*[("notes", x) for x in to])
        r.noop = len(ix) < 2
        r.perform("tuplize", w.seq_of(*fro))
        r.sel = t.TRUE
        if not r.noop:
            r.want["notes"] = [e for i, e in enumerate(r.want["notes"]) if i not in ix]
            for x in to:
                put(q, r, "notes", x)
        return r
    return "tuplize %d of %s" % (len(ix), show(counts)), PRJ + "::tuplize", make, True


def scenarios(tier):
    one = {k: 1 for k in KINDS}
    out = [param("set_rhythm", "rhythm"), param("set_key", "key"), param("set_grid", "grid")]
    for k in KINDS:
        for n in range(3 if tier == "quick" else 4):
            out.append(add(k, {**one, k: n} if n < 2 else {k: n} if k == "notes" else {"bars": 1, k: n}))
        out.append(remove(one, {k: [0]}))
        out.append(remove({**one, k: 2}, {k: [0, 1]}))
        out.append(remove({**one, k: 3}, {k: [1]}))
        out.append(badd({**one, k: 1}, {k: 1}))
        out.append(badd({k: 1}, {k: 2}))
        out.append(change({**one, k: 2} if k != "notes" else {"bars": 1, k: 2}, {k: [0]}))
        out.append(change({k: 2}, {k: [1, 0]}))
    out.append(add("notes", {}))
    for n in range(4 if tier == "quick" else 5):
        out.append(tuplize({"notes": n, "bars": 1 if n < 2 else 0}, range(n)))
    out.append(tuplize({"notes": 3}, [0, 2]))
    out.append(remove(one, {k: [0] for k in KINDS}))
    out.append(badd({}, one))
    out.append(change(one, {k: [0] for k in KINDS}))
    return out
