"""Vocabulary shared by the property modules."""
from .. import terms as t
from .. import world as w
from .. import interp as I
from ..facts import Infeasible
from ..terms import C, le, lt, ieq, band, bor, bnot, ite, padd, psub, pscale

U32 = (1 << 32) - 1


def ty(q, path):
    """type index of a local type, by its path"""
    W = getattr(q, "W", q)
    for i, x in enumerate(W.types):
        if x.get("k") == "adt" and x.get("path") == path and not x.get("args"):
            return i
    for i, x in enumerate(W.types):
        if x["s"] == path:
            return i
    raise I.MissingAnchor("type %s" % path)


def names(q, v_or_ty):
    W = q.W
    tt = v_or_ty if isinstance(v_or_ty, int) else W.peel(I.value_type(v_or_ty))
    return [x["n"] for x in W.variants(tt)]


def is_(q, v, name):
    """condition: enum value v is the named variant"""
    while v.op == "ref":
        v = q.ctx.deref(v)
    v = q.ctx.whnf(v)
    vs = names(q, v)
    if name not in vs:
        raise I.MissingAnchor("variant %s" % name)
    return w.isvar(v, vs.index(name))


def table(q, v, tab):
    """integer term: tab[variant of v]"""
    while v.op == "ref":
        v = q.ctx.deref(v)
    v = q.ctx.whnf(v)
    vs = names(q, v)
    if set(vs) != set(tab):
        q.fail("variants", "variants %s, expected %s" % (sorted(vs), sorted(tab)))
    r = C(tab[vs[-1]])
    for i in range(len(vs) - 2, -1, -1):
        r = ite(w.isvar(v, i), C(tab[vs[i]]), r)
    return r


def unit(q, tyid, name):
    vs = [x["n"] for x in q.W.variants(tyid)]
    if name not in vs:
        raise I.MissingAnchor("variant %s" % name)
    return w.mkadt(tyid, vs.index(name))


def ok(q, r):
    """payload of an Ok / Some on the paths where it is one; other paths end"""
    if q.variant(r) not in ("Ok", "Some"):
        raise Infeasible()
    return q.payload(r)


def self_default_ty(q, path):
    return ty(q, path)


SOLFA = {"C": 0, "D": 1, "E": 2, "F": 3, "G": 4, "A": 5, "B": 6}
SEMI = {"C": 0, "D": 2, "E": 4, "F": 5, "G": 7, "A": 9, "B": 11}
OCT = {"OctM2": -2, "OctM1": -1, "Oct0": 0, "Oct1": 1, "Oct2": 2, "Oct3": 3, "Oct4": 4, "Oct5": 5, "Oct6": 6, "Oct7": 7, "Oct8": 8}
ACC = {"Sharp": 1, "DoubleSharp": 2, "Flat": -1, "DoubleFlat": -2, "Natural": 0, "Null": 0}
PITCH = "crate::pitch::Pitch"


def pitch_value(q, s, o, a):
    """MIDI number of a solfa / octave / accidental triple"""
    return padd(padd(table(q, s, SEMI), pscale(padd(table(q, o, OCT), C(2)), 12)), table(q, a, ACC))


def pitch_so(q, s, o):
    return padd(table(q, s, SOLFA), pscale(padd(table(q, o, OCT), C(2)), 7))


def soa(q, name="p"):
    return (q.sym(name + ".solfa", ty(q, "crate::solfa::Solfa")), q.sym(name + ".octave", ty(q, "crate::octave::Octave")),
            q.sym(name + ".sharp_flat", ty(q, "crate::sharp_flat::SharpFlat")))


def pitch(q, name="p"):
    """an arbitrary valid pitch, with its three parts"""
    s, o, a = soa(q, name)
    p = ok(q, q.call(PITCH + "::value_of", s, o, a))
    return p, s, o, a


def with_(q, v, **over):
    """the record v with some fields replaced"""
    while v.op == "ref":
        v = q.ctx.deref(v)
    tt = q.W.peel(I.value_type(v))
    fs = q.W.variants(tt)[0]["fields"]
    nm = [f["n"] for f in fs]
    for k in over:
        if k not in nm:
            raise I.MissingAnchor("field %s of %s" % (k, q.W.types[tt]["s"]))
    return w.mkadt(tt, 0, *[over[n] if n in over else w.mkfld(v, 0, i) for i, n in enumerate(nm)])


def same_but(q, label, got, v, **over):
    """every attribute of got is that of v, except the given ones"""
    exp = with_(q, v, **over)
    tt = q.W.peel(I.value_type(v))
    for i, f in enumerate(q.W.variants(tt)[0]["fields"]):
        q.eq("%s: %s" % (label, f["n"]), w.mkfld(got, 0, i), w.mkfld(exp, 0, i))


def clamp(x, lo, hi):
    return t.imin(t.imax(x, C(lo)), C(hi))


def raw(q, v):
    """the single integer inside a one-field value"""
    while v.op == "ref":
        v = q.ctx.deref(v)
    return w.mkfld(v, 0, 0)


def impl_fn(W, trait, self_suffix, name):
    """path of the function `name` in the impl of `trait` for a type whose printed form ends in self_suffix"""
    for f in W.fns:
        if f.get("impl_trait") == trait and f.get("name") == name and (f.get("impl_self") or "").endswith(self_suffix) and f.get("body"):
            return f["path"]
    raise I.MissingAnchor("%s of %s for %s" % (name, trait, self_suffix))


def const_value(q, path):
    """value of a constant, running its initialiser when it is lazily initialised"""
    from .. import models
    v = q.const(path)
    f = models.initfn(v)
    if f is not None:
        return q.prog.freeze(q.ctx, q.prog.call_value(q.ctx, f, []))
    return v


def cases(q, v, lo, hi):
    """fork on every value of an integer in lo..=hi"""
    for i in range(lo, hi):
        if q.branch(ieq(v, C(i))):
            return i
    q.assume(ieq(v, C(hi)))
    return hi


def abstract(*paths):
    """setup: calls of these functions are uninterpreted functions of their arguments"""
    def setup(prog):
        for p in paths:
            def ov(ctx, m, args, p=p):
                vs = [prog.freeze(ctx, a) for a in args]
                return I.opq("app", "fn:" + p, *vs, ty=m["body"]["locals"][0])
            prog.overrides[p] = ov
    return setup


def setups(*fs, unroll=0):
    """several set-up steps; and how many iterations of a loop to follow one by one before summarising it"""
    def setup(prog):
        prog.unroll = unroll
        for f in fs:
            f(prog)
    return setup


def shape_eq(q, label, a, b):
    """as q.eq, but a difference is undecided, not a violation: two closed forms of
    loops or searches may describe the same function in different words"""
    class Soft(type(q)):
        def fail(self, label, detail="", again=None, claim=None, terms=()):
            self.refine()
            if again is not None:
                if again():
                    return
                self.ctx.facts.tighten()
                if again():
                    return
            raise I.Undecided("closed form differs: %s %s" % (label, detail))
    s = Soft(q.ob, q.ctx)
    s.eq(label, a, b)


# ---------------------------------------------------------------- projects
PROJ = "crate::project::ProjectImpl"
REPOS = ("note_repo", "bar_repo", "tempo_repo", "dumper_repo", "soft_repo")


def acc_index(q, name):
    """index of the field a public accessor of the project reads"""
    x = q.sym("any project", ty(q, PROJ))
    r = q.ctx.whnf(q.call(PROJ + "::" + name, q.ctx.ref_to(x)))
    if r.op == "ref":
        r = q.ctx.deref(r)
    for i in range(len(q.W.variants(ty(q, PROJ))[0]["fields"])):
        if w.mkfld(x, 0, i) is r:
            return i
    raise I.Undecided("field behind %s" % name)


def accessed(q, p, name):
    """what a public accessor of the project gives"""
    r = q.call(PROJ + "::" + name, q.ctx.ref_to(p))
    while r.op == "ref":
        r = q.ctx.deref(r)
    return q.ctx.whnf(r)


def entries(q, k, path, name="e", tick="start_tick"):
    """k arbitrary items at ascending ticks"""
    xs = [q.sym("%s%d" % (name, i), ty(q, path)) for i in range(k)]
    for a, b in zip(xs, xs[1:]):
        q.assume(lt(q.fld(a, tick), q.fld(b, tick)))
    return xs


def filed(q, xs, key=lambda q, x: q.fld(x, "start_tick")):
    """a store holding exactly these items, each under its own tick"""
    return w.mkseq([w.item(w.mktup(key(q, x), x)) for x in xs])


def project(q, **over):
    """an arbitrary project whose named repositories hold exactly the given items (a list) or value"""
    p = q.sym("p", ty(q, PROJ))
    fs = [w.mkfld(p, 0, i) for i in range(len(q.W.variants(ty(q, PROJ))[0]["fields"]))]
    for k, v in over.items():
        fs[acc_index(q, k)] = filed(q, v) if isinstance(v, list) else v
    return w.mkadt(ty(q, PROJ), 0, *fs)


def undo_store(q):
    """an arbitrary undo store over a project, the term its current project is, and a reference to the store"""
    from .. import models
    f = impl_fn(q.W, PRJ, "", "tempo_at")
    fid = q.prog.fid(f)
    r = q.sym("store", q.W.fns[fid]["body"]["locals"][1])
    u = r
    while u.op == "ref" or (u.ty is not None and q.W.is_ref(u.ty)):
        u = q.ctx.deref(u)
    return r, w.opq("app", "undo.model", u, ty=q.W.types[u.ty]["args"][1])


PRJ = "crate::project::Project"


def delegates(env, *names):
    """the undo store's own query answers what its current project answers"""
    for n in names:
        def f(q, n=n):
            r, m = undo_store(q)
            fn = impl_fn(q.W, PRJ, "", n)
            args, _ = q.args(fn)
            def strip(v):
                while v.op == "ref":
                    v = q.ctx.deref(v)
                return v
            a = strip(q.call(fn, r, *args[1:]))
            b = strip(q.call(PROJ + "::" + n, q.ctx.ref_to(m), *args[1:]))
            q.eq("same answer", a, b)
        env.forall("store answers %s" % n, f, PROJ + "::" + n, panics="allow")


# ---------------------------------------------------------------- models
MODELS = "crate::models::Models"
NOTE, BARP, TEMPO, CTRL = "crate::note::Note", "crate::bar::Bar", "crate::tempo::Tempo", "crate::ctrl_chg::CtrlChg"
KIND = {"notes": (NOTE, "base_start_tick", "note_repo"), "bars": (BARP, "start_tick", "bar_repo"), "tempos": (TEMPO, "start_tick", "tempo_repo"),
        "dumpers": (CTRL, "start_tick", "dumper_repo"), "softs": (CTRL, "start_tick", "soft_repo")}


def items_of(q, counts, tag="", **mk_):
    """{kind: [arbitrary items]}"""
    return {k: [(mk_[k](q, "%s%s%d" % (tag, k, i)) if k in mk_ else q.sym("%s%s%d" % (tag, k, i), ty(q, KIND[k][0]))) for i in range(n)] for k, n in counts.items()}


def models_of(q, its):
    """a set of items holding exactly these"""
    mt = ty(q, MODELS)
    fs = [f["n"] for f in q.W.variants(mt)[0]["fields"]]
    for k in its:
        if k not in fs:
            raise I.MissingAnchor("models field %s" % k)
    return w.mkadt(mt, 0, *[w.seq_of(*its.get(n, [])) for n in fs])


def list_eq(q, label, s, want, eq=None):
    """the sequence has exactly these elements, in order"""
    while s.op == "ref":
        s = q.ctx.deref(s)
    s = q.ctx.whnf(s)
    q.eq(label + ": number", w.seqlen(s), C(len(want)))
    for i, x in enumerate(want):
        y = w.mkat(s, C(i))
        while y.op == "ref":
            y = q.ctx.deref(y)
        if eq:
            eq("%s %d" % (label, i), y, x)
        else:
            q.eq("%s %d" % (label, i), y, x)


def undo_project(q, p):
    """an undo store whose current project is p: references to the store and to the project"""
    r, m = undo_store(q)
    cell = t.mk("ref", t.mk("ocell", m), ())
    q.ctx.write(cell, p)
    return r, cell


def dyn_call(q, trait, name, recv, *args):
    """call a trait method on a value of known concrete type behind the trait"""
    v = recv
    while v.op == "ref":
        v = q.ctx.deref(v)
    v = q.ctx.whnf(v)
    tt = I.value_type(v)
    s = q.W.types[tt]["s"] if tt is not None else None
    for i, f in enumerate(q.W.fns):
        if f.get("impl_trait") == trait and f.get("name") == name and f.get("impl_self") == s:
            return q.call(i, q.ctx.ref_to(v), *args)
    raise I.Undecided("%s of %s" % (name, s))
