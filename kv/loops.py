"""Loop summaries: widen what one iteration modifies, recognise closed forms."""
from . import terms as t
from . import world as w
from .terms import T, mk, A, C, is_const, psub, padd, TRUE, FALSE, UNIT, UNDEF, close, open_
from .world import Undecided, refval, mkadt, opq
from .facts import Infeasible
from . import interp as I

STRUCT = {"adt", "tup", "closure", "iter", "store"}


# ---------------------------------------------------------------- loop terms
def flatseq(n, lam, ty=None):
    h, body = lam.a
    if body.op == "seq":
        if not body.a:
            return w.mkseq([])
        if len(body.a) == 1 and body.a[0].op == "it":
            return w.mapseq(n, mk("lam", h, body.a[0].a[0]) if _h(body.a[0].a[0]) + 1 == h else t.close_bv(body.a[0].a[0], h))
    if is_const(n) and 0 <= n.a[0] <= 16:
        return w.mkseq([open_(lam, C(i)) for i in range(n.a[0])])
    return mk("flatseq", n, lam, ty=ty)


def _h(x):
    return t._height(x)


@t.reb("flatseq")
def _(a, ty):
    return flatseq(a[0], a[1], ty)


def exists(n, lam):
    if lam.a[1] is FALSE:
        return FALSE
    if is_const(n) and n.a[0] <= 16:
        return t.bor(*[open_(lam, C(i)) for i in range(max(0, n.a[0]))])
    return mk("exists", n, lam)


@t.reb("exists")
def _(a, ty):
    return exists(*a)


def firstidx(n, lam):
    return A(mk("firstidx", n, lam))


INFTY = mk("inf")


# ---------------------------------------------------------------- leaves
def diff(old, new, pos, out, ty):
    if old is new:
        return
    W = w.W
    if old.op == "ref" and new.op == "ref" and isinstance(old.a[0], T) and isinstance(new.a[0], T) and not old.a[1] and not new.a[1]:
        diff(old.a[0].a[0], new.a[0].a[0], pos + (("r",),), out, W.pointee(ty) if ty is not None and W.is_ref(ty) else None)
        return
    if new.op == "store" and old.op != "store" and new.a[0] is old:
        out.append((pos + (("ops",),), None))
        return
    if old.op == "store" and new.op == "store" and old.a[0] is new.a[0]:
        diff(old.a[1], new.a[1], pos + (("ops",),), out, None)
        return
    o, n = expand(old, new)
    if o is not None and o.op in STRUCT and o.op == n.op and len(o.a) == len(n.a):
        if all((isinstance(x, T) and isinstance(y, T)) or x == y for x, y in zip(o.a, n.a)):
            tys = None
            try:
                if o.op == "adt":
                    tys = [None, None] + list(W.field_tys(o.a[0], o.a[1]))
                elif o.op == "tup" and ty is not None and W.kind(W.peel(ty)) == "tuple":
                    tys = list(W.field_tys(W.peel(ty), 0))
            except Exception:
                tys = None
            for i, (x, y) in enumerate(zip(o.a, n.a)):
                if isinstance(x, T):
                    diff(x, y, pos + (("a", i),), out, tys[i] if tys else None)
            return
    out.append((pos, ty))


def expand(old, new):
    """bring an opaque struct and an explicit one to the same shape"""
    W = w.W
    for a, b, sw in ((old, new, False), (new, old, True)):
        if a.op == "adt" and b.op != "adt" and b.ty is not None and b.ty == a.a[0] and W.types[b.ty].get("akind") == "struct":
            fs = [w.mkfld(b, 0, i) for i in range(len(a.a) - 2)]
            b2 = mk("adt", b.ty, 0, *fs)
            return (a, b2) if not sw else (b2, a)
        if a.op == "tup" and b.op != "tup" and b.ty is not None and W.kind(b.ty) == "tuple":
            fs = [w.mkfld(b, 0, i) for i in range(len(a.a))]
            b2 = mk("tup", *fs)
            return (a, b2) if not sw else (b2, a)
    return old, new


def getpos(v, pos):
    for p in pos:
        if p[0] == "r":
            v = v.a[0].a[0]
        elif p[0] == "ops":
            v = v.a[1] if v.op == "store" else w.mkseq([])
        else:
            v = argview(v, p[1])
    return v


def argview(v, i):
    if v.op in STRUCT:
        return v.a[i]
    W = w.W
    if v.ty is not None:
        if W.kind(v.ty) == "adt":
            return w.mkfld(v, 0, i - 2)
        if W.kind(v.ty) == "tuple":
            return w.mkfld(v, 0, i)
    raise Undecided("leaf position in %s" % t.show(v)[:60])


def setpos(v, pos, i, x):
    if i == len(pos):
        return x
    p = pos[i]
    if p[0] == "r":
        return refval(setpos(v.a[0].a[0], pos, i + 1, x))
    if p[0] == "ops":
        from .models import mkstore
        base = v.a[0] if v.op == "store" else v
        return mkstore(base, x)
    W = w.W
    if v.op in STRUCT:
        a = list(v.a)
        a[p[1]] = setpos(a[p[1]], pos, i + 1, x)
        return t.rebuild(v.op, tuple(a), v.ty)
    if W.kind(v.ty) == "tuple":
        fs = [w.mkfld(v, 0, j) for j in range(len(W.field_tys(v.ty, 0)))]
        fs[p[1]] = setpos(fs[p[1]], pos, i + 1, x)
        return w.mktup(*fs)
    fs = [w.mkfld(v, 0, j) for j in range(len(W.field_tys(v.ty, 0)))]
    fs[p[1] - 2] = setpos(fs[p[1] - 2], pos, i + 1, x)
    return mkadt(v.ty, 0, *fs)


class Leaf:
    __slots__ = ("cell", "pos", "ty", "sym", "atom", "init", "next", "closed")


def mksym(leaf, depth, i, old, new):
    ty = leaf.ty
    if leaf.pos and leaf.pos[-1][0] == "ops":
        a = mk("lv", "ops", depth, i)
        leaf.sym = leaf.atom = a
        return
    if ty is not None:
        s = opq("lv", "x", depth, i, ty=ty)
    elif old.op == "poly" or new.op == "poly":
        s = A(mk("lv", "i", depth, i))
    else:
        vt = I.value_type(new) if I.value_type(new) is not None else I.value_type(old)
        if vt is not None:
            s = opq("lv", "x", depth, i, ty=vt)
        elif new.op == "seq" or old.op == "seq":
            s = mk("lv", "s", depth, i)
        elif is_bool(old) or is_bool(new):
            s = mk("lv", "b", depth, i)
        elif old.op == "ref" or new.op == "ref":
            raise Undecided("loop-carried reference of unknown type")
        else:
            raise Undecided("loop-carried value %s -> %s" % (t.show(old)[:60], t.show(new)[:60]))
    leaf.sym = s
    x = s
    while x.op == "ref":
        x = x.a[0].a[0]
    if x.op == "poly":
        x = t.single_atom(x)
    leaf.atom = x


def is_bool(v):
    return v.op in ("true", "false", "le0", "eq0", "not", "and", "or", "isvar", "eq", "exists")


# ---------------------------------------------------------------- summary
class Summary:
    pass


def tree(outs, depth, leaf):
    """merge the outcomes (decision lists) into nested conditionals"""
    if not outs:
        return None
    if len(outs) == 1 and len(outs[0][0]) <= depth:
        return outs[0][1]
    groups = {}
    conds = None
    for dec, v in outs:
        if len(dec) <= depth:
            raise Undecided("decision tree")
        cs, k = dec[depth]
        if conds is None:
            conds = cs
        groups.setdefault(k, []).append((dec, v))
    vals = {k: tree(g, depth + 1, leaf) for k, g in groups.items()}
    vals = {k: v for k, v in vals.items() if v is not None}
    if not vals:
        return None
    ks = sorted(vals)
    r = vals[ks[-1]]
    for k in reversed(ks[:-1]):
        r = leaf(conds[k], vals[k], r)
    return r


def bool_ite(c, a, b):
    if a is b:
        return a
    if a is TRUE:
        return t.bor(c, b)
    if a is FALSE:
        return t.band(t.bnot(c), b)
    if b is TRUE:
        return t.bor(t.bnot(c), a)
    if b is FALSE:
        return t.band(c, a)
    return t.bor(t.band(c, a), t.band(t.bnot(c), b))


def val_ite(c, a, b):
    if a is b:
        return a
    if is_bool(a) and is_bool(b):
        return bool_ite(c, a, b)
    o, n = expand(a, b)
    if o.op == n.op and o.op in ("adt", "tup", "iter", "closure") and len(o.a) == len(n.a):
        if all(isinstance(x, T) or x == y for x, y in zip(o.a, n.a)):
            a2 = tuple(val_ite(c, x, y) if isinstance(x, T) else x for x, y in zip(o.a, n.a))
            return t.rebuild(o.op, a2, o.ty)
    if a.op == "ref" and b.op == "ref" and isinstance(a.a[0], T) and isinstance(b.a[0], T) and not a.a[1] and not b.a[1]:
        return refval(val_ite(c, a.a[0].a[0], b.a[0].a[0]))
    return t.ite(c, a, b)


def analyse(ctx, body, live):
    """body(ctx2) runs one iteration; live(cell) says whether a cell matters"""
    ex0 = ctx.ex
    depth = ctx.depth
    leaves = []
    start = dict(ctx.mem)
    cells = [c for c in ctx.mem if live(c)]
    mono = []
    for rnd in range(12):
        hdr = dict(ctx.mem)
        for l in leaves:
            hdr[l.cell] = setpos(hdr.get(l.cell) or ctx.cellval(l.cell), l.pos, 0, l.sym)
        base = BaseState(ctx, hdr)
        if mono:
            base.facts = base.facts.copy()
            for c in mono:
                base.facts.assume(c)
        ex = I.Explorer(ctx.prog, base, max_paths=800, max_steps=ex0.max_steps)
        outs = ex.run(body)
        ex0.npaths += ex.npaths // 4
        new = []
        for o in outs:
            if o.kind != "back":
                continue
            m2 = o.ctx.mem
            for c in set(cells) | {c for c in m2 if isinstance(c, T)}:
                a = hdr.get(c)
                if a is None:
                    a = c.a[0] if isinstance(c, T) else None
                b = m2.get(c)
                if b is None or a is b:
                    continue
                ds = []
                diff(a, b, (), ds, ctx.cty.get(c))
                for pos, ty in ds:
                    if any(l.cell == c and l.pos == pos[:len(l.pos)] for l in leaves):
                        continue
                    if not any(n[0] == c and n[1] == pos for n in new):
                        new.append((c, pos, ty, getpos_safe(a, pos), getpos_safe(b, pos)))
        if not new:
            cs = monotone(ctx, leaves, outs)
            if [c for c in cs if c not in mono]:
                # integers only going up (down) never fall below (exceed) their first value
                mono = cs
                continue
            return leaves, outs, hdr
        # a shorter position subsumes longer ones
        allp = new
        for c, pos, ty, a, b in allp:
            if any(n is not None and n[0] == c and n[1] != pos and pos[:len(n[1])] == n[1] for n in allp):
                continue
            leaves = [l for l in leaves if not (l.cell == c and l.pos[:len(pos)] == pos)]
            l = Leaf()
            l.cell, l.pos, l.ty = c, pos, ty
            v0 = ctx.mem.get(c)
            if v0 is None:
                v0 = ctx.cellval(c)
            l.init = getpos(v0, pos)
            if l.init is UNDEF:
                # uninitialised before the loop but live: carry it opaquely
                if ty is None:
                    raise Undecided("uninitialised loop-carried value")
            mksym(l, depth, rnd * 64 + len(leaves), l.init, b)
            leaves.append(l)
    raise Undecided("loop widening does not stabilise")


def monotone(ctx, leaves, outs):
    r = []
    for l in leaves:
        if l.sym.op != "poly" or l.init is UNDEF or l.init.op != "poly" or (l.pos and l.pos[-1][0] == "ops"):
            continue
        ds = []
        for o in outs:
            if o.kind == "back":
                v = o.ctx.mem.get(l.cell)
                v = getpos_safe(ctx.cellval(l.cell) if v is None else v, l.pos)
                d = psub(v, l.sym) if v is not None and v.op == "poly" else None
                ds.append(d.a[0] if d is not None and is_const(d) else None)
        if not ds or None in ds:
            continue
        if all(d <= 0 for d in ds):
            r.append(t.le(l.sym, l.init))
        elif all(d >= 0 for d in ds):
            r.append(t.le(l.init, l.sym))
    return r


def getpos_safe(v, pos):
    return getpos(v, pos)


class BaseState:
    def __init__(self, ctx, mem):
        self.facts, self.mem, self.cty, self.ncell = ctx.facts, mem, ctx.cty, ctx.ncell
        self.events, self.mpan, self.depth, self.stackd = ctx.events, ctx.mpan, ctx.depth, ctx.stackd


def append_part(nx, lv):
    """nx = lv ++ tail -> tail (a sequence term), else None"""
    if nx is lv:
        return w.mkseq([])
    if nx.op == "seq" and nx.a and nx.a[0] is lv:
        r = w.mkseq(nx.a[1:])
        return None if t.contains(r, lv) else r
    if nx.op == "ite":
        a, b = append_part(nx.a[1], lv), append_part(nx.a[2], lv)
        if a is not None and b is not None and not t.contains(nx.a[0], lv):
            return t.ite(nx.a[0], a, b)
    return None


def dropped(nx, sym, own):
    """nx = sym without its first element (if it has one) -> 1"""
    n = w.seqlen(sym)
    if nx.op == "ite":
        for c, y, z in ((nx.a[0], nx.a[1], nx.a[2]), (t.bnot(nx.a[0]), nx.a[2], nx.a[1])):
            if z is sym and y is w.mksub(sym, t.ONE, n) and c is t.le0(psub(t.ONE, n)):
                return 1
    return None


def prepend_part(nx, lv):
    if nx is lv:
        return w.mkseq([])
    if nx.op == "seq" and nx.a and nx.a[-1] is lv:
        r = w.mkseq(nx.a[:-1])
        return None if t.contains(r, lv) else r
    return None


def solve(leaves, kk):
    """closed forms as functions of the iteration number kk"""
    K = A(kk)
    todo = list(leaves)
    cl = {}
    for l in leaves:
        l.closed = None
    prog = True
    while todo and prog:
        prog = False
        others = {l.atom for l in todo}
        for l in list(todo):
            nx = t.subst(l.next, cl) if cl else l.next
            own = l.atom
            if any(t.contains(nx, o) for o in others if o is not own):
                continue
            v = closed1(l, nx, kk, K)
            if v is None:
                continue
            l.closed = v
            x = v
            s = l.sym
            while s.op == "ref":
                s = s.a[0].a[0]
                if x.op != "ref":
                    raise Undecided("reference shape")
                x = x.a[0].a[0]
            cl[own] = x
            todo.remove(l)
            prog = True
    if todo:
        # mutually dependent rest: one fold
        atoms = [l.atom for l in todo]
        steps = [t.subst(l.next, cl) if cl else l.next for l in todo]
        body = mk("tup", *steps)
        for a in atoms:
            body = close(body, a)
        lam = close(body, kk)
        inits = mk("tup", *[l.init for l in todo])
        for i, l in enumerate(todo):
            s = l.sym
            cn = fold_const(i, K, inits, lam)
            if cn is not None:
                l.closed = cn
            elif s.op == "poly":
                l.closed = A(mk("foldv", i, K, inits, lam, ty=l.atom.ty))
            elif l.atom.ty is not None:
                x = opq("foldv", i, K, inits, lam, ty=l.atom.ty)
                l.closed = x
                while s.op == "ref":
                    s = s.a[0].a[0]
                    l.closed = refval(l.closed)
            else:
                l.closed = mk("foldv", i, K, inits, lam)
            x = l.closed
            while x.op == "ref":
                x = x.a[0].a[0]
            cl[l.atom] = x
    return cl


def fold_const(i, n, inits, lam):
    """the i-th component after a known, small number of rounds"""
    if not (is_const(n) and n.a[0] <= 4) or any(x.op == "undef" for x in inits.a):
        return None
    cur = list(inits.a)
    for k in range(max(0, n.a[0])):
        b = open_(lam, C(k))
        for x in reversed(cur):
            b = open_(b, x)
        if b.op != "tup":
            return None
        cur = list(b.a)
    return cur[i]


@t.reb("foldv")
def _(a, ty):
    r = fold_const(*a)
    return mk("foldv", *a, ty=ty) if r is None else r


@t.reb("sumseq")
def _(a, ty):
    return sumseq(*a)


def sumseq(n, lam):
    """sum of the first n terms; a known number of them is added up"""
    if is_const(n) and n.a[0] <= 16:
        r = t.ZERO
        for i in range(n.a[0]):
            r = padd(r, t.open_(lam, C(i)))
        return r
    return A(mk("sumseq", n, lam))


def closed1(l, nx, kk, K):
    own, sym, v0 = l.atom, l.sym, l.init
    if nx is sym:
        return v0
    if not t.contains(nx, own):
        # last value
        prev = open_(close(nx, kk), psub(K, t.ONE))
        first = prev_at(nx, kk, -1)
        if first is not None and first is v0:
            return prev
        if nx.op != "ref" and not t.contains(nx, kk) and nx is v0:
            return v0
        return val_ite(t.le0(K), v0, prev) if v0 is not UNDEF else prev
    if l.pos and l.pos[-1][0] == "ops" or sym.op != "poly":
        base = sym
        if base.op == "lv" or sym.op == "lv":
            ap = append_part(nx, sym)
            if ap is not None:
                return w.mkseq([w_seq(v0), flatseq(K, close(ap, kk))])
            pp = prepend_part(nx, sym)
            if pp is not None:
                # prepended: newest first
                lam = close(pp, kk)
                r = flatseq(K, close(open_(lam, psub(psub(K, t.ONE), A(mk("lv_k", "r")))), mk("lv_k", "r")))
                return w.mkseq([r, w_seq(v0)])
            dr = dropped(nx, sym, own)
            if dr is not None:
                # d elements leave at the front in every round
                n = w.seqlen(v0)
                return w.mksub(v0, t.imin(t.pmul(C(dr), K), n), n)
            if nx.op == "upd" and nx.a[0] is sym:
                ix = nx.a[1]
                d = psub(ix, K)
                if is_const(d) and d.a[0] == 0 and not t.contains(ix, own):
                    # in-place map of element k
                    x = nx.a[2]
                    x = subst_at(x, sym, ix, v0)
                    if not t.contains(x, own):
                        return w.mkseq([w.mapseq(K, close(x, kk)), w.mksub(v0, K, w.seqlen(v0))])
        if is_bool(nx) or is_bool(v0):
            if nx.op == "or" and own in nx.a:
                c = t.bor(*[x for x in nx.a if x is not own])
                if not t.contains(c, own):
                    return t.bor(v0, exists(K, close(c, kk)))
            if nx.op == "and" and own in nx.a:
                c = t.band(*[x for x in nx.a if x is not own])
                if not t.contains(c, own):
                    return t.band(v0, t.bnot(exists(K, close(t.bnot(c), kk))))
    else:
        d = psub(nx, sym)
        if not t.contains(d, own):
            if not t.contains(d, kk):
                return padd(v0, t.pmul(d, K))
            return padd(v0, sumseq(K, close(d, kk)))
        x = t.single_atom(nx)
        if x is not None and x.op in ("max", "min") and sym in x.a:
            rest = [y for y in x.a if y is not sym]
            f = t.imax if x.op == "max" else t.imin
            e = f(*rest)
            if not t.contains(e, own):
                if not t.contains(e, kk):
                    r = f(v0, e)
                    return t.ite(t.le0(K), v0, r)
                return f(v0, A(mk(x.op + "seq", K, close(e, kk))))
        # conditional addition
        if x is not None and x.op == "ite" and not t.contains(x.a[0], own):
            a, b = psub(x.a[1], sym), psub(x.a[2], sym)
            if not t.contains(a, own) and not t.contains(b, own):
                return padd(v0, sumseq(K, close(t.ite(x.a[0], a, b), kk)))
            # running maximum under a condition
            for c, y, z in ((x.a[0], x.a[1], x.a[2]), (t.bnot(x.a[0]), x.a[2], x.a[1])):
                if z is sym:
                    y1 = t.single_atom(y)
                    if y1 is not None and y1.op == "max" and sym in y1.a:
                        e = t.imax(*[q for q in y1.a if q is not sym])
                        if not t.contains(e, own):
                            return t.imax(v0, A(mk("maxseq", K, close(mk("when", c, e), kk))))
    return None


def w_seq(v):
    return v


def prev_at(nx, kk, i):
    try:
        return open_(close(nx, kk), C(i))
    except Exception:
        return None


def subst_at(x, sym, ix, v0):
    """reads of element ix of the sequence being rewritten see the original"""
    m = {}
    for y in t.walk(x):
        if y.op == "at" and y.a[0] is sym and y.a[1] is ix:
            r = w.mkat(v0, ix, y.ty)
            r = w.unref(r, y.ty)
            if r.op == "poly":
                s = t.single_atom(r)
                r = s if s is not None else r
            m[y] = r
    return t.subst(x, m) if m else x


def summarise(ctx, body, live, what):
    """replaces the current state by the state at the loop head of the last
    (partial) iteration; the caller then runs the body once more and prunes
    the paths that would go round again"""
    ex = ctx.ex
    ctx.nloop += 1
    key = (tuple(k for k, _ in ctx.trail), ctx.nloop)
    S = ex.loopmemo.get(key)
    if S is None:
        S = build(ctx, body, live, what)
        ex.loopmemo[key] = S
    apply(ctx, S)


def build(ctx, body, live, what):
    S = Summary()
    S.what = what
    ctx.prog.stat_loops[what] = ctx.prog.stat_loops.get(what, 0) + 1
    leaves, outs, hdr = analyse(ctx, body, live)
    backs = [o for o in outs if o.kind == "back"]
    exits = [o for o in outs if o.kind != "back"]
    S.leaves = leaves
    S.mpan = []
    n0 = len(ctx.mpan)
    for o in outs:
        for x in o.ctx.mpan[n0:]:
            if x not in S.mpan:
                S.mpan.append(x)
    nev = len(ctx.events)
    for o in backs:
        if len(o.ctx.events) != nev:
            S.events = True
            raise Undecided("recorded event inside a loop (%s)" % what)
    kk = mk("lv_k", ctx.depth)
    S.kk = kk
    if not backs:
        # never goes round: plain code
        S.leaves = []
        S.mode = None
        return S
    for l in leaves:
        vals = []
        for o in backs:
            v = o.ctx.mem.get(l.cell)
            if v is None:
                v = o.ctx.cellval(l.cell)
            vals.append((o.trail, o.facts.norm(getpos(v, l.pos)) if False else getpos(v, l.pos)))
        l.next = tree(vals, 0, val_ite)
        check_escape(l.next, ctx.ncell)
    cl = solve(leaves, kk)
    tr = [(o.trail, TRUE if o.kind != "back" else FALSE) for o in outs]
    E = tree(tr, 0, bool_ite)
    E = t.subst(E, cl) if cl else E
    S.E = E
    S.exits = exits
    S.nback = len(backs)
    # stopping index
    S.mode, S.N, S.lam = classify(ctx, E, kk)
    return S


def check_escape(v, ncell):
    for x in t.walk(v):
        if x.op == "ref" and not isinstance(x.a[0], T) and x.a[0] > ncell:
            raise Undecided("loop-carried reference to a loop-local value")


def classify(ctx, E, kk):
    """E(k): the loop stops in iteration k.  -> (mode, bound, condition)"""
    parts = list(E.a) if E.op == "or" else [E]
    bound = None
    rest = []
    for p in parts:
        n = guard_bound(p, kk)
        if n is not None and bound is None:
            bound = n
        else:
            rest.append(p)
    if bound is not None and not rest:
        return "count", bound, None
    if bound is not None:
        e = t.bor(*rest)
        g = t.bnot(t.le0(psub(bound, A(kk))))
        # conditions are evaluated below the bound: drop the guard from them
        e = drop_guard(e, g, t.bnot(g))
        return "search", bound, close(e, kk)
    # conjunction form: (k >= N) or ...  inside and/or trees
    return "while", None, close(E, kk)


def drop_guard(e, g, ng):
    if e is g:
        return TRUE
    if e is ng:
        return FALSE
    if e.op == "and":
        return t.band(*[drop_guard(x, g, ng) for x in e.a])
    if e.op == "or":
        return t.bor(*[drop_guard(x, g, ng) for x in e.a])
    return e


def guard_bound(p, kk):
    """p == (N <= k) -> N"""
    if p.op != "le0":
        return None
    q = p.a[0]
    co = None
    for m, c in q.a[1]:
        if kk in m:
            if len(m) != 1:
                return None
            co = c
        else:
            for x in m:
                if t.contains(x, kk):
                    return None
    if co is None or co >= 0:
        return None
    rest = padd(q, A(kk), -co)
    if co == -1:
        return rest
    # rest - c*k <= 0  <=>  k >= ceil(rest / c)
    c = -co
    return t.fdiv(padd(rest, C(c - 1)), C(c))


def apply(ctx, S):
    if S.mode is None:
        for x in S.mpan:
            if x not in ctx.mpan:
                ctx.mpan.append(x)
        return
    f = ctx.facts
    if S.mode == "count":
        N = f.norm(S.N)
        lo, hi = f.bounds(N)
        if lo >= 0:
            K = N
        elif hi <= 0:
            K = t.ZERO
        else:
            if ctx.branch(t.le0(N)):
                K = t.ZERO
            else:
                K = N
    elif S.mode == "search":
        N = f.norm(S.N)
        lo, hi = f.bounds(N)
        if lo < 0 and ctx.branch(t.le0(N)):
            K = t.ZERO
        else:
            lam = f.norm(S.lam)
            ex = exists(N, lam)
            if ctx.branch(ex):
                K = firstidx(N, lam)
                ctx.assume(t.le(t.ZERO, K))
                ctx.assume(t.lt(K, N))
                ctx.assume(open_(lam, K))
            else:
                K = N
    else:
        lam = f.norm(S.lam)
        e0 = open_(lam, t.ZERO)
        if ctx.branch(e0):
            K = t.ZERO
        else:
            K = firstidx(INFTY, lam)
            ctx.assume(t.le(t.ONE, K))
            ctx.assume(open_(lam, K))
            ctx.assume(t.bnot(open_(lam, psub(K, t.ONE))))
    for l in S.leaves:
        v = ctx.mem.get(l.cell)
        if v is None:
            v = ctx.cellval(l.cell)
        x = open_(close(l.closed, S.kk), K)
        ctx.mem[l.cell] = setpos(v, l.pos, 0, x)
    for x in S.mpan:
        if x not in ctx.mpan:
            ctx.mpan.append(x)
    ctx.loopdecs.append((S.what, S, K))


def summarise_mir(frame, L):
    ctx, f = frame.ctx, frame.f
    live, bor = frame.prog.liveness(f)
    lv = live[L[0]]
    base = frame.base
    n = len(f.body["locals"])

    def islive(c):
        if isinstance(c, int) and base <= c < base + n:
            l = c - base
            if l in lv:
                return True
            bs = bor.get(l)
            return bool(bs) and any(b not in L[1] for b in bs)
        return True
    # dead locals carry nothing
    for i in range(n):
        c = base + i
        if c in ctx.mem and not islive(c):
            ctx.mem[c] = UNDEF

    def body(c2):
        fr = I.Frame(frame.prog, c2, f, base)
        fr.loops = [[L[0], L[1], "body", 0]]
        fr.run(("resume", L[0]))
        return c2.mem[base]
    summarise(ctx, body, islive, "%s" % f.m["path"])


class Tok:
    pass


def run_loop(ctx, body, what):
    """synthetic loop: body(ctx) -> True to go on; all state in ctx memory"""
    n = 0
    while True:
        p = I.Pending()
        p.mem, p.facts, p.nev, p.npan = dict(ctx.mem), ctx.facts.copy(), len(ctx.events), len(ctx.mpan)
        p.owner, p.blocks, p.nf = Tok(), None, len(ctx.stackd)
        ctx.pendings.append(p)
        try:
            go = body(ctx)
            if ctx.pendings and ctx.pendings[-1] is p:
                ctx.pendings.pop()
            if not go:
                return
            n += 1
            if n > 200:
                raise Undecided("loop unrolled 200 times")
        except I.NeedSummary as e:
            if e.p is not p:
                raise
            ctx.mem, ctx.facts = p.mem, p.facts
            del ctx.events[p.nev:]
            del ctx.mpan[p.npan:]
            del ctx.stackd[p.nf:]
            while ctx.pendings and ctx.pendings[-1] is not p:
                ctx.pendings.pop()
            ctx.pendings.pop()

            def b2(c2):
                if body(c2):
                    raise I.BackEdge()
                raise I.LoopExit(0)
            summarise(ctx, b2, lambda c: True, what)
            if body(ctx):
                raise Infeasible()
            return


def decided(ctx):
    """the continuation test of the innermost synthetic loop was decided"""
    if ctx.pendings and isinstance(ctx.pendings[-1].owner, Tok):
        ctx.pendings.pop()
