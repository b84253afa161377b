"""Path-sensitive abstract interpreter over the MIR of the crate.

One path = one sequence of decisions.  A run is replayed from a decision prefix,
so model code and specifications are plain Python functions that may branch too.
Loops are either unrolled (while their continuation test is decided) or
summarised once by widening and closed forms (loops.py)."""
import math
import sys
from . import terms as t
from . import world as w
from .terms import T, mk, A, C, is_const, psub, padd, TRUE, FALSE, UNIT, UNDEF
from .world import Undecided, refval, mkfld, mkadt, mktup, opq
from .facts import Facts, Infeasible

sys.setrecursionlimit(20000)


class Panic(Exception):
    def __init__(self, site, msg):
        self.site, self.msg = site, msg


class BackEdge(Exception):
    pass


class LoopExit(Exception):
    def __init__(self, bb):
        self.bb = bb


class NeedSummary(Exception):
    def __init__(self, p):
        self.p = p


class Budget(Undecided):
    pass


class Pending:
    __slots__ = ("mem", "facts", "nev", "npan", "owner", "blocks", "nf")


class Outcome:
    """one explored path"""
    __slots__ = ("kind", "value", "ctx", "site", "msg", "trail")

    def __init__(self, kind, value, ctx, site=None, msg=None):
        self.kind, self.value, self.ctx, self.site, self.msg = kind, value, ctx, site, msg
        self.trail = list(ctx.decisions)

    @property
    def facts(self):
        return self.ctx.facts


class Explorer:
    """depth first over decision prefixes"""

    def __init__(self, prog, base=None, max_paths=4000, max_steps=400000):
        self.prog = prog
        self.base = base            # parent Ctx to inherit memory/facts from
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.loopmemo = {}
        self.npaths = 0

    def run(self, fn):
        out = []
        stack = [[]]
        while stack:
            prefix = stack.pop()
            self.npaths += 1
            if self.npaths > self.max_paths:
                raise Budget("more than %d paths" % self.max_paths)
            ctx = Ctx(self.prog, self, prefix)
            try:
                v = fn(ctx)
                out.append(Outcome("ret", v, ctx))
            except Infeasible:
                pass
            except Panic as e:
                out.append(Outcome("panic", None, ctx, e.site, e.msg))
            except BackEdge:
                out.append(Outcome("back", None, ctx))
            except LoopExit as e:
                out.append(Outcome("exit", e.bb, ctx))
            self.prog.stat_paths += 1
            # schedule alternatives of the decisions made beyond the prefix
            for i in range(len(ctx.trail) - 1, len(prefix) - 1, -1):
                k, n = ctx.trail[i]
                for j in range(n - 1, k, -1):
                    pass
            alts = []
            for i in range(len(prefix), len(ctx.trail)):
                k, n = ctx.trail[i]
                for j in range(k + 1, n):
                    alts.append([x for x, _ in ctx.trail[:i]] + [j])
            # explore in order: deepest first, smaller index first
            stack.extend(sorted(alts, key=lambda p: (len(p), [-x for x in p])))
        return out


class Ctx:
    def __init__(self, prog, ex, prefix):
        self.prog, self.ex, self.prefix = prog, ex, prefix
        self.trail = []          # (choice, n)
        self.decisions = []      # (tuple of conditions, chosen index)
        b = ex.base
        if b is None:
            self.facts = Facts()
            self.mem = {}
            self.cty = {}
            self.ncell = 0
            self.events = []
            self.mpan = []       # potential panics met and assumed away: (site, msg, cond)
            self.depth = 0
            self.stackd = []
            self.final = []
        else:
            self.facts = b.facts.copy()
            self.mem = dict(b.mem)
            self.cty = b.cty
            self.ncell = b.ncell
            self.events = list(b.events)
            self.mpan = list(b.mpan)
            self.depth = b.depth + 1
            self.stackd = list(b.stackd)
            self.final = []
        self.pendings = []
        self.steps = 0
        self.nloop = 0
        self.loopdecs = []

    # ------------------------------------------------------------ decisions
    def choose(self, n, conds):
        """pick one of n alternatives; conds[i] is the condition for alternative i"""
        if n == 1:
            self.facts.assume(conds[0])
            return 0
        if self.pendings:
            raise NeedSummary(self.pendings[-1])
        i = len(self.trail)
        k = self.prefix[i] if i < len(self.prefix) else 0
        self.trail.append((k, n))
        self.decisions.append((tuple(conds), k))
        self.facts.assume(conds[k])
        return k

    def branch(self, cond):
        """truth of a boolean term on this path (forks when unknown)"""
        d = self.facts.decide(cond)
        if d is not None:
            return d
        cond = self.facts.norm(cond)
        d = self.facts.decide(cond)
        if d is not None:
            return d
        return self.choose(2, (cond, t.bnot(cond))) == 0

    def known(self, cond):
        return self.facts.decide(cond)

    def assume(self, cond):
        self.facts.assume(cond)

    # ------------------------------------------------------------ memory
    def alloc(self, v, ty=None):
        self.ncell += 1
        c = self.ncell
        self.mem[c] = v
        self.cty[c] = ty
        return c

    def cellval(self, cell):
        v = self.mem.get(cell)
        if v is None:
            if isinstance(cell, T):
                return cell.a[0]
            raise Undecided("dangling cell")
        return v

    def load(self, cell, path):
        v = self.cellval(cell)
        for p in path:
            v = self.proj(v, p)
        return v

    def proj(self, v, p):
        k = p[0]
        if v.op == "ite":
            d = self.facts.decide(v.a[0])
            if d is not None:
                return self.proj(v.a[1] if d else v.a[2], p)
        if k == "f":
            if v is UNDEF:
                return UNDEF
            x, ix = p[1], p[2]
            return mkfld(self.variant_view(v, x), x, ix, p[3] if len(p) > 3 else None)
        if k == "i":
            return w.mkat(self.seqview(v), p[1], p[2] if len(p) > 2 else None)
        if k == "sub":
            return w.mksub(self.seqview(v), p[1], p[2])
        if k == "hv" and v.op == "hset":
            return mkfld(w.mkat(v.a[0], C(p[1])), 0, 1)
        raise Undecided("projection %s" % (p,))

    def seqview(self, v):
        return v

    def variant_view(self, v, x):
        return v

    def store(self, cell, path, val):
        if not path:
            self.mem[cell] = val
            return
        self.mem[cell] = self.upd(self.cellval(cell), path, 0, val)

    def upd(self, v, path, i, val):
        if i == len(path):
            return val
        p = path[i]
        if p[0] == "f":
            x, ix = p[1], p[2]
            if v.op == "adt":
                fs = list(v.a[2:])
                fs[ix] = self.upd(fs[ix], path, i + 1, val)
                return mkadt(v.a[0], v.a[1], *fs)
            if v.op == "tup":
                fs = list(v.a)
                fs[ix] = self.upd(fs[ix], path, i + 1, val)
                return mktup(*fs)
            if v.op == "closure":
                fs = list(v.a)
                fs[1 + ix] = self.upd(fs[1 + ix], path, i + 1, val)
                return mk("closure", *fs)
            if v.op == "ite":
                if self.branch(v.a[0]):
                    return self.upd(v.a[1], path, i, val)
                return self.upd(v.a[2], path, i, val)
            if v.ty is None:
                raise Undecided("write into untyped %s" % t.show(v)[:80])
            W = w.W
            n = len(W.field_tys(v.ty, x))
            fs = [mkfld(v, x, j) for j in range(n)]
            fs[ix] = self.upd(fs[ix], path, i + 1, val)
            if W.kind(v.ty) == "tuple":
                return mktup(*fs)
            return mkadt(v.ty, x, *fs)
        if p[0] == "i":
            old = w.mkat(v, p[1], p[2] if len(p) > 2 else None)
            new = self.upd(old, path, i + 1, val)
            return mkupd(v, p[1], new)
        if p[0] == "sub":
            if i + 1 < len(path) and path[i + 1][0] == "i":
                # one element of a part: that element of the whole
                q = path[i + 1]
                return self.upd(v, (("i", padd(p[1], q[1])) + tuple(q[2:]),) + tuple(path[i + 2:]), 0, val)
            if i + 1 < len(path) and path[i + 1][0] == "sub":
                q = path[i + 1]
                return self.upd(v, (("sub", padd(p[1], q[1]), padd(p[1], q[2])),) + tuple(path[i + 2:]), 0, val)
            return w.mkseq([w.mksub(v, t.ZERO, p[1]), val, w.mksub(v, p[2], w.seqlen(v))])
        if p[0] == "hv" and v.op == "hset":
            n = w.seqlen(v.a[0])
            es = [w.mkat(v.a[0], C(j)) for j in range(n.a[0])]
            es[p[1]] = mktup(mkfld(es[p[1]], 0, 0), self.upd(mkfld(es[p[1]], 0, 1), path, i + 1, val))
            return mk("hset", w.mkseq([w.item(e) for e in es]), ty=v.ty)
        raise Undecided("write through %s" % (p,))

    def deref(self, v):
        """value behind a reference value"""
        v = self.whnf(v)
        if v.op == "ref":
            return self.load(v.a[0], v.a[1])
        raise Undecided("deref of %s" % t.show(v)[:100])

    def whnf(self, v):
        """resolve ite at the head, forking if needed"""
        while v.op == "ite" or (v.op == "poly" and False):
            v = v.a[1] if self.branch(v.a[0]) else v.a[2]
        return v

    def write(self, r, val):
        r = self.whnf(r)
        if r.op != "ref":
            raise Undecided("write through %s" % t.show(r)[:100])
        self.store(r.a[0], r.a[1], val)

    def ref_to(self, val, ty=None):
        """&mut to a fresh cell"""
        return mk("ref", self.alloc(val, ty), ())

    # ------------------------------------------------------------ calls
    def call(self, fid, args, argtys=None, dest=None, site=None):
        return self.prog.call(self, fid, args, argtys, dest, site)

    def call_path(self, path, *args):
        return self.prog.call(self, self.prog.fid(path), list(args), None, None, None)

    def event(self, *e):
        self.events.append(e)

    def canpanic(self, site, msg, ok):
        """ok must hold for no panic: note it when not provable, then assume it"""
        d = self.facts.decide(ok)
        if d is True:
            return
        if d is False:
            raise Panic(site, msg)
        m = self.prog.panic_matters
        if m is None or not m(site, msg) or not self.facts.implied(ok):
            self.mpan.append((site, msg, ok))
        self.facts.assume(ok)


def is_multiple(p, n):
    """does n visibly divide the polynomial p?"""
    return p.a[0] % n == 0 and all(c % n == 0 for _, c in p.a[1])


def mkupd(s, i, x):
    """sequence s with element i replaced"""
    if s.op == "seq" and is_const(i):
        off = i.a[0]
        for j, e in enumerate(s.a):
            if e.op != "it":
                break
            if j == off:
                l = list(s.a)
                l[j] = w.item(x)
                return w.mkseq(l)
    if s.op == "rev":
        return w.mkrev(mkupd(s.a[0], psub(psub(w.seqlen(s.a[0]), t.ONE), i), x))
    if s.ty is not None and w.W.kind(s.ty) == "array" and isinstance(w.W.types[s.ty].get("len"), int) and is_const(i):
        n = w.W.types[s.ty]["len"]
        if n <= 64:
            return w.mkseq([w.item(x if j == i.a[0] else w.mkat(s, C(j))) for j in range(n)])
    if w.mkat(s, i) is x:
        return s
    return mk("upd", s, i, x, ty=s.ty)


@t.reb("upd")
def _(a, ty):
    return mkupd(*a)


@t.reb("wrap")
def _(a, ty):
    if is_const(a[0]):
        lo, hi = w.W.irange(ty)
        return C((a[0].a[0] - lo) % (hi - lo + 1) + lo)
    return mk("wrap", *a, ty=ty)


def wrapped(ctx, p, lo, hi, b, ty):
    """p, whose bounds are b, brought into lo..=hi by wrapping around"""
    n = hi - lo + 1
    if is_const(p):
        return C((p.a[0] - lo) % n + lo)
    if b[0] is not None and b[1] is not None and not math.isinf(b[0]) and not math.isinf(b[1]):
        first, last = (b[0] - lo) // n, (b[1] - lo) // n
        if last - first < 3:
            # each number of times it goes around is a case of its own
            for k in range(first, last):
                if ctx.branch(t.le(p, C(hi + k * n))):
                    return t.padd(p, C(-k * n))
            return t.padd(p, C(-last * n))
    return A(mk("wrap", p, ty=ty))


# ---------------------------------------------------------------- program
class Fn:
    __slots__ = ("m", "body", "id", "loops", "live", "heads", "locs")


class Program:
    def __init__(self, world):
        self.w = world
        self.fns = {}
        self.models = {}
        self.overrides = {}       # path -> python model, per check
        self.panic_matters = None   # (site, msg) -> must it be excluded; None: nobody asks
        self.merge = True
        self.nomerge = set()
        self.stat_paths = 0
        self.stat_fns = set()
        self.stat_calls = 0
        self.stat_opaque = {}
        self.stat_loops = {}
        self.unroll = 0         # iterations of a loop followed one by one before it is summarised
        self._fid = {}
        from . import models
        self.modelsmod = models
        models.install(self)

    def fid(self, path):
        r = self.w.bypath.get(path) or self.w.bare(path)
        if not r:
            raise MissingAnchor(path)
        return r[0]

    def fn(self, i):
        f = self.fns.get(i)
        if f is None:
            f = Fn()
            f.id = i
            f.m = self.w.fns[i]
            f.body = f.m.get("body")
            f.heads = None
            if f.body:
                self.prep(f)
            self.fns[i] = f
        return f

    # -------------------------------------------------- cfg
    def prep(self, f):
        bl = f.body["blocks"]
        n = len(bl)
        succ = [succs(b["t"]) for b in bl]
        # natural loops via dominators (iterative)
        order, seen = [], set()
        st = [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        idx = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                if s in idx:
                    preds[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        heads = {}
        for b in order:
            for s in succ[b]:
                if s in idx and dom(s, b):
                    body = heads.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        f.heads = heads
        f.live = None

    def liveness(self, f):
        if f.live is not None:
            return f.live
        bl = f.body["blocks"]
        nl = len(f.body["locals"])
        use, de = [], []
        for b in bl:
            u, d = set(), set()

            def rd(l):
                if l not in d:
                    u.add(l)

            def place(p, write):
                for e in p[1:]:
                    if isinstance(e, list) and e[0] == "i":
                        rd(e[1])
                if write and len(p) == 1:
                    d.add(p[0])
                else:
                    rd(p[0])

            def opnd(o):
                if o[0] in ("c", "m"):
                    place(o[1], False)
            for s in b["s"]:
                if s[0] == "=":
                    for o in rv_operands(s[2]):
                        if o[0] == "P":
                            place(o[1], False)
                        else:
                            opnd(o)
                    place(s[1], True)
                elif s[0] == "setd":
                    place(s[1], False)
            tm = b["t"]
            if tm[0] == "switch":
                opnd(tm[1])
            elif tm[0] == "call":
                if "op" in tm[1]:
                    opnd(tm[1]["op"])
                for o in tm[2]:
                    opnd(o)
                place(tm[3], True)
            elif tm[0] == "assert":
                opnd(tm[1])
            elif tm[0] == "ret":
                rd(0)
            use.append(u)
            de.append(d)
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for i in range(len(bl) - 1, -1, -1):
                o = set()
                for s in succs(bl[i]["t"]):
                    o |= live[s]
                nw = use[i] | (o - de[i])
                if nw != live[i]:
                    live[i] = nw
                    ch = True
        # locals borrowed: block sets
        bor = {}
        for i, b in enumerate(bl):
            for s in b["s"]:
                if s[0] == "=" and s[2][0] in ("ref", "ref*", "rawref"):
                    p = s[2][1]
                    if "*" not in p:
                        bor.setdefault(p[0], set()).add(i)
        f.live = (live, bor)
        return f.live

    # -------------------------------------------------- calls
    def call(self, ctx, fid, args, argtys, dest, site):
        m = self.w.fns[fid]
        self.stat_calls += 1
        path = m["path"]
        ov = self.overrides.get(path)
        if ov is not None:
            r = ov(ctx, m, args)
            if r is not NotImplemented:
                return r
        r = self.modelsmod.dispatch(self, ctx, fid, m, args, argtys, dest, site)
        if r is not NotImplemented:
            return r
        f = self.fn(fid)
        if f.body is None:
            return self.opaque_call(ctx, fid, m, args, dest, site)
        if self.merge and m["dk"] in ("AssocFn", "Fn") and (m["local"] or path.startswith(MERGED_STD)) and ctx.ex is not None:
            if fid in self.nomerge:
                ctx.nloop += 1      # as the attempt does: positions are keys of the memo
                return self.exec_fn(ctx, f, args)
            r = self.merged(ctx, f, args)
            if r is not None:
                return r
        return self.exec_fn(ctx, f, args)

    # -------------------------------------------------- join at return
    def merged(self, ctx, f, args):
        """explore the callee on its own and join its outcomes into one value
        (only for callees that change nothing the caller can see)"""
        ctx.nloop += 1
        key = ("call", tuple(k for k, _ in ctx.trail), ctx.nloop, f.id)
        memo = ctx.ex.loopmemo
        got = memo.get(key)
        if got is None:
            got = self.merge_build(ctx, f, args)
            memo[key] = got
        how, x = got
        if how == "adopt":
            o = x
            ctx.mem = dict(o.ctx.mem)
            ctx.facts = o.ctx.facts.copy()
            ctx.ncell = o.ctx.ncell
            ctx.events = list(o.ctx.events)
            ctx.mpan = list(o.ctx.mpan)
            ctx.loopdecs = ctx.loopdecs + o.ctx.loopdecs
            return o.value
        if how == "join":
            pan, val, mpan, names, ld = x
            for y in mpan:
                if y not in ctx.mpan:
                    ctx.mpan.append(y)
            ctx.loopdecs = ctx.loopdecs + ld
            if pan is not FALSE:
                if val is None or ctx.branch(pan):
                    raise Panic(*names[0])
            return val
        return None

    def merge_build(self, ctx, f, args):
        from . import loops
        base = loops.BaseState(ctx, ctx.mem)
        ex = Explorer(self, base, max_paths=ctx.ex.max_paths, max_steps=ctx.ex.max_steps)
        try:
            outs = ex.run(lambda c2: self.exec_fn(c2, f, args))
        except Budget:
            raise
        ctx.ex.npaths += ex.npaths // 8
        if len(outs) == 1 and outs[0].kind == "ret":
            return "adopt", outs[0]
        if not outs:
            raise Infeasible()
        n = ctx.ncell
        nev = len(ctx.events)
        for o in outs:
            if len(o.ctx.events) != nev:
                self.nomerge.add(f.id)
                return "no", None
            m2 = o.ctx.mem
            if o.kind == "panic":
                continue
            for c, v in m2.items():
                if isinstance(c, T) or c <= n:
                    a = ctx.mem.get(c)
                    if a is not v:
                        self.nomerge.add(f.id)
                        return "no", None
        rets = [o for o in outs if o.kind == "ret"]
        vals = []
        for o in rets:
            v = self.freeze_local(o.ctx, o.value, n)
            if v is None:
                self.nomerge.add(f.id)
                return "no", None
            vals.append((o.trail, v))
        mpan = []
        for o in outs:
            for y in o.ctx.mpan:
                if y not in mpan:
                    mpan.append(y)
        names = []
        pan = FALSE
        if len(rets) != len(outs):
            pan = loops.tree([(o.trail, TRUE if o.kind == "panic" else FALSE) for o in outs], 0, loops.bool_ite)
            names = [(o.site, o.msg) for o in outs if o.kind == "panic"]
        val = None
        if vals:
            try:
                val = loops.tree(vals, 0, loops.val_ite)
            except Undecided:
                self.nomerge.add(f.id)
                return "no", None
        return "join", (pan, val, mpan, names, [d for o in outs for d in o.ctx.loopdecs])

    def freeze_local(self, ctx, v, n):
        """the value with callee-local cells read out; None when not plain data"""
        if v is UNDEF or v is UNIT:
            return v
        if v.op == "ref":
            if isinstance(v.a[0], T):
                return v
            if v.a[0] > n:
                return None
            return v
        if v.op in ("adt", "tup"):
            a2 = []
            for x in v.a:
                if isinstance(x, T):
                    x = self.freeze_local(ctx, x, n)
                    if x is None:
                        return None
                a2.append(x)
            return t.rebuild(v.op, tuple(a2), v.ty)
        if v.op in ("iter", "closure", "it"):
            return None
        for x in t.walk(v):
            if x.op == "ref" and not isinstance(x.a[0], T):
                return None
        return v

    def opaque_call(self, ctx, fid, m, args, dest, site):
        name = m["path"]
        self.stat_opaque[name] = self.stat_opaque.get(name, 0) + 1
        if dest is None:
            raise Undecided("no model of %s" % name)
        vals = []
        for a in args:
            vals.append(self.freeze(ctx, a))
        # a &mut argument is clobbered
        for i, a in enumerate(args):
            if a.op == "ref" and not isinstance(a.a[0], T):
                old = ctx.load(a.a[0], a.a[1])
                ty = value_type(old)
                if ty is not None:
                    nv = opq("app", "?mut%d:%s" % (i, name), *vals, ty=ty)
                    ctx.store(a.a[0], a.a[1], nv)
                else:
                    ctx.store(a.a[0], a.a[1], mk("app", "?mut%d:%s" % (i, name), *vals))
        return opq("app", "?" + name, *vals, ty=dest)

    def freeze(self, ctx, v):
        """value without memory cells"""
        if v.op == "ref":
            if isinstance(v.a[0], T) and not v.a[1] and v.a[0] not in ctx.mem:
                return refval(self.freeze(ctx, v.a[0].a[0]))
            return refval(self.freeze(ctx, ctx.load(v.a[0], v.a[1])))
        if v.op in ("adt", "tup", "closure", "it", "seq", "iter"):
            a2 = tuple(self.freeze(ctx, x) if isinstance(x, T) else x for x in v.a)
            if a2 != v.a:
                return t.rebuild(v.op, a2, v.ty)
        return v

    def exec_fn(self, ctx, f, args):
        self.stat_fns.add(f.m["path"])
        if len(ctx.stackd) > 70:
            raise Undecided("call depth at %s" % f.m["path"])
        if ctx.stackd.count(f.id) > 3:
            raise Undecided("recursion in %s" % f.m["path"])
        b = f.body
        locs = []
        tys = b["locals"]
        n = b["argc"]
        if b.get("spread") is not None and False:
            pass
        if len(args) != n:
            raise Undecided("arity of %s: %d args for %d" % (f.m["path"], len(args), n))
        base = ctx.ncell
        ctx.ncell += len(tys)
        mem, cty = ctx.mem, ctx.cty
        for i, ty in enumerate(tys):
            mem[base + 1 + i] = UNDEF
            cty[base + 1 + i] = ty
        for i, a in enumerate(args):
            mem[base + 2 + i] = a
        fr = Frame(self, ctx, f, base + 1)
        ctx.stackd.append(f.id)
        try:
            fr.run(0)
        finally:
            ctx.stackd.pop()
        r = mem[base + 1] if ctx.mem is mem else ctx.mem[base + 1]
        # free locals: keeps loop diffs small
        m2 = ctx.mem
        for i in range(len(tys)):
            m2.pop(base + 1 + i, None)
        if r is UNDEF:
            r = UNIT if w.W.kind(tys[0]) == "tuple" else UNDEF
        return r

    def call_value(self, ctx, f, args, dest=None):
        """call a callable value with positional args"""
        f = ctx.whnf(f)
        while f.op == "ref":
            inner = ctx.load(f.a[0], f.a[1])
            inner = ctx.whnf(inner)
            if inner.op == "ref":
                f = inner
                continue
            if inner.op == "closure":
                return self.call_closure(ctx, inner, args, f)
            f = inner
        if f.op == "closure":
            return self.call_closure(ctx, f, args, None)
        if f.op == "fn":
            fid = f.a[0]
            return self.call(ctx, fid, args, None, dest, None)
        if f.op == "ctor":
            return mkadt(f.a[0], f.a[1], *args)
        if f.op == "pyfn":
            return PYFN[f.a[0]](ctx, *args)
        if dest is not None:
            vals = [self.freeze(ctx, a) for a in args]
            return opq("app", "callv", f, *vals, ty=dest)
        raise Undecided("call of unknown value %s" % t.show(f)[:120])

    def call_closure(self, ctx, c, args, ref):
        fid = c.a[0]
        f = self.fn(fid)
        if f.body is None:
            raise Undecided("closure without body %s" % f.m["path"])
        sty = f.body["locals"][1] if f.body["argc"] >= 1 else None
        if sty is not None and w.W.is_ref(sty):
            s = ref if ref is not None else ctx.ref_to(c)
        else:
            s = c
        return self.exec_fn(ctx, f, [s] + list(args))


PYFN = []
MERGED_STD = ("core::option::Option::<", "core::result::Result::<")


class MissingAnchor(Exception):
    pass


def value_type(v):
    if v.op == "adt":
        return v.a[0]
    return v.ty


def succs(tm):
    k = tm[0]
    if k == "goto":
        return [tm[1]]
    if k == "switch":
        return [x[1] for x in tm[3]] + [tm[4]]
    if k == "drop":
        return [tm[2]] if tm[2] is not None else []
    if k == "call":
        return [tm[4]] if tm[4] is not None else []
    if k == "assert":
        return [tm[4]]
    return []


def rv_operands(rv):
    k = rv[0]
    if k == "use":
        return [rv[1]]
    if k == "repeat":
        return [rv[1]]
    if k in ("ref", "ref*", "rawref"):
        return [("P", rv[1])]
    if k == "cast":
        return [rv[2]]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "un":
        return [rv[2]]
    if k == "discr":
        return [("P", rv[1])]
    if k == "agg":
        return rv[4]
    if k == "len":
        return [("P", rv[1])]
    return []


class Frame:
    def __init__(self, prog, ctx, f, base):
        self.prog, self.ctx, self.f, self.base = prog, ctx, f, base
        self.loops = []          # [head, blocks, mode, count]
        self.tys = f.body["locals"]

    def site(self, span=None):
        return self.f.m["path"]

    # -------------------------------------------------- places
    def resolve(self, p):
        """place -> (cell, path, type)"""
        ctx = self.ctx
        cell, path = self.base + p[0], ()
        ty = self.tys[p[0]]
        W = self.prog.w
        var = 0
        for e in p[1:]:
            if e == "*":
                v = ctx.load(cell, path)
                v = ctx.whnf(v)
                if v.op != "ref":
                    if v is UNDEF:
                        raise Undecided("deref of uninitialised in %s" % self.f.m["path"])
                    # a Box (transparent): stay
                    if W.adt_path(ty) in w.TRANSPARENT:
                        ty = W.types[ty]["args"][0]
                        continue
                    raise Undecided("deref of %s in %s" % (t.show(v)[:80], self.f.m["path"]))
                cell, path = v.a
                ty = W.pointee(ty) if W.is_ref(ty) else ty
                var = 0
                continue
            k = e[0]
            if k == "v":
                var = e[1]
            elif k == "f":
                pth = W.adt_path(ty)
                if pth in BOXY:
                    # Box internals: the pointer to the content is the place itself
                    ty = e[2]
                    continue
                path = path + (("f", var, e[1], e[2]),)
                ty = e[2]
                var = 0
            elif k == "i":
                ix = ctx.load(self.base + e[1], ())
                et = W.elem_ty(ty)
                path = path + (("i", ix, et),)
                ty = et
            elif k == "ci":
                et = W.elem_ty(ty)
                if e[2]:
                    s = ctx.load(cell, path)
                    ix = psub(w.seqlen(s), C(e[1]))
                else:
                    ix = C(e[1])
                path = path + (("i", ix, et),)
                ty = et
            elif k == "ss":
                s = ctx.load(cell, path)
                lo = C(e[1])
                hi = psub(w.seqlen(s), C(e[2])) if e[3] else C(e[2])
                path = path + (("sub", lo, hi),)
            elif k == "o":
                pass
            else:
                raise Undecided("place element %s" % e)
        return cell, path, ty

    def read(self, p):
        if len(p) == 1:
            v = self.ctx.mem[self.base + p[0]]
            return v
        cell, path, ty = self.resolve(p)
        W = self.prog.w
        if W.adt_path(ty) == "core::ptr::non_null::NonNull" and self.boxptr(p):
            return mk("ref", cell, path)
        return self.ctx.load(cell, path)

    def boxptr(self, p):
        ty = self.tys[p[0]]
        W = self.prog.w
        for e in p[1:]:
            if e == "*":
                if W.is_ref(ty):
                    ty = W.pointee(ty)
                continue
            if e[0] == "f":
                if W.adt_path(ty) in BOXY:
                    return True
                ty = e[2]
        return False

    def opnd(self, o):
        if o[0] in ("c", "m"):
            return self.read(o[1])
        return self.prog.modelsmod.const(self.prog, o[1], o[2])

    # -------------------------------------------------- run
    def run(self, bb):
        while True:
            try:
                return self.loop(bb)
            except NeedSummary as e:
                p = e.p
                if p.owner is not self:
                    raise
                # undo the partial iteration and summarise this loop instead
                ctx = self.ctx
                ctx.mem = p.mem
                ctx.facts = p.facts
                del ctx.events[p.nev:]
                del ctx.mpan[p.npan:]
                del ctx.stackd[p.nf:]
                while ctx.pendings and ctx.pendings[-1] is not p:
                    ctx.pendings.pop()
                ctx.pendings.pop()
                L = p.blocks
                while self.loops and self.loops[-1] is not L:
                    self.loops.pop()
                from . import loops
                loops.summarise_mir(self, L)
                L[2] = "final"
                bb = ("resume", L[0])

    def loop(self, bb):
        ctx, blocks, prog = self.ctx, self.f.body["blocks"], self.prog
        heads = self.f.heads
        if isinstance(bb, tuple):
            bb = bb[1]
            fresh = True
        else:
            fresh = False
        while True:
            while self.loops and bb not in self.loops[-1][1]:
                L = self.loops.pop()
                if ctx.pendings and ctx.pendings[-1].blocks is L:
                    ctx.pendings.pop()
                if L[2] == "body":
                    self.loops.append(L)
                    raise LoopExit(bb)
            if bb in heads and not fresh:
                if self.loops and self.loops[-1][0] == bb:
                    L = self.loops[-1]
                    if L[2] == "body":
                        raise BackEdge()
                    if L[2] == "final":
                        raise Infeasible()
                    L[3] += 1
                    if L[3] > 200:
                        raise Undecided("loop in %s unrolled 200 times" % self.f.m["path"])
                    if ctx.pendings and ctx.pendings[-1].blocks is L:
                        # the whole iteration ran without any decision
                        ctx.pendings.pop()
                else:
                    L = [bb, heads[bb], "unroll", 0]
                    self.loops.append(L)
                if L[3] >= prog.unroll:
                    p = Pending()
                    p.mem, p.facts, p.nev, p.npan = dict(ctx.mem), ctx.facts.copy(), len(ctx.events), len(ctx.mpan)
                    p.owner, p.blocks, p.nf = self, L, len(ctx.stackd)
                    ctx.pendings.append(p)
            fresh = False
            b = blocks[bb]
            ctx.steps += 1
            if ctx.steps > ctx.ex.max_steps:
                raise Budget("too many steps")
            for s in b["s"]:
                if s[0] == "=":
                    self.assign(s[1], self.rvalue(s[2], s))
                elif s[0] == "setd":
                    self.setd(s[1], s[2])
            tm = b["t"]
            k = tm[0]
            if k == "goto":
                bb = tm[1]
            elif k == "ret":
                while ctx.pendings and ctx.pendings[-1].owner is self:
                    ctx.pendings.pop()
                return
            elif k == "drop":
                bb = tm[2]
            elif k == "switch":
                bb2 = self.switch(tm)
                self.unpend(b, bb2, tm)
                bb = bb2
            elif k == "call":
                bb = self.docall(tm)
            elif k == "assert":
                v = self.opnd(tm[1])
                ok = v if tm[2] else t.bnot(v)
                msg = tm[3]
                ctx.canpanic(self.f.m["path"], "%s %s" % (msg[0], msg[1] if len(msg) > 1 and isinstance(msg[1], str) else ""), ok)
                bb = tm[4]
            elif k == "unreachable":
                raise Infeasible()
            else:
                raise Undecided("terminator %s" % k)

    def unpend(self, b, taken, tm):
        """a loop-exit test was decided: from here on decisions belong to the body"""
        ctx = self.ctx
        if ctx.pendings:
            p = ctx.pendings[-1]
            if p.owner is self and p.blocks is self.loops[-1]:
                L = p.blocks
                bl = self.f.body["blocks"]
                for s in succs(tm):
                    if s not in L[1] and bl[s]["t"][0] != "unreachable":
                        ctx.pendings.pop()
                        return

    def assign(self, p, v):
        if len(p) == 1:
            self.ctx.mem[self.base + p[0]] = v
            return
        cell, path, ty = self.resolve(p)
        old = self.ctx.cellval(cell)
        if old is UNDEF and path:
            self.ctx.mem[cell] = self.blank(self.ctx.cty.get(cell), path)
        self.ctx.store(cell, path, v)
        h = self.prog.modelsmod.AGGHOOK[0]
        if h and path and path[-1][0] == "f":
            o = self.ctx.load(cell, path[:-1])
            ot = value_type(o)
            if ot is not None and self.prog.w.kind(ot) == "adt" and self.prog.w.adt_path(ot) in h:
                fs = [w.mkfld(o, path[-1][1], i) for i in range(len(self.prog.w.field_tys(ot, path[-1][1])))]
                if not any(x is UNDEF for x in fs):
                    h[self.prog.w.adt_path(ot)](self.prog, self.ctx, self, ot, path[-1][1], fs)

    def blank(self, ty, path):
        W = self.prog.w
        if ty is None:
            raise Undecided("write into an uninitialised cell")
        ty = W.peel(ty)
        p = path[0]
        if W.kind(ty) == "tuple":
            fs = [UNDEF] * len(W.types[ty]["elems"])
            return mk("tup", *fs)
        if W.kind(ty) == "adt" and p[0] == "f":
            if W.adt_path(ty) in ("core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop"):
                return mk("adt", ty, 0, *[UNDEF] * len(W.field_tys(ty, 0)))
            return mk("adt", ty, p[1], *[UNDEF] * len(W.field_tys(ty, p[1])))
        raise Undecided("write into uninitialised %s" % W.types[ty]["s"])

    def setd(self, p, v):
        cell, path, ty = self.resolve(p)
        ty = self.prog.w.peel(ty)
        old = self.ctx.load(cell, path)
        n = len(self.prog.w.field_tys(ty, v))
        if old.op == "adt" and old.a[1] == v:
            return
        self.ctx.store(cell, path, mk("adt", ty, v, *[UNDEF] * n))

    def switch(self, tm):
        ctx, W = self.ctx, self.prog.w
        v = self.opnd(tm[1])
        ty = tm[2]
        arms, other = tm[3], tm[4]
        bl = self.f.body["blocks"]
        if W.kind(ty) == "bool":
            # arms: [[0, bbF]] other -> true
            d = {x: y for x, y in arms}
            tt = d.get(1, other)
            ff = d.get(0, other)
            if tt == ff:
                return tt
            return tt if ctx.branch(v) else ff
        if v.op != "poly":
            v = ctx.whnf(v)
            if v.op != "poly":
                raise Undecided("switch on %s" % t.show(v)[:100])
        v = ctx.facts.norm(v)
        x = t.single_atom(v)
        if x is not None and x.op == "ite":
            # pick the branch of the conditional value first
            v = x.a[1] if ctx.branch(x.a[0]) else x.a[2]
            while True:
                x = t.single_atom(v)
                if x is None or x.op != "ite":
                    break
                v = x.a[1] if ctx.branch(x.a[0]) else x.a[2]
        if is_const(v):
            for val, b in arms:
                if val == v.a[0]:
                    return b
            return other
        groups = {}
        order = []
        vals = set()
        for val, b in arms:
            vals.add(val)
            if bl[b]["t"][0] == "unreachable" and not bl[b]["s"]:
                continue
            if b not in groups:
                groups[b] = []
                order.append(b)
            groups[b].append(val)
        x = t.single_atom(v)
        conds = []
        tg = []
        rest = None
        if x is not None and x.op == "discr" and x.ty is not None:
            vs = W.variants(x.ty)
            byd = {vv["d"]: i for i, vv in enumerate(vs)}
            uni = set(byd)
            left = [dd for dd in uni if dd not in vals]
            isv = lambda val: w.isvar(x.a[0], byd[val]) if val in byd else FALSE
            if left and not (bl[other]["t"][0] == "unreachable" and not bl[other]["s"]):
                if other not in groups:
                    groups[other] = []
                    order.append(other)
                groups[other] += left
        else:
            isv = lambda val: t.ieq(v, C(val))
            rest = True
        for b in order:
            c = t.bor(*[isv(val) for val in groups[b]])
            d = ctx.facts.decide(c)
            if d is True:
                return b
            if d is False:
                continue
            conds.append(c)
            tg.append(b)
        if rest and not (bl[other]["t"][0] == "unreachable" and not bl[other]["s"]):
            c = t.band(*[t.bnot(isv(val)) for val in vals])
            if ctx.facts.decide(c) is not False:
                if other in tg:
                    i = tg.index(other)
                    conds[i] = t.bor(conds[i], c)
                else:
                    conds.append(c)
                    tg.append(other)
        if not tg:
            raise Infeasible()
        return tg[ctx.choose(len(tg), conds)]

    def docall(self, tm):
        ctx, prog = self.ctx, self.prog
        callee, aops, dest, target = tm[1], tm[2], tm[3], tm[4]
        args = [self.opnd(o) for o in aops]
        argtys, destty = tm[6], tm[7]
        site = self.f.m["path"]
        if callee.get("f") is not None:
            r = prog.modelsmod.callsite(prog, ctx, self, callee, args, argtys, destty, site)
        else:
            fv = self.opnd(callee["op"])
            r = prog.call_value(ctx, fv, args, destty)
        if target is None:
            raise Panic(site, "diverging call")
        if r is None:
            raise Undecided("model returned nothing for %s" % prog.w.fns[callee["f"]]["path"])
        self.assign(dest, r)
        return target

    # -------------------------------------------------- rvalues
    def rvalue(self, rv, s):
        k = rv[0]
        ctx, W = self.ctx, self.prog.w
        if k == "use":
            return self.opnd(rv[1])
        if k in ("ref", "ref*", "rawref"):
            p = rv[1]
            mut = rv[2] if len(rv) > 2 else True
            if k != "ref":
                mut = True
            cell, path, ty = self.resolve(p)
            if mut:
                return mk("ref", cell, path)
            if isinstance(cell, T) and not path and cell not in ctx.mem:
                return mk("ref", cell, ())
            v = ctx.load(cell, path)
            if v is UNDEF:
                return mk("ref", cell, path)
            return refval(v)
        if k == "bin":
            return self.binop(rv[1], self.opnd(rv[2]), self.opnd(rv[3]), rv[4])
        if k == "un":
            return self.unop(rv[1], self.opnd(rv[2]), rv[3])
        if k == "cast":
            return self.cast(rv)
        if k == "discr":
            cell, path, ty = self.resolve(rv[1])
            v = ctx.load(cell, path)
            if v.op == "ite":
                c = ctx.facts.decide(v.a[0])
                if c is not None:
                    v = v.a[1] if c else v.a[2]
            if v.op == "ref" or W.kind(W.peel(ty)) != "adt":
                raise Undecided("discriminant of %s" % t.show(v)[:60])
            kv = ctx.facts.var.get(v)
            if kv is not None:
                return C(W.discr_of(v.ty, kv))
            return w.discr(v, v.ty if v.op != "adt" else None)
        if k == "agg":
            kind, ty, variant, ops = rv[1], rv[2], rv[3], rv[4]
            vs = [self.opnd(o) for o in ops]
            if kind == "tuple":
                return mktup(*vs) if vs else UNIT
            if kind == "array":
                return w.mkseq([w.item(x) for x in vs])
            if kind == "closure":
                return mk("closure", self.closure_fid(ty), *vs)
            if kind == "adt":
                r = self.prog.modelsmod.aggregate(self.prog, ctx, self, ty, variant, vs)
                if r is not None:
                    return r
                return mkadt(ty, variant, *vs)
            # raw pointer aggregates: (data pointer, metadata)
            return vs[0]
        if k == "repeat":
            n = rv[2] if len(rv) > 2 else None
            v = self.opnd(rv[1])
            if isinstance(n, int) and n <= 64:
                return w.mkseq([w.item(v)] * n)
            raise Undecided("array repeat")
        if k == "len":
            cell, path, ty = self.resolve(rv[1])
            return w.seqlen(ctx.load(cell, path))
        raise Undecided("rvalue %s" % k)

    def closure_fid(self, ty):
        x = self.prog.w.types[ty]
        return x["f"]

    def clamp(self, p, ty):
        """p as a value of integer type ty, wrapping"""
        lo, hi = self.prog.w.irange(ty)
        b = self.ctx.facts.bounds(p)
        if lo <= b[0] and b[1] <= hi:
            return p
        return wrapped(self.ctx, p, lo, hi, b, ty)

    def binop(self, op, a, b, ty):
        W = self.prog.w
        ctx = self.ctx
        tk = W.kind(ty)
        if tk == "bool" or (a.op != "poly" and tk not in ("float",)):
            if op in ("Eq", "Ne") and tk != "bool":
                e = w.mkeq(a, b)
                return e if op == "Eq" else t.bnot(e)
            if op == "BitAnd":
                return t.band(a, b)
            if op == "BitOr":
                return t.bor(a, b)
            if op == "Eq":
                return boolxor(a, t.bnot(b))
            if op in ("BitXor", "Ne"):
                return boolxor(a, b)
            raise Undecided("%s on %s" % (op, W.types[ty]["s"]))
        if tk == "float":
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return t.fapp("f" + op, a, b)
            return t.fapp("f" + op, a, b, ty)
        base = op
        if op.endswith("WithOverflow"):
            base = op[:-len("WithOverflow")]
        if base.endswith("Unchecked"):
            base = base[:-len("Unchecked")]
        if base in ("Add", "Sub", "Mul"):
            r = padd(a, b) if base == "Add" else psub(a, b) if base == "Sub" else t.pmul(a, b)
            lo, hi = W.irange(ty)
            if op.endswith("WithOverflow"):
                bd = ctx.facts.bounds(r)
                over = t.bor(t.lt(r, C(lo)) if bd[0] < lo else FALSE, t.lt(C(hi), r) if bd[1] > hi else FALSE)
                if over is not FALSE and not any(b["t"][0] == "assert" for b in self.f.body["blocks"]):
                    # unchecked: the library's overflowing operations go on with the wrapped value
                    return mk("tup", self.clamp(r, ty), over)
                return mk("tup", r, over)
            return self.clamp(r, ty)
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            if op == "Lt":
                return t.lt(a, b)
            if op == "Le":
                return t.le(a, b)
            if op == "Gt":
                return t.lt(b, a)
            if op == "Ge":
                return t.le(b, a)
            e = t.ieq(a, b)
            return e if op == "Eq" else t.bnot(e)
        if op == "Cmp":
            return self.prog.modelsmod.ordering(ctx, a, b)
        signed = W.types[ty].get("signed", False)
        if op in ("Div", "Rem"):
            q = self.divide(a, b, signed)
            if op == "Div":
                return q
            return psub(a, t.pmul(q, b))
        if op in ("Shl", "ShlUnchecked"):
            return self.clamp(t.pmul(a, t.pow2(b)), ty)
        if op in ("Shr", "ShrUnchecked"):
            return t.fdiv(a, t.pow2(b))
        if op in ("BitAnd", "BitOr", "BitXor"):
            if is_const(a) and is_const(b):
                x, y = a.a[0], b.a[0]
                return C(x & y if op == "BitAnd" else x | y if op == "BitOr" else x ^ y)
            if op in ("BitOr", "BitXor"):
                for x, y in ((a, b), (b, a)):
                    # no bit in common: the sum
                    lo, hi = ctx.facts.bounds(x)
                    if lo >= 0 and hi is not None and hi < 1 << 128:
                        n = 1 << int(hi).bit_length()
                        if ctx.facts.bounds(y)[0] >= 0 and is_multiple(y, n):
                            return padd(x, y)
            if op == "BitAnd":
                for x, y in ((a, b), (b, a)):
                    if is_const(y) and y.a[0] > 0 and (y.a[0] & (y.a[0] + 1)) == 0:
                        m = y.a[0] + 1
                        return psub(x, t.pscale(t.fdiv(x, C(m)), m))
                    if is_const(y) and y.a[0] == 0:
                        return t.ZERO
                    if is_const(y) and y.a[0] > 0 and ctx.facts.bounds(x)[0] >= 0:
                        # one run of bits lo..hi
                        c = y.a[0]
                        lo = (c & -c).bit_length() - 1
                        n = c >> lo
                        if n & (n + 1) == 0:
                            r = t.pscale(t.fdiv(x, C(1 << lo)), 1 << lo)
                            hi = c.bit_length()
                            top = ctx.facts.bounds(x)[1]
                            if top is None or top >= 1 << hi:
                                r = psub(r, t.pscale(t.fdiv(x, C(1 << hi)), 1 << hi))
                            return r
            return A(mk("app", op, a, b, ty=ty))
        raise Undecided("binary %s" % op)

    def divide(self, a, b, signed):
        f = self.ctx.facts
        if not signed:
            return t.fdiv(a, b)
        ba, bb = f.bounds(a), f.bounds(b)
        if bb[0] > 0:
            if ba[0] >= 0:
                return t.fdiv(a, b)
            if ba[1] <= 0:
                return t.pneg(t.fdiv(t.pneg(a), b))
        return t.tdiv(a, b)

    def unop(self, op, a, ty):
        W = self.prog.w
        if op == "Not":
            if W.kind(ty) == "bool" or a.op != "poly":
                return t.bnot(a)
            lo, hi = W.irange(ty)
            if lo == 0:
                return psub(C(hi), a)
            return psub(C(-1), a)
        if op == "Neg":
            if W.kind(ty) == "float":
                return mk("app", "fNeg", a, ty=ty)
            return self.clamp(t.pneg(a), ty)
        if op == "PtrMetadata":
            v = self.ctx.deref(a)
            return w.seqlen(v)
        raise Undecided("unary %s" % op)

    def cast(self, rv):
        kind, o, fr, to = rv[1], rv[2], rv[3], rv[4]
        W = self.prog.w
        if kind == "BoxDerefTransmute" and o[0] in ("c", "m"):
            cell, path, ty = self.resolve(o[1])
            return mk("ref", cell, path)
        v = self.opnd(o)
        if kind == "IntToInt":
            if W.kind(fr) == "bool":
                return t.ite(v, t.ONE, t.ZERO) if v not in (TRUE, FALSE) else (t.ONE if v is TRUE else t.ZERO)
            if v.op != "poly":
                v = self.ctx.whnf(v)
                if v.op == "adt":
                    return C(W.discr_of(v.a[0], v.a[1]))
                if v.op != "poly":
                    raise Undecided("cast of %s" % t.show(v)[:60])
            return self.clamp(v, to)
        if kind == "IntToFloat":
            return t.i2f(v, to)
        if kind == "FloatToInt":
            p = self.ctx.facts.fint(v)
            if p is not None:
                lo, hi = self.ctx.facts.bounds(p, 2)
                r = W.irange(to)
                if r[0] <= lo and hi <= r[1]:
                    return p
            return t.f2i(v, to, W)
        if kind == "FloatToFloat":
            return mk("app", "f2f", v, ty=to)
        if kind.startswith("PointerCoercion"):
            return v
        if kind in ("Transmute", "PtrToPtr", "BoxDerefTransmute", "FnPtrToPtr", "Subtype"):
            if kind == "Transmute" and W.is_int(fr) and W.is_int(to):
                return self.clamp(v, to)
            return v
        raise Undecided("cast %s" % kind)


def boolxor(a, b):
    return t.bor(t.band(a, t.bnot(b)), t.band(t.bnot(a), b)) if a not in (TRUE, FALSE) and b not in (TRUE, FALSE) else (
        (t.bnot(b) if a is TRUE else b) if a in (TRUE, FALSE) else (t.bnot(a) if b is TRUE else a))


BOXY = {"alloc::boxed::Box", "alloc::boxed::BoxRaw", "core::ptr::unique::Unique"}
