"""What is known on one path: variants, linear inequalities, boolean atoms.

A small relational domain: every inequality is stored under its direction (the
linear form without constant) as an interval; entailment combines intervals,
stored directions (bounded elimination) and the axioms of derived atoms
(division, min, max).  Before something is reported, all linear facts of the path are
taken together (lp.py), by cases over which operand a min or max takes and over
the values of an integer that has few left."""
import math
import time
from fractions import Fraction
from math import gcd
from . import terms as t
from . import world as w
from .terms import has_bv, T, mk, A, C, is_const, psub, padd, pscale, pneg

INF = w.INF


DEADLINE = None     # of the case splits before something is reported


class Infeasible(Exception):
    pass


def direction(p):
    """p = k*d + c with d primitive, first coefficient positive; (d, k, c)"""
    g = 0
    for _, c in p.a[1]:
        g = gcd(g, c)
    if p.a[1][0][1] < 0:
        g = -g
    return mk("poly", 0, tuple((m, c // g) for m, c in p.a[1])), g, p.a[0]


def _leaves(x, up):
    """values of a conditional / maximum, nested ones included"""
    args = list(x.a if x.op != "ite" else x.a[1:])
    out, seen, n = [], set(), 0
    while args:
        q = args.pop()
        if q in seen:
            continue
        seen.add(q)
        y = t.single_atom(q) if q.op == "poly" else q
        if y is not None and n < 24 and (y.op == "ite" or y.op == ("max" if up else "min")) and (x.op == "ite" or x.op == ("max" if up else "min")):
            n += 1
            args.extend(y.a if y.op != "ite" else y.a[1:])
        else:
            out.append(q)
    return out


class Facts:
    def __init__(self, o=None):
        if o is None:
            self.var, self.excl, self.dirs, self.bools, self.ors, self.sub = {}, {}, {}, {}, [], {}
            self.ineq = []
            self.cond = []
        else:
            self.var, self.excl, self.dirs = dict(o.var), dict(o.excl), dict(o.dirs)
            self.bools, self.ors, self.sub = dict(o.bools), list(o.ors), dict(o.sub)
            self.ineq = list(o.ineq)
            self.cond = list(o.cond)
        self._memo = {}
        self._bm = {}
        self._stk = {}
        self._cut = 1 << 30
        self._nstk = {}
        self._ncut = 1 << 30

    def copy(self):
        return Facts(self)

    def touch(self):
        self._memo = {}
        self._bm = {}

    # ------------------------------------------------------------ bounds
    def arange(self, x, d):
        lo, hi = w.arange(x)
        o = x.op
        if o in ("max", "min") and d > 0:
            rs = [self.bounds(p, d - 1) for p in x.a]
            f = max if o == "max" else min
            lo2, hi2 = f(r[0] for r in rs), f(r[1] for r in rs)
            lo, hi = max(lo, lo2), min(hi, hi2)
        elif o == "ite" and d > 0:
            rs = [self.bounds(p, d - 1) for p in x.a[1:]]
            lo, hi = max(lo, min(r[0] for r in rs)), min(hi, max(r[1] for r in rs))
        elif o in ("fdiv", "tdiv") and d > 0:
            a, b = self.bounds(x.a[0], d - 1), self.bounds(x.a[1], d - 1)
            if b[0] >= 0 and b[1] > 0:
                cands = []
                for n in a:
                    for q in (max(b[0], 1), b[1]):
                        if o == "fdiv":
                            cands.append(n // q)
                        else:
                            r = abs(n) // q
                            cands.append(r if n >= 0 else -r)
                if a[0] <= 0 <= a[1] or b[0] == 0:
                    cands.append(0)
                lo, hi = max(lo, min(cands)), min(hi, max(cands))
        elif o == "pow2" and d > 0:
            a = self.bounds(x.a[0], d - 1)
            if 0 <= a[0]:
                lo = max(lo, 1 << min(a[0], 200))
                hi = min(hi, 1 << min(a[1], 200))
        elif o == "app" and x.a[0] == "f2i":
            r = self.finterval(x.a[1], 4)
            if r is not None:
                lo, hi = max(lo, r[0]), min(hi, r[1])
        k = self.dirs.get(A(x))
        if k:
            lo, hi = max(lo, k[0]), min(hi, k[1])
        return lo, hi

    def finterval(self, x, d):
        """integer range of a float-to-int conversion of x, from known float comparisons"""
        r = self.frange(x, d)
        if r is None:
            return None
        lo, hi, nan = r
        if lo == -float("inf") or hi == float("inf"):
            return None
        a, b = int(lo), int(hi)
        if nan:
            a, b = min(a, 0), max(b, 0)
        return a, b

    def frange(self, x, d):
        if x.op == "fconst":
            v = fbits(x)
            return v, v, v != v
        lo, hi, nan = -float("inf"), float("inf"), True
        k = self.bools.get(mk("app", "fNe", x, x))
        if k is False or self.bools.get(mk("app", "fEq", x, x)) is True or self.bools.get(mk("app", "is_nan", x)) is False:
            nan = False
        for b, v in self.bools.items():
            if b.op != "app" or b.a[0] not in ("fLt", "fLe", "fGt", "fGe"):
                continue
            f, p, q = b.a
            if f in ("fGt", "fGe"):
                f, p, q = ("fLt" if f == "fGt" else "fLe"), q, p
            if p is x and q.op == "fconst":
                c = fbits(q)
                if v:
                    nan, hi = False, min(hi, c)
                elif not nan:
                    lo = max(lo, c)
            elif q is x and p.op == "fconst":
                c = fbits(p)
                if v:
                    nan, lo = False, max(lo, c)
                elif not nan:
                    hi = min(hi, c)
        if x.op == "app" and x.a[0] in ("fMul", "fAdd", "fSub") and d > 0:
            a, b = self.frange(x.a[1], d - 1), self.frange(x.a[2], d - 1)
            if a and b and abs(a[0]) < 1e300 and abs(a[1]) < 1e300 and abs(b[0]) < 1e300 and abs(b[1]) < 1e300:
                op = x.a[0]
                cs = [p * q if op == "fMul" else p + q if op == "fAdd" else p - q for p in a[:2] for q in b[:2]]
                w32 = x.ty is not None and w.W.types[x.ty]["s"] == "f32"
                cs = [f32(c) if w32 else c for c in cs]
                lo, hi = max(lo, min(cs)), min(hi, max(cs))
                nan = a[2] or b[2]
        if x.op == "app" and d > 0 and x.ty is not None and w.W.types[x.ty]["s"] == "f32":
            if x.a[0] == "i2f":                         # rounding is monotonic
                a = self.bounds(x.a[1], 2)
                if -INF < a[0] and a[1] < INF:
                    lo, hi, nan = max(lo, f32(float(a[0]))), min(hi, f32(float(a[1]))), False
            elif x.a[0] == "fDiv" and x.a[2].op == "fconst" and fbits(x.a[2]) not in (0.0,) and abs(fbits(x.a[2])) < 1e30:
                a, k = self.frange(x.a[1], d - 1), fbits(x.a[2])
                if abs(a[0]) < 1e30 and abs(a[1]) < 1e30:
                    cs = [f32(a[0] / k), f32(a[1] / k)]
                    lo, hi, nan = max(lo, min(cs)), min(hi, max(cs)), a[2]
        if x.op == "app" and x.a[0] == "fRound" and d > 0:
            a = self.frange(x.a[1], d - 1)
            if abs(a[0]) < 1e9 and abs(a[1]) < 1e9:
                r = lambda v: math.copysign(math.floor(abs(v) + 0.5), v)
                lo, hi, nan = max(lo, r(a[0])), min(hi, r(a[1])), a[2]
        return lo, hi, nan

    def faffine(self, x, d=8):
        """single-precision x as (integer polynomial, scale, offset, error): |x - (scale * poly + offset)| <= error; None when not of this shape"""
        if d == 0 or x.op != "app" or x.ty is None or w.W.types[x.ty]["s"] != "f32":
            return None
        F, u = Fraction, Fraction(1, 1 << 24)
        o = x.a[0]
        if o == "i2f":
            lo, hi = self.bounds(x.a[1], 2)
            if max(abs(lo), abs(hi)) <= 1 << 24:
                return x.a[1], F(1), F(0), F(0)
            return None
        if o in ("fMul", "fDiv", "fAdd", "fSub"):
            a, b, k = x.a[1], x.a[2], None
            if b.op == "fconst":
                k = fbits(b)
            elif a.op == "fconst" and o in ("fMul", "fAdd"):
                a, k = b, fbits(x.a[1])
            if k is None or not 1e-9 < abs(k) < 1e9:
                return None
            r = self.faffine(a, d - 1)
            if r is None:
                return None
            p, s, c, e = r
            k = F(k)
            if o in ("fMul", "fDiv"):
                k = k if o == "fMul" else 1 / k
                s, c, e = s * k, c * k, e * abs(k)
            else:
                c = c + (k if o == "fAdd" else -k)
            lo, hi = self.bounds(p, 2)
            m = abs(s) * max(abs(lo), abs(hi)) + abs(c) + e
            if m > F(10) ** 30:
                return None
            # a result below the normal range is off by at most the smallest normal number
            return p, s, c, e + m * u + F(1, 1 << 126)
        return None

    def fint(self, x):
        """integer polynomial equal to the conversion of x to an integer, when the rounding errors cannot reach the next integer"""
        rnd = x.op == "app" and x.a[0] == "fRound"
        r = self.faffine(x.a[1] if rnd else x)
        if r is None or r[1] != 1:
            return None
        p, _, c, e = r
        if rnd:
            return p if abs(c) + e < Fraction(1, 2) else None
        if e == 0 and c == 0:
            return p
        lo, hi = self.bounds(p, 2)
        return p if lo >= 0 and c - e >= 0 and c + e < 1 else None

    def mono(self, m, d):
        lo, hi = self.arange(m[0], d)
        for x in m[1:]:
            l2, h2 = self.arange(x, d)
            c = [lo * l2, lo * h2, hi * l2, hi * h2]
            lo, hi = min(c), max(c)
        if len(m) > 1:
            k = self.dirs.get(mk("poly", 0, ((m, 1),)))
            if k:
                lo, hi = max(lo, k[0]), min(hi, k[1])
        return max(lo, -INF), min(hi, INF)

    def bounds(self, p, depth=3):
        if is_const(p):
            return p.a[0], p.a[0]
        key = (p.id, depth)
        r = self._bm.get(key)
        if r is None:
            r = (-self._ub(pneg(p), depth), self._ub(p, depth))
            if self._cut > len(self._stk):
                self._bm[key] = r
        return r

    def ub(self, p, depth=3):
        return self.bounds(p, depth)[1]

    def _ub(self, p, depth):
        if is_const(p):
            return p.a[0]
        key = ("u", p.id, depth)
        r = self._bm.get(key)
        if r is not None:
            return r
        if key in self._stk:
            # in progress: a result that depends on this is kept only by the outer query
            self._cut = min(self._cut, self._stk[key])
            return INF
        pos = len(self._stk)
        self._stk[key] = pos
        cut, self._cut = self._cut, 1 << 30
        try:
            hi = self._ub1(p, depth)
        finally:
            del self._stk[key]
        if self._cut >= pos:
            self._bm[key] = hi
            self._cut = cut
        else:
            self._cut = min(cut, self._cut)
        return hi

    def _ub1(self, p, depth):
        hi = p.a[0]
        for m, c in p.a[1]:
            lo2, hi2 = self.mono(m, min(depth, 2))
            v = c * hi2 if c > 0 else c * lo2
            hi += v
            if hi >= INF // 2:
                hi = INF
                break
        hi = min(hi, INF)
        d, g, c0 = direction(p)
        k = self.dirs.get(d)
        if k:
            v = g * (k[1] if g > 0 else k[0]) + c0
            hi = min(hi, v)
        if depth > 0 and len(self._bm) < 60000:
            # expand min/max/ite atoms occurring linearly
            for m, c in p.a[1]:
                if len(m) == 1 and m[0].op in ("max", "min", "ite"):
                    x = m[0]
                    args = _leaves(x, c > 0)
                    vs = [self._ub(padd(psub(p, pscale(A(x), c)), pscale(q, c)), depth - 1) for q in args]
                    if x.op == "ite" or (x.op == "max") == (c > 0):
                        v = max(vs)
                    else:
                        v = min(vs)
                    hi = min(hi, v)
            # eliminate with stored inequalities and axioms
            mons = {m: c for m, c in p.a[1]}
            for q in self._relevant(p):
                # q <= 0 ; try p <= p - l*q for l >= 0 removing one common monomial
                for m, cq in q.a[1]:
                    c = mons.get(m)
                    if c is None or (c > 0) != (cq > 0):
                        continue
                    # p*cq' - q*c'  scaled
                    g = gcd(abs(c), abs(cq))
                    a, b = abs(cq) // g, abs(c) // g
                    r = psub(pscale(p, a), pscale(q, b))
                    if len(r.a[1]) > len(p.a[1]) + 1:
                        continue
                    v = self._ub(r, depth - 1)
                    if v < INF:
                        hi = min(hi, v // a)
        return hi

    def _relevant(self, p):
        out = []
        ats = set()
        for m, _ in p.a[1]:
            ats.add(m)
        for q in self.ineq:
            for m, _ in q.a[1]:
                if m in ats:
                    out.append(q)
                    break
        for m, _ in p.a[1]:
            for x in m:
                for q in self.axioms(x):
                    out.append(q)
        return out

    def axioms(self, x):
        o = x.op
        if o == "fdiv":
            a, q = x.a
            if is_const(q):
                k = q.a[0]
                return [psub(pscale(A(x), k), a), psub(psub(a, pscale(A(x), k)), C(k - 1))]
            if self.bounds(q, 1)[0] > 0:
                qa = t.pmul(q, A(x))
                r = [psub(qa, a), padd(psub(psub(a, qa), q), t.ONE)]
                if self.bounds(a, 1)[0] >= 0:
                    r.append(psub(A(x), a))
                return r
        elif o == "max":
            return [psub(q, A(x)) for q in x.a]
        elif o == "min":
            return [psub(A(x), q) for q in x.a]
        elif o == "firstidx":
            if x.a[0].op == "poly":
                return [psub(A(x), x.a[0])]
        elif o == "st.upper":
            return [psub(A(x), w.seqlen(x.a[0]))]
        return AXIOMS(self, x)

    # ------------------------------------------------------------ decide
    def canon(self, b):
        if b.op == "eq0":
            p = b.a[0]
            if len(p.a[1]) == 1:
                m, c = p.a[1][0]
                if len(m) == 1 and m[0].op == "discr" and abs(c) == 1 and m[0].ty is not None:
                    v = -p.a[0] * c
                    for i, vv in enumerate(w.W.variants(m[0].ty)):
                        if vv["d"] == v:
                            return w.isvar(m[0].a[0], i)
                    return t.FALSE
        return b

    def decide(self, b):
        o = b.op
        if o == "true":
            return True
        if o == "false":
            return False
        b = self.canon(b)
        o = b.op
        if o == "true":
            return True
        if o == "false":
            return False
        k = self.bools.get(b)
        if k is not None:
            return k
        if o == "not":
            r = self.decide(b.a[0])
            return None if r is None else not r
        if o == "and":
            r = True
            for x in b.a:
                k = self.decide(x)
                if k is False:
                    return False
                if k is None:
                    r = None
            return r
        if o == "or":
            r = False
            for x in b.a:
                k = self.decide(x)
                if k is True:
                    return True
                if k is None:
                    r = None
            return r
        if o == "app" and b.a[0] in ("fLt", "fLe", "fGt", "fGe"):
            f, p, q = b.a
            if f in ("fGt", "fGe"):
                f, p, q = ("fLt" if f == "fGt" else "fLe"), q, p
            x, y = self.frange(p, 4), self.frange(q, 4)
            if not x[2] and not y[2]:
                if x[1] < y[0] or f == "fLe" and x[1] <= y[0]:
                    return True
                if y[1] < x[0] or f == "fLt" and y[1] <= x[0]:
                    return False
        if o == "app" and b.a[0] == "is_nan" and b.a[1].op == "app" and not self.frange(b.a[1], 4)[2]:
            return False
        if o == "le0":
            lo, hi = self.bounds(b.a[0])
            if hi <= 0:
                return True
            if lo > 0:
                return False
            b2 = self.normb(b)
            if b2 is not b:
                return self.decide(b2)
            return None
        if o == "eq0":
            lo, hi = self.bounds(b.a[0])
            if lo > 0 or hi < 0:
                return False
            if lo == hi == 0:
                return True
            b2 = self.normb(b)
            if b2 is not b:
                return self.decide(b2)
            return None
        if o == "isvar":
            x, v = b.a
            k = self.var.get(x)
            if k is not None:
                return k == v
            if v in self.excl.get(x, ()):
                return False
            b2 = self.normb(b)
            if b2 is not b:
                return self.decide(b2)
            return None
        if o == "ite":
            c = self.decide(b.a[0])
            if c is not None:
                return self.decide(b.a[1] if c else b.a[2])
            x, y = self.decide(b.a[1]), self.decide(b.a[2])
            return x if x == y else None
        if o == "eq":
            x, y = b.a
            vx, vy = self.var.get(x), self.var.get(y)
            if vx is not None and vy is not None and vx != vy:
                return False
            if (vx is not None and vx in self.excl.get(y, ())) or (vy is not None and vy in self.excl.get(x, ())):
                return False
        b2 = self.normb(b)
        if b2 is not b:
            return self.decide(b2)
        return None

    def normb(self, b):
        return self.norm(b)

    # ------------------------------------------------------------ assume
    def assume(self, b, val=True):
        d = self.decide(b)
        if d is not None:
            if d != val:
                raise Infeasible()
            # keep exact information for `bools` below anyway
            return
        b = self.canon(b)
        o = b.op
        self.touch()
        if o == "not":
            return self.assume(b.a[0], not val)
        if o == "and" and val:
            for x in b.a:
                self.assume(x, True)
            return
        if o == "or" and not val:
            for x in b.a:
                self.assume(x, False)
            return
        if o in ("and", "or"):
            if o == "and":
                b = t.bnot(b)
                val = not val
                if b.op != "or":
                    return self.assume(b, val)
            self.ors.append(b)
            self._units()
            return
        if o == "le0":
            p = b.a[0]
            if not val:
                p = psub(t.ONE, p)
            self._le(p)
            self._neqs(p)
            self._units()
            return
        if o == "eq0":
            p = b.a[0]
            if val:
                self._le(p)
                self._le(pneg(p))
                self._solve(p)
                self._neqs(p)
            else:
                self.bools[b] = False
                lo, hi = self.bounds(p)
                if lo == 0:
                    self._le(psub(t.ONE, p))
                elif hi == 0:
                    self._le(padd(p, t.ONE))
            self._units()
            return
        if o == "isvar":
            x, v = b.a
            if val:
                self._setvar(x, v)
            else:
                e = set(self.excl.get(x, ())) | {v}
                self.excl[x] = frozenset(e)
                if x.ty is not None and w.W.kind(x.ty) == "adt":
                    vs = w.W.variants(x.ty)
                    left = [i for i in range(len(vs)) if i not in e]
                    if not left:
                        raise Infeasible()
                    if len(left) == 1:
                        self._setvar(x, left[0])
            self._units()
            return
        self.bools[b] = val
        if o == "eq" and val:
            x, y = b.a
            vx, vy = self.var.get(x), self.var.get(y)
            if vx is not None and vy is None:
                self._setvar(y, vx)
            elif vy is not None and vx is None:
                self._setvar(x, vy)
            if vx is None and vy is None or True:
                # orient: replace the younger term by the older
                if x.id < y.id:
                    x, y = y, x
                if not t.contains(y, x):
                    self.sub[x] = y
        self._units()

    def _neqs(self, p):
        """disequalities that share an unknown with p: tighten the bound they touch"""
        if p.op != "poly" or len(p.a[1]) > 4:
            return
        ms = {m for m, _ in p.a[1]}
        for b, v in list(self.bools.items()):
            if v is False and b.op == "eq0" and len(b.a[0].a[1]) <= 3 and any(m in ms for m, _ in b.a[0].a[1]):
                q = b.a[0]
                lo, hi = self.bounds(q, 2)
                if lo == hi == 0:
                    raise Infeasible()
                if lo == 0:
                    self._le(psub(t.ONE, q))
                elif hi == 0:
                    self._le(padd(q, t.ONE))

    def _setvar(self, x, v):
        if self.var.get(x, v) != v or v in self.excl.get(x, ()):
            raise Infeasible()
        self.var[x] = v
        self.touch()
        if x.ty is not None and w.W.kind(x.ty) == "adt" and w.W.is_enum(x.ty):
            dv = mk("discr", x, ty=x.ty)
            self._le(psub(A(dv), C(w.W.discr_of(x.ty, v))))
            self._le(psub(C(w.W.discr_of(x.ty, v)), A(dv)))

    def _le(self, p):
        """assume p <= 0"""
        if is_const(p):
            if p.a[0] > 0:
                raise Infeasible()
            return
        if _has_ite(p) and p not in self.cond:
            self.cond.append(p)
        d, g, c0 = direction(p)
        k = self.dirs.get(d)
        if k is None and len(d.a[1]) == 1 and len(d.a[1][0][0]) == 1 and d.a[1][0][1] == 1:
            k = w.arange(d.a[1][0][0][0])
        lo, hi = k or (-INF, INF)
        # g*d + c0 <= 0
        if g > 0:
            hi = min(hi, (-c0) // g)
        else:
            lo = max(lo, _cdiv(c0, -g))
        if lo > hi:
            raise Infeasible()
        self.dirs[d] = (lo, hi)
        if len(d.a[1]) > 1 or len(d.a[1][0][0]) > 1:
            if g > 0:
                q = psub(d, C(hi))
            else:
                q = psub(C(lo), d)
            self.ineq = [x for x in self.ineq if not _same(x, q)] + [q]
        if lo == hi and lo > -INF:
            self._solve(psub(d, C(lo)))
        self.touch()
        self._prop(d)

    def _prop(self, d0):
        """interval propagation (with integer rounding) between linear forms and their atoms"""
        work, n = [d0], 0
        while work and n < 60:
            d = work.pop()
            n += 1
            k = self.dirs.get(d)
            if k is None:
                continue
            ms = d.a[1]
            if len(ms) == 1:
                lo, hi = k
                for _ in range(16):
                    if lo > -INF and self.bools.get(t.ieq(d, C(lo))) is False:
                        lo += 1
                    elif hi < INF and self.bools.get(t.ieq(d, C(hi))) is False:
                        hi -= 1
                    else:
                        break
                if lo > hi:
                    raise Infeasible()
                if (lo, hi) != k:
                    self.dirs[d] = (lo, hi)
                    self.touch()
                    if lo == hi:
                        self._solve(psub(d, C(lo)))
                if len(ms[0][0]) == 1:
                    for q in self.ineq:
                        if len(q.a[1]) <= 4 and any(m == ms[0][0] for m, _ in q.a[1]):
                            e = direction(q)[0]
                            if e not in work:
                                work.append(e)
                    x = ms[0][0][0]
                    if x.op in ("min", "max"):
                        a, b = self.dirs[d]
                        for y in x.a:
                            if not is_const(y):
                                if x.op == "min" and a > -INF and self.bounds(y, 1)[0] < a:
                                    self._le(psub(C(a), y))
                                elif x.op == "max" and b < INF and self.bounds(y, 1)[1] > b:
                                    self._le(psub(y, C(b)))
                        left = [y for y in x.a if (self.bounds(y, 1)[0] <= b if x.op == "min" else self.bounds(y, 1)[1] >= a)]
                        if not left:
                            raise Infeasible()
                        if len(left) == 1:
                            y = left[0]
                            if not is_const(y):
                                if x.op == "min" and b < INF and self.bounds(y, 1)[1] > b:
                                    self._le(psub(y, C(b)))
                                elif x.op == "max" and a > -INF and self.bounds(y, 1)[0] < a:
                                    self._le(psub(C(a), y))
                            e = psub(A(x), y)
                            if not is_const(e) and self.dirs.get(direction(e)[0], (0, 1)) not in ((0, 0),):
                                self._le(e)
                                self._le(pneg(e))
                    if x.op == "fdiv" and is_const(x.a[1]):
                        for q in self.axioms(x):
                            e, g, _ = direction(q)
                            if e.a[1][0][0] != ms[0][0] or len(e.a[1]) > 1:
                                self._le(q)
                continue
            if len(ms) > 4:
                continue
            rs = [self.mono(m, 1) for m, _ in ms]
            for i, (m, c) in enumerate(ms):
                if len(m) != 1:
                    continue
                rlo = rhi = 0
                for j, (_, cj) in enumerate(ms):
                    if j != i:
                        a, b = rs[j]
                        if cj < 0:
                            a, b = b, a
                        rlo = -INF if a in (INF, -INF) or rlo == -INF else rlo + cj * a
                        rhi = INF if b in (INF, -INF) or rhi == INF else rhi + cj * b
                # c*m in [lo - rhi, hi - rlo]
                l2 = -INF if k[0] <= -INF or rhi >= INF else k[0] - rhi
                h2 = INF if k[1] >= INF or rlo <= -INF else k[1] - rlo
                if c > 0:
                    nl = -INF if l2 <= -INF else _cdiv(l2, c)
                    nh = INF if h2 >= INF else h2 // c
                else:
                    nl = -INF if h2 >= INF else _cdiv(-h2, -c)
                    nh = INF if l2 <= -INF else (-l2) // (-c)
                a, b = rs[i]
                if nl > a or nh < b:
                    nl, nh = max(nl, a), min(nh, b)
                    if nl > nh:
                        raise Infeasible()
                    e = A(m[0])
                    self.dirs[e] = (nl, nh)
                    rs[i] = (nl, nh)
                    self.touch()
                    if nl == nh and m[0] not in self.sub:
                        self._solve(psub(e, C(nl)))
                    if e not in work:
                        work.append(e)

    def settled(self, b):
        """decide(b), and where that leaves an inequality open, by all linear facts together"""
        k = self.decide(b)
        if k is not None:
            return k
        b = self.norm(b)
        from . import lp
        if b.op in ("and", "or"):
            ks = [self.settled(x) for x in b.a]
            if b.op == "and":
                return True if all(k is True for k in ks) else False if False in ks else None
            return False if all(k is False for k in ks) else True if True in ks else None
        if b.op == "not":
            k = self.settled(b.a[0])
            return None if k is None else not k
        if b.op == "le0":
            if lp.largest(self, b.a[0]) <= 0:
                return True
            if lp.largest(self, psub(t.ONE, b.a[0])) <= 0:
                return False
        if b.op == "eq0":
            if lp.largest(self, b.a[0]) <= 0 and lp.largest(self, pneg(b.a[0])) <= 0:
                return True
        return None

    def implied(self, b, n=5):
        """settled(b) is True, also by cases over which operand of a min or max is the one"""
        if DEADLINE and time.monotonic() > DEADLINE:
            return False
        try:
            if self.settled(b) is True:
                return True
            b = self.norm(b)
            c = extreme(b, self) if n else None
        except Infeasible:
            return True
        if c is None:
            return False
        for x in (c, t.bnot(c)):
            f = self.copy()
            try:
                f.assume(x)
                f.recheck()
            except Infeasible:
                continue
            if not f.implied(b, n - 1):
                return False
        return True

    def recheck(self):
        """every known fact once more under the equations known now; Infeasible where one is contradicted"""
        for d, k in list(self.dirs.items()):
            q = self.norm(d)
            if q is d:
                continue
            if is_const(q):
                if not k[0] <= q.a[0] <= k[1]:
                    raise Infeasible()
            else:
                self._le2(q, k)
        for b, v in list(self.bools.items()):
            nb = self.norm(b)
            if nb is b:
                continue
            k = self.decide(nb)
            if k is not None and k != v:
                raise Infeasible()
            if k is None and nb.op in ("eq0", "le0"):
                self.assume(nb, v)

    def refuted(self, n=8):
        """do the facts exclude every value of some integer that has few left?"""
        xs = {}
        for d in self.dirs:
            for m, _ in d.a[1]:
                for x in m:
                    if x.op != "ite" and x not in self.sub:
                        xs[x] = 1
        some = []
        for x in xs:
            lo, hi = self.bounds(A(x), 2)
            if 0 < hi - lo < n and lo > -INF:
                some.append((hi - lo, x.id, x, lo, hi))
        for _, _, x, lo, hi in sorted(some, key=lambda y: y[:2])[:4]:
            for v in range(lo, hi + 1):
                g = self.copy()
                try:
                    g.assume(t.eq0(psub(A(x), C(v))))
                    for _ in range(2):
                        g.recheck()
                except Infeasible:
                    continue
                break
            else:
                return True
        return False

    def same_int(self, a, b):
        from . import lp
        a, b = self.norm(a), self.norm(b)
        if a.op != "poly" or b.op != "poly":
            return False
        p = psub(a, b)
        return is_const(p) and p.a[0] == 0 or not is_const(p) and lp.largest(self, p) <= 0 and lp.largest(self, pneg(p)) <= 0

    def tighten(self):
        """round the range of every atom that occurs in a known linear form to what the forms imply"""
        for _ in range(4):
            ats = {}
            for d in list(self.dirs):
                for m, _c in d.a[1]:
                    if len(m) == 1 and m[0] not in self.sub:
                        ats[m[0]] = 1
            ch = False
            for x in ats:
                if x.op == "ite" or x in self.sub:
                    continue
                e = A(x)
                k = self.dirs.get(e) or w.arange(x)
                lo, hi = self.bounds(e, 3)
                if lo > k[0] and lo > -INF:
                    ch = True
                    self._le(psub(C(lo), e))
                if hi < k[1] and hi < INF:
                    ch = True
                    self._le(psub(e, C(hi)))
            if not ch:
                return
            self._units()

    def _solve(self, p):
        """p == 0: orient as an equation on the youngest unit-coefficient atom"""
        best = None
        if any(len(m) == 1 and m[0] in self.sub for m, _ in p.a[1]):
            p = self.norm(p)
            if p.op != "poly":
                return
            if is_const(p):
                if p.a[0] != 0:
                    raise Infeasible()
                return
        for m, c in p.a[1]:
            if len(m) == 1 and abs(c) == 1 and m[0] not in self.sub:
                x = m[0]
                if x.op == "ite":
                    continue
                if best is None or x.id > best[0].id:
                    rest = psub(p, pscale(A(x), c))
                    if not t.contains(rest, x):
                        best = (x, pscale(rest, -c))
        if best:
            self.sub[best[0]] = best[1]
        self.touch()

    def _iteprop(self):
        """a conditional with a known range: branches outside it are not taken"""
        for d, k in list(self.dirs.items()):
            m = d.a[1][0][0]
            if len(d.a[1]) == 1 and len(m) == 1 and m[0].op == "ite":
                c, a, b = m[0].a
                if has_bv(c):
                    continue
                dc = self.decide(c)
                if dc is not None:
                    continue
                la, lb = self.bounds(a, 2), self.bounds(b, 2)
                oa, ob = la[1] < k[0] or la[0] > k[1], lb[1] < k[0] or lb[0] > k[1]
                if oa and ob:
                    raise Infeasible()
                if oa:
                    self.assume(c, False)
                    self._le2(b, k)
                elif ob:
                    self.assume(c, True)
                    self._le2(a, k)

    def _le2(self, p, k):
        if k[0] > -INF:
            self._le(psub(C(k[0]), p))
        if k[1] < INF:
            self._le(psub(p, C(k[1])))

    def recond(self):
        """re-evaluate inequalities over conditionals under what is known now"""
        self._iteprop()
        for p in list(self.cond):
            q = self.norm(p)
            if q is not p and p in self.cond:
                self.cond.remove(p)
                self._le(q)

    def _units(self):
        if self.cond:
            self.recond()
        changed = True
        n = 0
        while changed and self.ors and n < 20:
            changed = False
            n += 1
            for b in list(self.ors):
                if b not in self.ors:      # settled by a nested propagation
                    continue
                open_ = []
                sat = False
                for x in b.a:
                    k = self.decide(x)
                    if k is True:
                        sat = True
                        break
                    if k is None:
                        open_.append(x)
                if sat:
                    self.ors.remove(b)
                elif not open_:
                    raise Infeasible()
                elif len(open_) == 1:
                    self.ors.remove(b)
                    self.assume(open_[0], True)
                    changed = True

        self._exists()

    def _exists(self):
        """an existence known to hold, whose first candidates are known not to"""
        ex = [(b, v) for b, v in self.bools.items() if b.op == "exists" and b.a[0].op == "poly"]
        if not ex:
            return
        from . import loops
        for b, v in ex:
            if not v and self.bounds(b.a[0], 2)[0] >= 1:
                c0 = t.open_(b.a[1], t.ZERO)
                if self.decide(c0) is not False:
                    self.assume(c0, False)
        yes = {b for b, v in ex if v}
        if not yes:
            return
        for b, v in ex:
            n, lam = b.a
            for _ in range(3 if not v else 0):
                if self.bounds(n, 2)[0] < 1:
                    break
                sv = mk("lv_k", "shift")
                lam = t.close(t.open_(lam, padd(A(sv), t.ONE)), sv)
                n = psub(n, t.ONE)
                if loops.exists(n, lam) in yes:
                    raise Infeasible()
        for b in yes:
            n, lam = b.a
            for _ in range(8):
                if self.decide(t.open_(lam, t.ZERO)) is not False or self.bounds(n, 2)[0] < 1:
                    break
                v = mk("lv_k", "shift")
                lam = t.close(t.open_(lam, padd(A(v), t.ONE)), v)
                n = psub(n, t.ONE)
                if self.decide(loops.exists(n, lam)) is False:
                    raise Infeasible()

    # ------------------------------------------------------------ normal form under these facts
    def norm(self, x):
        return self._norm(x, 0)

    def _norm(self, x, d):
        if isinstance(x, tuple):
            return tuple(self._norm(y, d) for y in x)
        if not isinstance(x, T):
            return x
        r = self._memo.get(x)
        if r is not None:
            return r
        if x in self._nstk:        # cut cycles; what depends on the cut is not kept
            self._ncut = min(self._ncut, self._nstk[x])
            return x
        pos = len(self._nstk)
        self._nstk[x] = pos
        cut, self._ncut = self._ncut, 1 << 30
        bcut, self._cut = self._cut, 1 << 30
        try:
            r = self._norm1(x, d)
        finally:
            del self._nstk[x]
            bc, self._cut = self._cut, min(bcut, self._cut)
        if self._ncut >= pos:
            if bc == 1 << 30:       # no bound in progress was cut while computing this
                self._memo[x] = r
            self._ncut = cut
        else:
            self._ncut = min(cut, self._ncut)
        return r

    def _norm1(self, x, d):
        if d > 60:
            return x
        s = self.sub.get(x)
        if s is not None:
            return self._norm(s, d + 1)
        o = x.op
        if not x.a or o in ("sym", "str", "lv", "bv", "fn"):
            return self._eta(x)
        if o in ("le0", "eq0", "isvar", "eq", "not", "and", "or") or x in self.bools:
            k = self.bools.get(x)
            if k is not None:
                return t.boolc(k)
        if o == "lam":
            h, b = x.a
            b2 = self._norm(b, d + 1)
            return x if b2 is b else t.close_bv(b2, h)
        a2 = tuple(self._norm(y, d + 1) for y in x.a)
        y = x if a2 == x.a else t.rebuild(o, a2, x.ty)
        if y is not x and isinstance(y, T):
            s = self.sub.get(y)
            if s is not None:
                return self._norm(s, d + 1)
            if y.op in ("adt", "seq") and y.op != x.op:
                return self._norm(y, d + 1)
        if not isinstance(y, T):
            return y
        if y.op == "poly" and x.op != "poly":
            z = t.single_atom(y)
            if z is not None:
                y = z
        o = y.op
        if o in ("le0", "eq0"):
            k = self._dec_quick(y)
            return y if k is None else t.boolc(k)
        if o in ("max", "min"):
            args = list(y.a)
            keep = []
            for i, p in enumerate(args):
                dom = False
                for j, q in enumerate(args):
                    if i != j and q is not None:
                        # p dominated by q?
                        if o == "max":
                            dd = self.bounds(psub(p, q), 2)[1] <= 0
                        else:
                            dd = self.bounds(psub(q, p), 2)[1] <= 0
                        if dd:
                            dom = True
                            break
                if dom:
                    args[i] = None
                else:
                    keep.append(p)
            if len(keep) < len(y.a):
                r = (t.imax if o == "max" else t.imin)(*keep)
                return r
            return y
        if o in ("firstidx", "exists") and y.a[0].op == "poly" and y.a[1].op == "lam" and self.bounds(y.a[0], 2)[0] >= 1:
            # the first index is known to satisfy it, or not to
            k = self.decide(t.open_(y.a[1], t.ZERO))
            if k is True:
                return t.ZERO if o == "firstidx" else t.TRUE
            if k is False:
                from . import loops
                v = mk("lv_k", "shift")
                lam = t.close(t.open_(y.a[1], padd(A(v), t.ONE)), v)
                n = psub(y.a[0], t.ONE)
                if o == "exists":
                    return self._norm(loops.exists(n, lam), d + 1)
                return self._norm(padd(loops.firstidx(n, lam), t.ONE), d + 1)
            return y
        if o == "wrap":
            lo, hi = w.W.irange(y.ty)
            b = self.bounds(y.a[0], 2)
            if lo <= b[0] and b[1] <= hi:
                return y.a[0]
            return y
        if o == "tdiv":
            b = self.bounds(y.a[0], 2)
            q = self.bounds(y.a[1], 2)
            if q[0] > 0:
                if b[0] >= 0:
                    return t.fdiv(y.a[0], y.a[1])
                if b[1] <= 0:
                    return pneg(t.fdiv(pneg(y.a[0]), y.a[1]))
            return y
        if o == "ite":
            k = self.decide(y.a[0])
            if k is not None:
                return self._norm(y.a[1] if k else y.a[2], d + 1)
            return y
        return self._eta(y)

    def _dec_quick(self, b):
        b = self.canon(b)
        if b in (t.TRUE, t.FALSE):
            return b is t.TRUE
        if b.op == "isvar":
            k = self.var.get(b.a[0])
            if k is not None:
                return k == b.a[1]
            if b.a[1] in self.excl.get(b.a[0], ()):
                return False
            return None
        if b.op not in ("le0", "eq0"):
            return None
        lo, hi = self.bounds(b.a[0], 2)
        if b.op == "le0":
            return True if hi <= 0 else False if lo > 0 else None
        if lo > 0 or hi < 0:
            return False
        return True if lo == hi == 0 else None

    def _eta(self, x):
        """known variant of an opaque enum value -> explicit constructor"""
        if x.op == "isvar":
            k = self.var.get(x.a[0])
            if k is not None:
                return t.boolc(k == x.a[1])
            if x.a[1] in self.excl.get(x.a[0], ()):
                return t.FALSE
            return x
        if x.op == "discr":
            v = self.var.get(x.a[0])
            if v is not None and x.ty is not None:
                return C(w.W.discr_of(x.ty, v))
            return x
        if x.ty is not None and x.op not in ("adt", "poly"):
            ty = w.W.types[x.ty]
            if ty["k"] == "adt" and ty["akind"] == "enum":
                v = self.var.get(x)
                if v is not None:
                    fs = [self._norm(w.mkfld(x, v, i), 40) for i in range(len(ty["variants"][v]["fields"]))]
                    return mk("adt", x.ty, v, *fs)
        return x

    def equal(self, a, b):
        if a is b:
            return True
        a, b = self.norm(a), self.norm(b)
        return self._eq(a, b, 0)

    def _eq(self, a, b, d):
        if a is b:
            return True
        if d > 40:
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self._eq(x, y, d + 1) for x, y in zip(a, b))
        if not isinstance(a, T) or not isinstance(b, T):
            return a == b
        if a.op == "poly" and b.op == "poly":
            lo, hi = self.bounds(psub(a, b))
            if lo == hi == 0:
                return True
            x, y = t.single_atom(a), t.single_atom(b)
            if x is not None and y is not None:
                return self._eq(x, y, d + 1)
            # same shape modulo equal atoms
            return self._polyeq(a, b, d)
        if a.op == "adt" and b.op == "adt":
            return a.a[0] == b.a[0] and a.a[1] == b.a[1] and all(self._eq(x, y, d + 1) for x, y in zip(a.a[2:], b.a[2:]))
        if b.op in ("adt", "tup") and a.op not in ("adt", "tup"):
            a, b = b, a
        if a.op == "adt" and b.ty is not None and b.ty == a.a[0]:
            ty = w.W.types[b.ty]
            if ty["k"] == "adt" and (ty["akind"] == "struct" or self.var.get(b) == a.a[1]):
                return all(self._eq(x, self.norm(w.mkfld(b, a.a[1], i)), d + 1) for i, x in enumerate(a.a[2:]))
            return False
        if a.op == "tup" and b.ty is not None and w.W.kind(b.ty) == "tuple":
            return all(self._eq(x, self.norm(w.mkfld(b, 0, i)), d + 1) for i, x in enumerate(a.a))
        if a.op != b.op:
            return False
        if a.op == "lam":
            if a.a[0] != b.a[0]:
                h = max(a.a[0], b.a[0])
                v = mk("lv", "eq", d, ty=None)
                return self._eq(self.norm(t.open_(a, v)), self.norm(t.open_(b, v)), d + 1)
            return self._eq(a.a[1], b.a[1], d + 1)
        if len(a.a) != len(b.a):
            return False
        if not a.a:
            return False
        if a.op in ("sym", "lv", "bv"):
            return False
        return all(self._eq(x, y, d + 1) for x, y in zip(a.a, b.a))

    def _polyeq(self, a, b, d):
        if len(a.a[1]) != len(b.a[1]) or a.a[0] != b.a[0]:
            return False
        rest = list(b.a[1])
        for m, c in a.a[1]:
            for e in rest:
                n, k = e
                if k == c and len(n) == len(m) and all(self._eq(x, y, d + 1) for x, y in zip(m, n)):
                    rest.remove(e)
                    break
            else:
                return False
        return True


_hi = {}


def _has_ite(p):
    r = _hi.get(p)
    if r is None:
        r = False
        for m, _ in p.a[1]:
            for x in m:
                if x.op == "ite" or any(isinstance(y, T) and y.op == "poly" and _has_ite(y) for y in x.a):
                    r = True
        _hi[p] = r
    return r


def f32(v):
    import struct
    return struct.unpack("<f", struct.pack("<f", v))[0]


def fbits(x):
    import struct
    s = w.W.types[x.ty]["s"]
    if s == "f32":
        return struct.unpack("<f", struct.pack("<I", x.a[0]))[0]
    return struct.unpack("<d", struct.pack("<Q", x.a[0]))[0]


def _cdiv(a, b):
    return -((-a) // b)


def _same(x, q):
    return x.a[1] == q.a[1]


def AXIOMS(facts, x):
    return AX.get(x.op, _none)(facts, x)


def _none(f, x):
    return ()


AX = {}


def extreme(x, f):
    """a comparison that decides which operand an innermost min or max of x takes"""
    seen = set()

    def go(x):
        if x in seen:
            return None
        seen.add(x)
        for y in t.subterms(x):
            r = go(y)
            if r is not None:
                return r
        if x.op in ("max", "min") and not t.has_bv(x):
            for i in range(len(x.a)):
                for j in range(i):
                    c = t.le(x.a[j], x.a[i])
                    if f.decide(c) is None:
                        return c
        return None
    return go(x)
