"""Hash-consed terms: the value-numbering domain of the abstract interpreter.

Every abstract value is an interned node, so structural equality is identity.

  integers   poly(const, ((monomial, coef), ...))  exact polynomial over atoms;
             a monomial is a tuple of atoms (terms) sorted by id
  booleans   true/false, le0(p)  (p <= 0), eq0(p), not, and, or, isvar(t, variant),
             eq(a, b), or an opaque boolean atom
  data       adt(type, variant, fields...), tup, seq(segments), str, closure, fn, ref
  opaque     sym, fld, at, len, app, ...   (anything the analysis does not look into)
  binders    lam(height, body), bound variables bv(height)
"""
from math import gcd

_tab = {}
_n = [0]


class T:
    __slots__ = ("op", "a", "ty", "id", "h", "fv")

    def __repr__(self):
        return show(self)


def _height(x):
    if isinstance(x, T):
        return x.h
    if isinstance(x, tuple):
        m = 0
        for y in x:
            k = _height(y)
            if k > m:
                m = k
        return m
    return 0


def _fv(x):
    """ids of free loop variables inside"""
    if isinstance(x, T):
        return x.fv
    if isinstance(x, tuple):
        r = EMPTY
        for y in x:
            k = _fv(y)
            if k:
                r = r | k if r else k
        return r
    return EMPTY


EMPTY = frozenset()


def mk(op, *a, ty=None):
    key = (op, a, ty)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.ty = ty
        _n[0] += 1
        t.id = _n[0]
        if op == "lam":
            t.h = a[0]
        else:
            t.h = _height(a)
        if op == "lv":
            t.fv = frozenset((t.id,))
        else:
            t.fv = _fv(a)
        _tab[key] = t
    return t


TRUE = mk("true")
FALSE = mk("false")
UNIT = mk("tup")
UNDEF = mk("undef")


def boolc(b):
    return TRUE if b else FALSE


# ---------------------------------------------------------------- polynomials
def _mkpoly(c, d):
    items = tuple(sorted(((m, k) for m, k in d.items() if k), key=lambda e: (len(e[0]), tuple(x.id for x in e[0]))))
    return mk("poly", c, items)


_pc = {}


def C(c):
    t = _pc.get(c)
    if t is None:
        t = _pc[c] = mk("poly", c, ())
    return t


ZERO = C(0)
ONE = C(1)


def A(atom):
    """atom -> poly"""
    if atom.op == "poly":
        return atom
    return mk("poly", 0, (((atom,), 1),))


def is_const(p):
    return p.op == "poly" and not p.a[1]


def cval(p):
    return p.a[0]


def padd(p, q, k=1):
    if k == 0:
        return p
    if not q.a[1]:
        if q.a[0] == 0:
            return p
        return mk("poly", p.a[0] + k * q.a[0], p.a[1])
    d = dict(p.a[1])
    for m, c in q.a[1]:
        d[m] = d.get(m, 0) + k * c
    return _mkpoly(p.a[0] + k * q.a[0], d)


def psub(p, q):
    return padd(p, q, -1)


def pscale(p, k):
    if k == 0:
        return ZERO
    if k == 1:
        return p
    return mk("poly", p.a[0] * k, tuple((m, c * k) for m, c in p.a[1]))


def pneg(p):
    return pscale(p, -1)


def pmul(p, q):
    if not p.a[1]:
        return pscale(q, p.a[0])
    if not q.a[1]:
        return pscale(p, q.a[0])
    d = {}
    c0 = p.a[0] * q.a[0]
    for m, c in list(p.a[1]) + [((), p.a[0])]:
        if c == 0:
            continue
        for n, e in list(q.a[1]) + [((), q.a[0])]:
            if e == 0:
                continue
            if not m and not n:
                continue
            mm = tuple(sorted(m + n, key=lambda x: x.id))
            d[mm] = d.get(mm, 0) + c * e
    return _mkpoly(c0, d)


def padd_all(ps):
    r = ZERO
    for p in ps:
        r = padd(r, p)
    return r


def single_atom(p):
    """the atom a if p == a, else None"""
    if p.op == "poly" and p.a[0] == 0 and len(p.a[1]) == 1:
        m, c = p.a[1][0]
        if c == 1 and len(m) == 1:
            return m[0]
    return None


def atoms_of(p):
    s = []
    seen = set()
    for m, _ in p.a[1]:
        for x in m:
            if x.id not in seen:
                seen.add(x.id)
                s.append(x)
    return s


# ---------------------------------------------------------------- booleans
def le0(p):
    """p <= 0"""
    if is_const(p):
        return boolc(p.a[0] <= 0)
    g = 0
    for _, c in p.a[1]:
        g = gcd(g, c)
    if g > 1:
        # g*r + c0 <= 0  <=>  r <= floor(-c0/g)
        c0 = -((-p.a[0]) // g)
        p = mk("poly", c0, tuple((m, c // g) for m, c in p.a[1]))
    return mk("le0", p)


def lt(a, b):
    return le0(padd(psub(a, b), ONE))


def le(a, b):
    return le0(psub(a, b))


def eq0(p):
    if is_const(p):
        return boolc(p.a[0] == 0)
    g = 0
    for _, c in p.a[1]:
        g = gcd(g, c)
    if p.a[0] % g:
        return FALSE
    if g > 1:
        p = mk("poly", p.a[0] // g, tuple((m, c // g) for m, c in p.a[1]))
    if p.a[1][0][1] < 0:
        p = pneg(p)
    return mk("eq0", p)


def ieq(a, b):
    return eq0(psub(a, b))


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.a[0]
    if b.op == "le0":
        return le0(psub(ONE, b.a[0]))
    if b.op == "and":
        return bor(*[bnot(x) for x in b.a])
    if b.op == "or":
        return band(*[bnot(x) for x in b.a])
    return mk("not", b)


def band(*bs):
    out = []
    for b in bs:
        for x in (b.a if b.op == "and" else (b,)):
            if x is FALSE:
                return FALSE
            if x is TRUE or x in out:
                continue
            out.append(x)
    for x in out:
        if bnot(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *sorted(out, key=lambda x: x.id))


def bor(*bs):
    out = []
    for b in bs:
        for x in (b.a if b.op == "or" else (b,)):
            if x is TRUE:
                return TRUE
            if x is FALSE or x in out:
                continue
            out.append(x)
    for x in out:
        if x.op != "and" and bnot(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *sorted(out, key=lambda x: x.id))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return bnot(c)
    if a.op == "poly" or b.op == "poly":
        # min / max recognition:  ite(x <= y, y, x) etc.
        if c.op == "le0" and a.op == "poly" and b.op == "poly":
            d = psub(a, b)
            for off in (0, 1):
                if padd(c.a[0], C(-off)) is d:      # a - b + off <= 0  -> a is the smaller
                    return imin(a, b)
                if padd(c.a[0], C(-off)) is pneg(d):
                    return imax(a, b)
        # orient le0 conditions canonically: smaller id of the two forms
        c2 = bnot(c)
        if c.op == "le0" and c2.id < c.id:
            return A(mk("ite", c2, b, a))
        return A(mk("ite", c, a, b))
    c2 = bnot(c)
    if c.op == "le0" and c2.id < c.id:
        return mk("ite", c2, b, a, ty=a.ty if a.ty == b.ty else None)
    return mk("ite", c, a, b, ty=a.ty if a.ty == b.ty else None)


def _flat(op, ps):
    out = []
    for p in ps:
        x = single_atom(p)
        if x is not None and x.op == op:
            out += [q for q in x.a]
        else:
            out.append(p)
    return out


def imax(*ps):
    out = []
    c = None
    for p in _flat("max", ps):
        if is_const(p):
            c = p.a[0] if c is None else max(c, p.a[0])
        elif p not in out:
            out.append(p)
    if c is not None:
        out.append(C(c))
    # drop args that differ from another by a constant
    res = []
    for p in out:
        dom = False
        for q in out:
            if q is not p:
                d = psub(q, p)
                if is_const(d) and d.a[0] > 0:
                    dom = True
        if not dom:
            res.append(p)
    if len(res) == 1:
        return res[0]
    return A(mk("max", *sorted(res, key=lambda x: x.id)))


def imin(*ps):
    out = []
    c = None
    for p in _flat("min", ps):
        if is_const(p):
            c = p.a[0] if c is None else min(c, p.a[0])
        elif p not in out:
            out.append(p)
    if c is not None:
        out.append(C(c))
    res = []
    for p in out:
        dom = False
        for q in out:
            if q is not p:
                d = psub(q, p)
                if is_const(d) and d.a[0] < 0:
                    dom = True
        if not dom:
            res.append(p)
    if len(res) == 1:
        return res[0]
    if len(res) == 2 and c is not None:
        # min(hi, k + max(lo, x)) == k + max(lo, min(hi - k, x)) when lo <= hi - k: one form for clamps
        o = res[0] if is_const(res[1]) else res[1]
        if len(o.a[1]) == 1 and o.a[1][0][1] == 1 and len(o.a[1][0][0]) == 1 and o.a[1][0][0][0].op == "max":
            x, k = o.a[1][0][0][0], o.a[0]
            los = [y.a[0] for y in x.a if is_const(y)]
            if los and los[0] <= c - k:
                return padd(C(k), imax(C(los[0]), imin(C(c - k), imax(*[y for y in x.a if not is_const(y)]))))
    return A(mk("min", *sorted(res, key=lambda x: x.id)))


def fdiv(p, q):
    """floor division, q > 0"""
    if is_const(q):
        k = q.a[0]
        if k == 1:
            return p
        if k == 0:
            return C(0)     # division by zero panics before its value is used
        if is_const(p):
            return C(p.a[0] // k)
        # pull out exact multiples
        outd, ind = {}, {}
        for m, c in p.a[1]:
            qq, r = c // k, c % k
            if r == 0:
                outd[m] = qq
            else:
                ind[m] = c
        oc, ic = p.a[0] // k, p.a[0] % k
        out = _mkpoly(oc, outd)
        if not ind:
            return out
        inner = _mkpoly(ic, ind)
        # common factor between inner and k
        g = k
        for _, c in inner.a[1]:
            g = gcd(g, c)
        if g > 1:
            inner = mk("poly", inner.a[0] // g, tuple((m, c // g) for m, c in inner.a[1]))
            kk = C(k // g)
        else:
            kk = q
        x = single_atom(inner)
        if x is not None and x.op == "fdiv" and is_const(x.a[1]):
            return padd(out, fdiv(x.a[0], C(x.a[1].a[0] * kk.a[0])))
        return padd(out, A(mk("fdiv", inner, kk)))
    if p is q:
        return ONE
    if p is ZERO:
        return ZERO
    # p = q * r exactly?
    qa = single_atom(q)
    if qa is not None and p.a[0] == 0 and p.a[1] and all(qa in m for m, _ in p.a[1]):
        d = {}
        c0 = 0
        for m, c in p.a[1]:
            l = list(m)
            l.remove(qa)
            if l:
                d[tuple(l)] = c
            else:
                c0 += c
        return _mkpoly(c0, d)
    return A(mk("fdiv", p, q))


def tdiv(p, q):
    """truncating division (sign unknown), q constant or unknown"""
    if is_const(p) and is_const(q):
        a, b = p.a[0], q.a[0]
        r = abs(a) // abs(b)
        return C(r if (a >= 0) == (b >= 0) else -r)
    if is_const(q) and q.a[0] == 1:
        return p
    if is_const(q) and q.a[0] > 1 and p.op == "poly" and all(c % q.a[0] == 0 for _, c in p.a[1]) and p.a[0] % q.a[0] == 0:
        r = C(p.a[0] // q.a[0])
        for m, c in p.a[1]:
            x = ONE
            for y in m:
                x = pmul(x, y if y.op == "poly" else A(y))
            r = padd(r, pscale(x, c // q.a[0]))
        return r
    return A(mk("tdiv", p, q))


import struct
F32 = [None]
FOPS = {"fAdd", "fSub", "fMul", "fDiv", "fLt", "fLe", "fGt", "fGe", "fEq", "fNe"}


def f32bits(x):
    try:
        return struct.unpack("<I", struct.pack("<f", x))[0]
    except OverflowError:
        return 0x7F800000 if x > 0 else 0xFF800000


def f32val(b):
    return struct.unpack("<f", struct.pack("<I", b))[0]


def fconst_val(x):
    if x.op == "fconst" and x.ty is not None and x.ty == F32[0]:
        return f32val(x.a[0])
    return None


def fapp(op, a, b, ty=None):
    """float operation; f32 constants are folded (one operation in double rounded to single is exact)"""
    if op in ("fGt", "fGe"):
        op, a, b = "fLt" if op == "fGt" else "fLe", b, a
    x, y = fconst_val(a), fconst_val(b)
    if x is not None and y is not None:
        if op in ("fLt", "fLe", "fGt", "fGe", "fEq", "fNe"):
            r = {"fLt": x < y, "fLe": x <= y, "fGt": x > y, "fGe": x >= y, "fEq": x == y, "fNe": x != y}[op]
            return TRUE if r else FALSE
        try:
            r = {"fAdd": lambda: x + y, "fSub": lambda: x - y, "fMul": lambda: x * y, "fDiv": lambda: x / y}[op]()
            return mk("fconst", f32bits(r), ty=ty)
        except (KeyError, ZeroDivisionError):
            pass
    if op == "fMul" and (x == 1.0 or y == 1.0):
        return a if y == 1.0 else b
    return mk("app", op, a, b, ty=ty)


def i2f(v, ty):
    if is_const(v) and ty == F32[0] and abs(v.a[0]) < 1 << 53:
        return mk("fconst", f32bits(float(v.a[0])), ty=ty)
    return mk("app", "i2f", v, ty=ty)


def f2i(v, ty, W):
    x = fconst_val(v)
    if x is not None:
        lo, hi = W.irange(ty)
        return C(0 if x != x else int(min(max(x, lo), hi)))
    return A(mk("app", "f2i", v, ty=ty))


def pow2(n):
    if is_const(n):
        # a negative count never reaches a shift (that is a panic): the value of an unreachable branch
        return C(1 << n.a[0]) if 0 <= n.a[0] < 4096 else C(0) if n.a[0] < 0 else A(mk("pow2", n))
    if len(n.a[1]) == 1 and len(n.a[1][0][0]) == 1 and n.a[1][0][0][0].op == "ite":
        x, k = n.a[1][0][0][0], n.a[1][0][1]
        return ite(x.a[0], pow2(padd(C(n.a[0]), pscale(x.a[1], k))), pow2(padd(C(n.a[0]), pscale(x.a[2], k))))
    return A(mk("pow2", n))


# ---------------------------------------------------------------- substitution
_BOOLOPS = {"le0", "eq0", "not", "and", "or"}


def rebuild(op, a, ty):
    """re-run smart constructors after arguments changed"""
    if op == "poly":
        r = C(a[0])
        for m, c in a[1]:
            t = ONE
            for x in m:
                t = pmul(t, x if x.op == "poly" else A(x))
            r = padd(r, pscale(t, c))
        return r
    if op == "app" and a[0] in FOPS:
        return fapp(a[0], a[1], a[2], ty)
    if op == "app" and a[0] == "i2f":
        return i2f(a[1], ty)
    if op == "app" and a[0] in ("BitAnd", "BitOr", "BitXor") and len(a) == 3 and is_const(a[1]) and is_const(a[2]):
        x, y = a[1].a[0], a[2].a[0]
        return C(x & y if a[0] == "BitAnd" else x | y if a[0] == "BitOr" else x ^ y)
    if op == "le0":
        return le0(a[0])
    if op == "eq0":
        return eq0(a[0])
    if op == "not":
        return bnot(a[0])
    if op == "and":
        return band(*a)
    if op == "or":
        return bor(*a)
    if op == "ite":
        return ite(*a)
    if op == "max":
        return imax(*a)
    if op == "min":
        return imin(*a)
    if op == "fdiv":
        return fdiv(*a)
    if op == "tdiv":
        return tdiv(*a)
    if op == "pow2":
        return pow2(*a)
    f = _REB.get(op)
    if f:
        return f(a, ty)
    return mk(op, *a, ty=ty)


_REB = {}


def reb(op):
    def d(f):
        _REB[op] = f
        return f
    return d


def subst(t, m, memo=None):
    """replace terms (by identity) using dict m: term -> term; binder-safe because
    bound variables are never keys of m except when opening a lam"""
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    if isinstance(t, tuple):
        return tuple(_subst(x, m, memo) for x in t)
    if not isinstance(t, T):
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if not t.a:
        memo[t] = t
        return t
    if t.op == "lam":
        # re-close at the right height
        h, body = t.a
        b2 = _subst(body, m, memo)
        if b2 is body:
            r = t
        else:
            r = close_bv(b2, h)
        memo[t] = r
        return r
    a2 = tuple(_subst(x, m, memo) for x in t.a)
    same = all(x is y for x, y in zip(a2, t.a)) if not any(isinstance(x, tuple) for x in t.a) else a2 == t.a
    r = t if same else rebuild(t.op, a2, t.ty)
    memo[t] = r
    return r


def bv(h):
    return mk("bv", h)


def close(body, var):
    """lambda var. body   (var: a term used as a free variable, e.g. an lv atom)"""
    h = 1 + body.h
    return mk("lam", h, subst(body, {var: bv(h)}))


def close_bv(body, h):
    """body's bound variable is bv(h); renormalise the height after a substitution"""
    # height of body, ignoring bv
    hh = 1 + body.h
    if hh == h:
        return mk("lam", h, body)
    return mk("lam", hh, subst(body, {bv(h): bv(hh)}))


def open_(lam, val):
    h, body = lam.a
    if val.op == "poly":
        x = single_atom(val)
        # bv occurs as an atom inside polys and possibly bare: replace both
        return subst(body, {bv(h): x if x is not None else val})
    return subst(body, {bv(h): val})


def contains(t, x):
    seen = set()

    def go(t):
        if isinstance(t, tuple):
            return any(go(y) for y in t)
        if not isinstance(t, T):
            return False
        if t is x:
            return True
        if t.id in seen:
            return False
        seen.add(t.id)
        return any(go(y) for y in t.a)
    return go(t)


def walk(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            st.extend(x.a)


# ---------------------------------------------------------------- printing
TYNAME = [lambda ty: str(ty)]


def show(t, d=0):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, d) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if d > 24:
        return "…"
    o, a = t.op, t.a
    d += 1
    if o == "poly":
        out = []
        for m, c in a[1]:
            s = "*".join(show(x, d) for x in m)
            out.append(("+" if c > 0 else "-") + (s if abs(c) == 1 else "%d*%s" % (abs(c), s)))
        if a[0] or not out:
            out.append("%+d" % a[0] if out else str(a[0]))
        s = "".join(out)
        return s[1:] if s.startswith("+") else s
    if o == "le0":
        pos = [(m, c) for m, c in a[0].a[1] if c > 0]
        neg = [(m, -c) for m, c in a[0].a[1] if c < 0]
        c0 = a[0].a[0]
        l = mk("poly", c0 if c0 > 0 else 0, tuple(pos))
        r = mk("poly", -c0 if c0 <= 0 else 0, tuple(neg))
        return "%s <= %s" % (show(l, d), show(r, d))
    if o == "eq0":
        return "%s == 0" % show(a[0], d)
    if o == "not":
        return "!(%s)" % show(a[0], d)
    if o in ("and", "or"):
        return "(" + (" && " if o == "and" else " || ").join(show(x, d) for x in a) + ")"
    if o == "sym":
        return a[0]
    if o == "lv":
        return "%s'%s" % (a[0], a[1])
    if o == "fld":
        return "%s.%s%s" % (show(a[0], d), ("v%d." % a[1]) if a[1] else "", FIELDNAME[0](a[0], a[1], a[2]))
    if o == "at":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if o == "len":
        return "len(%s)" % show(a[0], d)
    if o == "adt":
        n, fs = FIELDS[0](a[0], a[1])
        return "%s{%s}" % (n, ", ".join("%s: %s" % (f, show(x, d)) for f, x in zip(fs, a[2:]))) if len(a) > 2 else n
    if o == "tup":
        return "(" + ", ".join(show(x, d) for x in a) + ")"
    if o == "seq":
        return "[" + ", ".join(show(x, d) for x in a) + "]"
    if o == "it":
        return show(a[0], d)
    if o == "str":
        return repr(a[0])
    if o == "app":
        return "%s(%s)" % (a[0], ", ".join(show(x, d) for x in a[1:]))
    if o == "bv":
        return "k%d" % a[0]
    if o == "lam":
        return "λk%d. %s" % (a[0], show(a[1], d))
    if o == "ref":
        return "&%s%s" % (show(a[0], d), "".join("." + str(x) for x in a[1]))
    return "%s(%s)" % (o, ", ".join(show(x, d) for x in a)) if a else o


FIELDNAME = [lambda b, v, i: str(i)]
FIELDS = [lambda ty, v: ("adt%s" % ty, ["%d" % i for i in range(20)])]


# ---------------------------------------------------------------- free bound variables
_hb = {}


def has_bv(x):
    """bound variables not bound inside x"""
    r = _hb.get(x)
    if r is not None:
        return r
    if x.op == "bv":
        r = True
    elif x.op == "lam":
        r = lam_free(x)
    else:
        r = False
        for y in subterms(x):
            if has_bv(y):
                r = True
                break
    _hb[x] = r
    return r


def subterms(x):
    out = []

    def go(a):
        for y in a:
            if isinstance(y, T):
                out.append(y)
            elif isinstance(y, tuple):
                go(y)
    go(x.a)
    return out


def lam_free(x):
    h, b = x.a
    seen = set()
    st = [b]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op == "bv" and y.a[0] != h:
            # conservative: bound by an inner lambda of lower height is fine
            if y.a[0] > h:
                return True
            continue
        st.extend(subterms(y))
    return False
