"""Exact entailment in the polyhedra domain.

The facts of a path as linear inequalities over its atoms (products are atoms of their
own); the largest value a linear form can take under them, by rational linear
programming on the dual.  Used before something is reported, where the cheap bounds of
facts.py leave a claim open; there is no search over cases here."""
from fractions import Fraction
from . import terms as t
from .terms import A, C, psub, is_const
from . import world as w

INF = w.INF
LIM = 1 << 190


from .facts import Infeasible


class Empty(Infeasible):
    """the inequalities contradict each other"""


def system(f, p, rounds=3, cap=220):
    """inequalities q <= 0 connected to the atoms of p (or all of them)"""
    rows, seen, known = [], set(), set()
    todo = [m for m, _ in p.a[1]] if p is not None else [m for d in f.dirs for m, _ in d.a[1]]
    forms = []
    for d, (lo, hi) in f.dirs.items():
        if lo > -LIM:
            forms.append(psub(C(lo), d))
        if hi < LIM:
            forms.append(psub(d, C(hi)))
    for x, y in f.sub.items():
        if y.op == "poly" and not (x.op == "ite"):
            e = psub(A(x), y)
            forms += [e, t.pneg(e)]
    by = {}
    for q in forms:
        for m, _ in q.a[1]:
            by.setdefault(m, []).append(q)
    depth = {m: 0 for m in todo}
    while todo and len(rows) < cap:
        m = todo.pop(0)
        if m in seen:
            continue
        seen.add(m)
        qs = list(by.get(m, ()))
        lo, hi = f.mono(m, 1)
        one = t.mk("poly", 0, ((m, 1),))
        if lo > -LIM:
            qs.append(psub(C(lo), one))
        if hi < LIM:
            qs.append(psub(one, C(hi)))
        if len(m) == 1 and depth[m] < rounds:
            qs += [q for q in f.axioms(m[0]) if q is not None and q.op == "poly"]
        for q in qs:
            if q in known or is_const(q):
                continue
            known.add(q)
            rows.append(q)
            for m2, _ in q.a[1]:
                if m2 not in seen and m2 not in depth:
                    depth[m2] = depth[m] + 1
                    todo.append(m2)
    return rows


def largest(f, p, cap=220):
    """upper bound of p under the facts (INF if none is found); raises Empty"""
    rows = system(f, p, cap=cap)
    vs = {}
    for q in rows + [p]:
        for m, _ in q.a[1]:
            vs.setdefault(m, len(vs))
    n = len(vs)
    if n > 90 or not rows:
        return INF
    # dual: minimise b.l  subject to  sum_r l_r a_r = c, l >= 0     (a_r x <= b_r)
    cols, b = [], []
    for q in rows:
        cols.append({vs[m]: c for m, c in q.a[1]})
        b.append(-q.a[0])
    c = [0] * n
    for m, k in p.a[1]:
        c[vs[m]] = k
    v = dual(cols, b, c, n)
    return INF if v is None else v + p.a[0]


def contradictory(f):
    """no values satisfy the inequalities"""
    try:
        rows = system(f, None, cap=300)
        if not rows:
            return False
        vs = {}
        for q in rows:
            for m, _ in q.a[1]:
                vs.setdefault(m, len(vs))
        if len(vs) > 90:
            return False
        dual([{vs[m]: c for m, c in q.a[1]} for q in rows], [-q.a[0] for q in rows], [0] * len(vs), len(vs))
        return False
    except Empty:
        return True


def dual(cols, b, c, n, limit=400):
    """min b.l, sum_j l_j cols[j] = c, l >= 0; None where there is no such l; raises Empty when unbounded"""
    m = len(cols)
    F = Fraction
    T = []
    for i in range(n):
        s = -1 if c[i] < 0 else 1
        row = {j: F(s * cols[j][i]) for j in range(m) if i in cols[j]}
        row[m + i] = F(1)
        row["b"] = F(s * c[i])
        T.append(row)
    base = [m + i for i in range(n)]

    def price(cost):
        z = dict(cost)
        z.setdefault("b", F(0))
        for i, row in enumerate(T):
            k = cost.get(base[i], 0)
            if k:
                for j, v in row.items():
                    z[j] = z.get(j, F(0)) - k * v
        return {j: v for j, v in z.items() if v != 0 or j == "b"}

    def run(z, allowed):
        for it in range(limit):
            js = [j for j, v in z.items() if j != "b" and v < 0 and allowed(j)]
            if not js:
                return True, z
            e = min(js) if it > 60 else min(js, key=lambda j: (z[j], j))
            best = None
            for i, row in enumerate(T):
                v = row.get(e)
                if v is not None and v > 0:
                    r = row["b"] / v
                    if best is None or r < best[0] or r == best[0] and base[i] < base[best[1]]:
                        best = (r, i)
            if best is None:
                return False, z
            i = best[1]
            pv = T[i][e]
            T[i] = {j: v / pv for j, v in T[i].items() if v != 0 or j == "b"}
            T[i].setdefault("b", F(0))
            for k, row in list(enumerate(T)) + [(-1, z)]:
                if k == i:
                    continue
                v = row.get(e)
                if v:
                    for j, x in T[i].items():
                        y = row.get(j, 0) - v * x
                        if y == 0 and j != "b":
                            row.pop(j, None)
                        else:
                            row[j] = y
            base[i] = e
        raise Limit()
    try:
        ok, z = run(price({m + i: F(1) for i in range(n)}), lambda j: j < m)
        if -z["b"] != 0 and z["b"] != 0:
            return None
        # artificial variables still in the basis stand for dependent rows
        for i in range(n):
            if base[i] >= m:
                js = [j for j in T[i] if j != "b" and j < m and T[i][j] != 0]
                if js:
                    e = js[0]
                    pv = T[i][e]
                    T[i] = {j: v / pv for j, v in T[i].items()}
                    for k, row in enumerate(T):
                        if k != i and row.get(e):
                            v = row[e]
                            for j, x in T[i].items():
                                y = row.get(j, 0) - v * x
                                if y == 0 and j != "b":
                                    row.pop(j, None)
                                else:
                                    row[j] = y
                    base[i] = e
        cost = {j: F(b[j]) for j in range(m)}
        ok, z = run(price(cost), lambda j: j < m)
        if not ok:
            raise Empty()
        v = -z["b"]
        return v.numerator // v.denominator
    except Limit:
        return None


class Limit(Exception):
    pass
