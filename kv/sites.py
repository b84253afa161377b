"""Constructor invariants: every place of the crate that builds a value of a
restricted type (aggregate expression, field assignment, constant, exclusive
borrow of the restricted field) is enumerated from the MIR; the externally
callable functions that contain such a place -- or, when it sits in a private
helper or closure, the externally callable functions that reach the helper --
are analysed on unconstrained arguments, assuming the invariant of their inputs
(it is inductive), and the restricting condition must follow at the place."""
from . import terms as t
from . import world as w
from . import interp as I
from . import models
from .terms import T


def base_path(m):
    return m["path"]


def place_types(W, body, p):
    """types of every prefix of a place"""
    ty = body["locals"][p[0]]
    out = []
    var = 0
    for e in p[1:]:
        if e == "*":
            ty = W.pointee(ty) if W.is_ref(ty) else (W.types[ty]["args"][0] if W.adt_path(ty) in w.TRANSPARENT else ty)
            out.append((e, ty))
        elif e[0] == "v":
            out.append((e, ty))
        elif e[0] == "f":
            out.append((e, ty))
            ty = e[2]
        elif e[0] in ("i", "ci"):
            out.append((e, ty))
            try:
                ty = W.elem_ty(ty)
            except Exception:
                return out
        else:
            out.append((e, ty))
    return out


def find_sites(W, paths):
    """{adt path: {fn id: [kind, ...]}}"""
    out = {p: {} for p in paths}
    for fid, m in enumerate(W.fns):
        if not m["local"] or not m.get("body"):
            continue
        b = m["body"]
        for bb in b["blocks"]:
            for s in bb["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                if rv[0] == "agg" and rv[1] == "adt":
                    p = W.adt_path(rv[2])
                    if p in out:
                        out[p].setdefault(fid, []).append("build")
                if len(s[1]) > 1:
                    for e, ty in place_types(W, b, s[1])[-1:]:
                        if e != "*" and e[0] == "f" and W.adt_path(ty) in out:
                            out[W.adt_path(ty)].setdefault(fid, []).append("assign")
                if rv[0] in ("ref*", "rawref") and len(rv[1]) > 1:
                    for e, ty in place_types(W, b, rv[1]):
                        if e != "*" and e[0] == "f" and W.adt_path(ty) in out and W.kind(e[2]) == "int":
                            out[W.adt_path(ty)].setdefault(fid, []).append("borrow")
    return out


def is_test(m):
    return "::tests::" in m["path"] or "::test::" in m["path"]


def external(m):
    """callable from outside the crate (or by code generated for a derive)"""
    if m["dk"] in ("Closure",):
        return False
    return m.get("impl_trait") is not None or m.get("vis") == "pub" or m["dk"] == "Ctor"


def callers(W):
    """fn id -> set of local fn ids mentioning it"""
    r = {}
    for fid, m in enumerate(W.fns):
        b = m.get("body")
        if not b:
            continue

        def opnd(o):
            if isinstance(o, list):
                if o and o[0] == "k" and isinstance(o[1], dict) and "fn" in o[1]:
                    f = o[1]["fn"]
                    if isinstance(f, int):
                        r.setdefault(f, set()).add(fid)
                for y in o:
                    opnd(y)
        for bb in b["blocks"]:
            tm = bb["t"]
            if tm[0] == "call" and "f" in tm[1]:
                r.setdefault(tm[1]["f"], set()).add(fid)
            for s in bb["s"]:
                if s[0] == "=":
                    rv = s[2]
                    if rv[0] == "agg" and rv[1] == "closure":
                        c = closure_fid(W, rv[2])
                        if c is not None:
                            r.setdefault(c, set()).add(fid)
                    opnd(rv)
            if tm[0] == "call":
                for o in tm[2]:
                    opnd(o)
    return r


def closure_fid(W, ty):
    x = W.types[ty]
    return x.get("f")


def roots_of(W, fids):
    """externally callable local functions that contain or reach the given ones
    through private helpers only"""
    cal = callers(W)
    out, seen, st = set(), set(), list(fids)
    while st:
        f = st.pop()
        if f in seen:
            continue
        seen.add(f)
        m = W.fns[f]
        if m["local"] and external(m):
            out.add(f)
            continue
        st.extend(cal.get(f, ()))
    return out


def const_values(W, path):
    """constants of the crate holding values of the type: (name, adt dict)"""
    out = []

    def walk(name, v):
        if isinstance(v, dict):
            if "adt" in v and W.adt_path(v["adt"]) == path:
                out.append((name, v))
            for y in v.values():
                walk(name, y)
        elif isinstance(v, list):
            for y in v:
                walk(name, y)
    for c in W.consts:
        walk(c["path"], c["v"])
    return out


def invariant_obligations(env, path, conds, describe, skip=(), field_ints=True, **kw):
    """conds(q, vs) -> [(label, condition)] for the fields vs of a new value"""
    W = env.W
    short = path.split("crate::")[-1]
    if not any(x.get("k") == "adt" and x.get("path") == path for x in W.types):
        env.structural("%s|anchor" % short, path, [("missing", "type %s not found" % path)], 1)
        return
    sites = find_sites(W, [path])[path]
    sites = {f: k for f, k in sites.items() if not is_test(W.fns[f])}
    bad = []
    for f, ks in sites.items():
        if "borrow" in ks:
            bad.append(("exclusive borrow in %s" % W.fns[f]["path"], "the restricted field of %s is borrowed mutably; writes through it are not checked" % path))
    n = len(sites)
    # constants
    consts = const_values(W, path)

    def fconst(q):
        for nm, v in consts:
            vs = [models._mkconst(q.prog, x, W.field_tys(v["adt"], v.get("v", 0))[i]) for i, x in enumerate(v["fields"])]
            for label, c in conds(q, vs):
                q.holds("constant %s: %s" % (nm, label), c)
    if consts:
        env.forall("%s|constants" % short, fconst, path)
    env.structural("%s|sites" % short, path, bad, n + len(consts))
    roots = {}
    for r in roots_of(W, list(sites)):
        roots.setdefault(W.fns[r]["path"], r)
    env.notes.setdefault("construction_sites", {})[path] = {"functions": sorted({W.fns[f]["path"] for f in sites}), "constants": len(consts), "analysed_entry_points": sorted(roots)}
    for rp, r in sorted(roots.items()):
        if is_test(W.fns[r]):
            continue

        def fn(q, r=r):
            a, d = q.args(r)
            models.AGGHOOK[0] = {path: hook(q, path, conds)}
            try:
                q.call(r, *a)
            finally:
                models.AGGHOOK[0] = None
        env.forall("%s|%s" % (short, rp), fn, anchor=rp, panics="ignore", **kw)


def hook(q, path, conds):
    def h(prog, ctx, frame, ty, variant, vs):
        qq = q.on(ctx)
        for label, c in conds(qq, vs):
            qq.holds("%s built in %s" % (label, frame.f.m["path"]), c)
    return h


def interval(field, lo, hi):
    def conds(q, vs):
        v = vs[field]
        return [("value outside %d..%d" % (lo, hi), t.band(t.le(t.C(lo), v), t.le(v, t.C(hi))))]
    return conds
