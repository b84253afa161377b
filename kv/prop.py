"""Obligations: what a property module states, and how one is decided.

An obligation is a function over one abstract path: it calls repository
functions on unconstrained symbolic arguments, and states what must hold of the
resulting values.  It is decided for every abstract path of those functions."""
import json
import os
import re
import signal
import time
import traceback

from . import terms as t
from . import world as w
from . import interp as I
from . import facts
from . import lp
from .terms import T, mk, A, C, TRUE, FALSE
from .world import Undecided
from .facts import Infeasible

ATOMS = ("le0", "eq0", "isvar", "eq", "exists", "app", "fld", "sym", "at", "lv")


class Fail(Exception):
    """the path is finished: the obligation failed on it"""


def free_bv(x):
    """does the term mention a variable bound further out?"""
    return t._height(x) > 0 and has_bv(x)


has_bv = t.has_bv
subterms = t.subterms


def open_conds(x, facts, out, seen, limit=1):
    """undecided closed conditions of conditionals inside x"""
    if x in seen or len(out) >= limit:
        return
    seen.add(x)
    if x.op == "ite" and not has_bv(x.a[0]):
        if facts.decide(x.a[0]) is None:
            atom(x.a[0], facts, out)
            if out:
                return
    for y in subterms(x):
        open_conds(y, facts, out, seen, limit)
        if len(out) >= limit:
            return


def atom(c, facts, out):
    """an undecided atomic part of a condition"""
    if facts.decide(c) is not None:
        return
    if c.op in ("and", "or", "not"):
        for y in c.a:
            atom(y, facts, out)
            if out:
                return
        out.append(c)
        return
    if c.op == "ite":
        for y in c.a:
            atom(y, facts, out)
            if out:
                return
    out.append(c)


class Q:
    """one abstract path of one obligation"""

    def __init__(self, ob, ctx):
        self.ob, self.ctx = ob, ctx
        self.prog = ctx.prog
        self.W = ctx.prog.w
        self.mark = len(ctx.mpan)
        self.okpanics = []

    def on(self, ctx):
        """the same obligation, on another abstract state"""
        if ctx is self.ctx:
            return self
        q = Q(self.ob, ctx)
        return q

    # ---- inputs
    def const(self, path):
        """value of a constant of the crate"""
        from . import models
        for c in self.W.consts:
            if c["path"] == path:
                return models._mkconst(self.prog, c["v"], c["t"])
        raise I.MissingAnchor("constant %s" % path)

    def sym(self, name, ty):
        return w.sym(name, ty if isinstance(ty, int) else self.W.tyid[ty])

    def args(self, path, **over):
        """symbolic arguments for a function: name -> value, and the list"""
        fid = self.prog.fid(path) if isinstance(path, str) else path
        b = self.W.fns[fid]["body"]
        names = {n[1][0]: n[0] for n in b["names"] if len(n[1]) == 1}
        out, d = [], {}
        for i in range(b["argc"]):
            nm = names.get(1 + i, "a%d" % i)
            v = over[nm] if nm in over else w.sym(nm, b["locals"][1 + i])
            d[nm] = v
            out.append(v)
        return out, d

    def call(self, path, *args):
        fid = self.prog.fid(path) if isinstance(path, str) else path
        b = self.W.fns[fid]["body"]
        return self.prog.call(self.ctx, fid, list(args), None, b["locals"][0] if b else None, None)

    # ---- facts
    def norm(self, x):
        return self.ctx.facts.norm(x)

    def branch(self, c):
        return self.ctx.branch(c)

    def assume(self, c):
        self.ctx.assume(c)

    def known(self, c):
        return self.ctx.facts.decide(c)

    # ---- claims
    def refine(self):
        """before something is reported: decide what the path condition leaves open"""
        for _ in range(60):
            f = self.ctx.facts
            out, seen = [], set()
            for p in f.cond:
                open_conds(p, f, out, seen)
                if out:
                    break
            if not out:
                for b in f.ors[:1]:
                    for x in b.a:
                        if f.decide(x) is None:
                            atom(x, f, out)
                            if out:
                                break
            if not out:
                return
            self.ctx.branch(out[0])

    def possible(self):
        """leave a path whose linear facts contradict each other"""
        self.ctx.facts.copy().recheck()
        if lp.contradictory(self.ctx.facts) or self.ctx.facts.refuted():
            raise Infeasible()

    def fail(self, label, detail="", again=None, claim=None, terms=()):
        self.refine()
        if again is not None:
            if again():
                return
            self.ctx.facts.tighten()
            if again():
                return
        self.possible()
        if claim is not None:
            facts.DEADLINE = time.monotonic() + 20
            try:
                if claim():
                    return
                if time.monotonic() > facts.DEADLINE:
                    label, detail = "undecided", "no time to look at every case of: %s (%s)" % (label, detail)
            finally:
                facts.DEADLINE = None
        if label != "undecided":
            ops = unmodelled(list(terms) + [cs[k] for cs, k in self.ctx.decisions])
            if ops:
                # nothing is known of what these return: the claim may well hold
                label, detail = "undecided", "%s rests on %s, of which there is no model (%s)" % (label, ", ".join(sorted(ops))[:200], detail)
        self.ob.failures.append((label, detail, [t.show(cs[k])[:160] for cs, k in self.ctx.decisions][-14:]))
        raise Fail()

    def split(self, *xs):
        """fork on something undecided the terms depend on"""
        out = []
        seen = set()
        for x in xs:
            open_conds(x, self.ctx.facts, out, seen)
            if out:
                self.ctx.branch(out[0])
                return True
        ors = self.ctx.facts.ors
        if ors:
            for x in ors[0].a:
                if self.ctx.facts.decide(x) is None:
                    self.ctx.branch(x)
                    return True
        return False

    def eq(self, label, a, b):
        self.ob.stated += 1
        n = 0
        while True:
            if isbool(a) or isbool(b):
                if a is b:
                    return
                x = self.truth(a)
                y = self.truth(b)
                if x != y:
                    self.fail(label, "got %s, expected %s" % (show(a), show(b)))
                return
            f = self.ctx.facts
            if f.equal(a, b):
                return
            n += 1
            if n > 60:
                raise Undecided("comparison of %s with %s" % (show(a), show(b)))
            if self.split(f.norm(a), f.norm(b)):
                continue
            a1, b1 = f.norm(a), f.norm(b)
            for _ in range(3):
                f.touch()
                if f.equal(a1, b1) or a1.op == b1.op == "poly" and f.bounds(t.psub(a1, b1), 4) == (0, 0):
                    return
                a1, b1 = f.norm(a1), f.norm(b1)
            self.fail(label, "got %s, expected %s" % (show(f.norm(a)), show(f.norm(b))), lambda: self.ctx.facts.equal(a, b), lambda: self.same_int(a, b), (f.norm(a), f.norm(b)))
            return

    def same_int(self, a, b):
        f = self.ctx.facts
        if f.same_int(a, b):
            return True
        a, b = f.norm(a), f.norm(b)
        return a.op == b.op == "poly" and f.implied(t.eq0(t.psub(a, b)), 8)

    def truth(self, c):
        """truth value on this path, forking as needed"""
        return self.ctx.branch(c)

    def holds(self, label, c):
        self.ob.stated += 1
        n = 0
        while True:
            d = self.ctx.facts.decide(c)
            if d is True:
                return
            if d is False:
                # a contradiction between disjunctions may still be hidden
                if self.ctx.facts.ors and n < 20 and self.split():
                    n += 1
                    continue
                self.fail(label, "violated: %s" % show(c), lambda: self.ctx.facts.decide(c) is True, terms=(c,))
                return
            n += 1
            if n > 60:
                raise Undecided("claim %s" % show(c))
            c2 = self.norm(c)
            out = []
            if c2.op in ("and", "or", "ite"):
                atom(c2, self.ctx.facts, out)
                if out and out[0] is not c2:
                    self.ctx.branch(out[0])
                    continue
            if self.split(c2):
                continue
            self.fail(label, "not established: %s" % show(c2), lambda: self.ctx.facts.decide(c) is True, lambda: self.ctx.facts.implied(c), (c2,))
            return

    def variant(self, v, names=None):
        """variant name of an enum value on this path (forks)"""
        v = self.ctx.whnf(v)
        while v.op == "ref":
            v = self.ctx.whnf(self.ctx.deref(v))
        if v.op == "adt":
            return self.W.variants(v.a[0])[v.a[1]]["n"]
        ty = self.W.peel(v.ty)
        vs = self.W.variants(ty)
        for i in range(len(vs) - 1):
            if self.ctx.branch(w.isvar(v, i)):
                return vs[i]["n"]
        self.ctx.branch(w.isvar(v, len(vs) - 1))
        return vs[-1]["n"]

    def fld(self, v, name, variant=None):
        """field by name"""
        while v.op == "ref":
            v = self.ctx.deref(v)
        ty = self.W.peel(I.value_type(v))
        vs = self.W.variants(ty)
        for vi, vv in enumerate(vs):
            if variant is not None and vv["n"] != variant:
                continue
            for i, f in enumerate(vv["fields"]):
                if f["n"] == name:
                    return w.mkfld(v, vi, i)
        raise I.MissingAnchor("field %s of %s" % (name, self.W.types[ty]["s"]))

    def payload(self, v, i=0):
        """field i of the (known) variant of an enum value"""
        v = self.ctx.whnf(v)
        if v.op == "adt":
            return v.a[2 + i]
        k = self.ctx.facts.var.get(v)
        if k is None:
            vs = self.W.variants(self.W.peel(v.ty))
            if len(vs) == 1:
                k = 0
            else:
                raise Undecided("payload of %s" % show(v))
        return w.mkfld(v, k, i)


def unmodelled(terms):
    """external functions without a model whose results the terms mention"""
    return {x.a[0][1:] for v in terms if isinstance(v, T) for x in t.walk(v) if x.op == "app" and isinstance(x.a[0], str) and x.a[0][:1] == "?"}


def isbool(v):
    return v.op in ("true", "false", "le0", "eq0", "not", "and", "or", "isvar", "eq", "exists")


def show(x, n=500):
    s = t.show(x)
    return s if len(s) <= n else s[:n] + "..."


class Obligation:
    def __init__(self, key, fn, anchor, panics="forbid", allow=(), setup=None, max_paths=3000, timeout=240):
        self.key, self.fn, self.anchor = key, fn, anchor
        self.panics, self.allow = panics, allow
        self.setup = setup
        self.max_paths = max_paths
        self.timeout = timeout
        self.failures = []
        self.stated = 0

    def run(self, W):
        prog = I.Program(W)
        if self.panics == "forbid":
            prog.panic_matters = lambda site, msg: not self.allowed(site, msg)
        t0 = time.time()
        res = {"key": self.key, "anchor": self.anchor, "viol": [], "paths": 0, "stated": 0}
        left = int(END - t0) if END else self.timeout
        limit = max(1, min(self.timeout, left))
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(limit)
        try:
            if left <= 0:
                raise _Timeout()
            if self.setup:
                self.setup(prog)
            ex = I.Explorer(prog, max_paths=self.max_paths)

            def one(ctx):
                q = Q(self, ctx)
                try:
                    self.fn(q)
                    self.stated += 1
                except I.Panic as e:
                    if self.panics == "forbid" and not self.allowed(e.site, e.msg):
                        q.refine()
                        q.possible()
                        self.failures.append(("panic: %s in %s" % (e.msg, e.site), "", [t.show(cs[k])[:160] for cs, k in ctx.decisions][-14:]))
                    else:
                        return
                except Fail:
                    pass
                except Infeasible:
                    raise
                finally:
                    self.mpan(ctx)
            ex.run(one)
            res["paths"] = ex.npaths
        except Undecided as e:
            self.failures.append(("undecided", str(e)[:300], []))
        except I.MissingAnchor as e:
            self.failures.append(("missing", str(e)[:300], []))
        except _Timeout:
            self.failures.append(("undecided", "time limit (%d s for the obligation, %d s left for the check)" % (self.timeout, max(0, left)), []))
        except RecursionError:
            self.failures.append(("undecided", "recursion limit", []))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.failures.append(("undecided", "%s: %s at %s:%d" % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno), []))
            if os.environ.get("KV_TRACE"):
                traceback.print_exc()
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        seen = set()
        for label, detail, trail in self.failures:
            k = "%s|%s" % (self.key, label)
            if k in seen:
                continue
            seen.add(k)
            res["viol"].append({"key": k, "anchor": self.anchor, "detail": detail, "path": trail})
        res["stated"] = self.stated
        res["fns"] = sorted(prog.stat_fns)
        res["calls"] = prog.stat_calls
        res["opaque"] = prog.stat_opaque
        res["loops"] = prog.stat_loops
        res["wall"] = round(time.time() - t0, 2)
        return res

    def allowed(self, site, msg):
        for a in self.allow:
            if callable(a):
                if a(site, msg):
                    return True
            elif re.search(a, "%s %s" % (site, msg)):
                return True
        return False

    def mpan(self, ctx):
        if self.panics != "forbid":
            return
        for site, msg, cond in ctx.mpan:
            if not self.allowed(site, msg):
                ops = unmodelled([cond] + [cs[k] for cs, k in ctx.decisions])
                if ops:
                    self.failures.append(("undecided", "possible panic: %s in %s rests on %s, of which there is no model" % (msg.strip(), site, ", ".join(sorted(ops))[:200]), []))
                    continue
                if any(x.op == "lv" for x in t.walk(cond)):
                    # only the value a loop carries in an arbitrary round is unknown here: the summary is too coarse to tell
                    self.failures.append(("undecided", "possible panic inside a summarised loop: %s in %s unless %s" % (msg.strip(), site, show(cond, 200)), []))
                    continue
                self.failures.append(("may panic: %s in %s" % (msg.strip(), site), "not excluded: %s" % show(cond, 300), [t.show(cs[k])[:160] for cs, k in ctx.decisions][-14:]))


END = 0             # when the whole check has to be over


class _Timeout(BaseException):
    pass


def _alarm(*a):
    raise _Timeout()


class Env:
    """collects the obligations of one property"""

    def __init__(self, pid, W, tier):
        self.pid, self.W, self.tier = pid, W, tier
        self.obs = []
        self.static = []      # results of structural checks: dicts like Obligation.run
        self.notes = {}

    def forall(self, key, fn, anchor=None, **kw):
        self.obs.append(Obligation("%s|%s" % (self.pid, key), fn, anchor or key, **kw))

    def structural(self, key, anchor, viols, examined):
        """a structural rule: viols = [(label, detail)], examined = count"""
        self.static.append({"key": "%s|%s" % (self.pid, key), "anchor": anchor, "paths": 0, "stated": examined,
                            "viol": [{"key": "%s|%s|%s" % (self.pid, key, l), "anchor": anchor, "detail": d, "path": []} for l, d in viols],
                            "fns": [], "calls": 0, "opaque": {}, "loops": {}, "wall": 0})


def run_all(env, jobs):
    import multiprocessing as mp
    t0 = time.time()
    obs = env.obs
    res = list(env.static)
    if jobs <= 1 or len(obs) <= 1:
        quick = os.environ.get("KV_FAILFAST")       # development only: stop at the first violation, or after that many seconds
        if quick:
            import random
            t0, obs = time.time(), random.Random(1).sample(obs, len(obs))
        for o in obs:
            res.append(o.run(env.W))
            if quick and (time.time() - t0 > float(quick) or any(not v["key"].endswith("|undecided") for v in res[-1]["viol"])):
                break
        return res
    global _OBS, _W, END
    _OBS, _W = obs, env.W
    END = t0 + (float(os.environ.get("KV_LIMIT", "660")) if env.tier == "quick" else 6 * 3600)
    with mp.get_context("fork").Pool(min(jobs, len(obs)), initializer=_limits, maxtasksperchild=8) as pool:
        for r in pool.imap_unordered(_work, range(len(obs)), chunksize=1):
            res.append(r)
    res.sort(key=lambda r: r["key"])
    return res


def _limits():
    # a worker that runs out of memory answers "undecided"; one the system ends would answer nothing
    import resource
    base = int(open("/proc/self/statm").read().split()[0]) * resource.getpagesize()
    resource.setrlimit(resource.RLIMIT_AS, (base + (3 << 30),) * 2)


def _work(i):
    import sys
    sys.setrecursionlimit(20000)
    return _OBS[i].run(_W)
