"""C31 what is written can be read back.

For every type of the crate that can be written (serialized) and read (deserialized), an
arbitrary value is written and the result handed back to the type's own reader, once by
name (JSON) and once by position (the binary form of the undo history); the value read must
be the one written. Nested crate types are taken as given back unchanged where they are
written and read as the same type: each of them has an obligation of its own. Whole
projects are written and read with a known number of items."""
from .. import inv, models, serde
from . import edits as E
from .util import *

PARTS = {"crate::trimmer::Trimmer": "from_array", "crate::trimmer::RateTrimmer": "from_array"}
# written by the undo history and to files: these must stay writable and readable
PUBLIC = [NOTE, BARP, TEMPO, CTRL, MODELS, PROJ, "crate::project::ProjectCmd", "crate::project::ModelChangeMetadata", "crate::exported_project::ExportedProject"]


def build(env):
    W = env.W
    inv.install(W)

    def impls(trait, name):
        return {f["impl_self"]: i for i, f in enumerate(W.fns) if f.get("impl_trait") == trait and f.get("name") == name and f.get("body")}
    ser, de = impls("serde_core::ser::Serialize", "serialize"), impls("serde_core::de::Deserialize", "deserialize")
    for p in PUBLIC:
        if p not in ser or p not in de:
            env.structural("written and read|" + p, p, ["%s is not %s" % (p, "written" if p not in ser else "read")], 1)
    both = sorted(set(ser) & set(de))

    def mode(byname):
        def s(prog):
            prog.serde_byname = byname
        return s

    def values(q, p):
        if p == PITCH:
            # every pitch there is
            ts = [ty(q, "crate::solfa::Solfa"), ty(q, "crate::octave::Octave"), ty(q, "crate::sharp_flat::SharpFlat")]
            for s in W.variants(ts[0]):
                for o in W.variants(ts[1]):
                    for a in W.variants(ts[2]):
                        r = q.call(PITCH + "::value_of", *[unit(q, x, y["n"]) for x, y in zip(ts, (s, o, a))])
                        if q.variant(r) == "Ok":
                            yield q.payload(r)
        elif p in PARTS:
            at = [i for i, x in enumerate(W.fns) if x["path"] == p + "::" + PARTS[p]]
            if not at:
                raise I.MissingAnchor("%s::%s" % (p, PARTS[p]))
            yield q.call(p + "::" + PARTS[p], q.sym("values", W.fns[at[0]]["body"]["locals"][1]))
        else:
            yield q.sym("v", ty(q, p))

    def back(q, p, v):
        """the value read from what is written of v"""
        c = models.Call(q.prog, q.ctx, ser[p], W.fns[ser[p]], [], [], None, None)
        n = serde.written(c, ser[p], v)
        r = q.prog.call(q.ctx, de[p], [w.mk("deser", n)], None, W.fns[de[p]]["body"]["locals"][0], None)
        if q.variant(r) != "Ok":
            q.fail("cannot be read back", "%s: %s" % (t.show(n)[:300], t.show(r)[:200]))
        return q.payload(r)

    def trip(p, byname):
        def f(q):
            for v in values(q, p):
                q.eq("read back", back(q, p, v), v)
        env.forall("%s|%s" % (p, "by name" if byname else "by position"), f, p, setup=setups(mode(byname), unroll=24))

    def project(counts, byname):
        def f(q):
            r = E.Run(q, counts)
            E.same_project(q, "read back", back(q, PROJ, r.p), r.p)
        env.forall("%s %s|%s" % (PROJ, E.show(counts), "by name" if byname else "by position"), f, PROJ, setup=setups(mode(byname), E.setup()))
    for p in both:
        for byname in (True, False):
            if p == PROJ:
                project({}, byname)
                project({k: 2 for k in E.KINDS}, byname)
            else:
                trip(p, byname)
