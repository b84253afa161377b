"""C01 undo restores the project exactly, redo repeats the edit exactly."""
from .. import inv
from . import edits as E
from .util import *


def build(env):
    inv.install(env.W)
    for name, anchor, make, rep in E.scenarios(env.tier):
        def f(q, make=make):
            r = make(q)
            if r.noop:
                return
            cmd = r.cmd()
            u = r.apply(cmd, "undo", r.after)
            E.same_project(q, "undone", u, r.p)
            E.same_project(q, "redone", r.apply(cmd, "redo", u), r.after)
            E.same_project(q, "repeated", r.apply(cmd, "redo", r.p), r.after)
        env.forall(name, f, anchor, setup=E.setup())
