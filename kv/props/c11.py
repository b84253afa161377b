"""C11 restricted value types stay in range on every construction path"""
from .. import inv, sites


def build(env):
    inv.install(env.W)
    for p, (f, lo, hi) in inv.RANGES.items():
        sites.invariant_obligations(env, p, sites.interval(f, lo, hi), "range")
