"""Ranges of the restricted value types (the invariants C11 establishes and the
other properties assume of their inputs)."""

RANGES = {
    "crate::channel::Channel": (0, 0, 15),
    "crate::velocity::Velocity": (0, 0, 127),
    "crate::tempo::TempoValue": (0, 1, 999),
    "crate::duration::Dots": (0, 0, 7),
    "crate::duration::Denominator": (0, 2, 255),
    "crate::rhythm::Numerator": (0, 1, 99),
    "crate::grid::Grid": (0, 1, (1 << 32) - 1),
    "crate::play_iter::PlayIter": (0, 1, 5),
    "crate::key::Key": (0, -7, 7),
    "crate::percent::PercentU16": (0, 0, 2000),
}


def install(W, but=()):
    for p, (f, lo, hi) in RANGES.items():
        if p not in but:
            W.inv[(p, f)] = (lo, hi)
