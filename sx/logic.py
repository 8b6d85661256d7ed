"""Boolean/ite helpers for harness oracles; work on symbolic and plain values."""
import math


def _core():
    from . import core

    return core


def _s(*xs):
    return any(type(x).__name__ in ("SymBool", "SymNum") for x in xs)


def land(*bs):
    return _core().land(*bs) if _s(*bs) else all(bool(b) for b in bs)


def lor(*bs):
    return _core().lor(*bs) if _s(*bs) else any(bool(b) for b in bs)


def lnot(b):
    return _core().lnot(b) if _s(b) else not bool(b)


def implies(a, b):
    return lor(lnot(a), b)


def iff(a, b):
    if _s(a, b):
        return lor(land(a, b), land(lnot(a), lnot(b)))
    return bool(a) == bool(b)


def ite(c, a, b):
    return _core().ite(c, a, b) if _s(c) else (a if c else b)


def sabs(x):
    return abs(x)


def smax(a, b):
    return ite(a >= b, a, b)


def smin(a, b):
    return ite(a <= b, a, b)


def rint(x):
    """round half to even, as float."""
    if _s(x):
        return x.rint()
    return float(round(float(x)))


def floor(x):
    if _s(x):
        return _core().floor_int(x)
    return math.floor(x)


def select(xs, i):
    """xs[i] with a possibly symbolic index (assumed in range)."""
    if not _s(i):
        return xs[int(i)]
    r = xs[-1]
    for j in range(len(xs) - 2, -1, -1):
        r = ite(i == j, xs[j], r)
    return r
