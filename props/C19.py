"""Occupations: validation, counting, flipping and conversion between representations."""
from .common import *


def _B(ctx):
    return ctx.mod("kmcpy.structure.basis")


BAS = [("occupation", 2, 1, 0), ("chebyshev", 2, 0, 1), ("chebyshev", 3, 0, 1), ("chebyshev", 4, 0, 1)]


def basis(ctx, k):
    name, q, _, _ = BAS[k]
    return _B(ctx).get_basis(name, **({"max_states": q} if name == "chebyshev" else {}))


@harness(
    "C19",
    configs=[{"k": k, "n": 4 if k < 2 else 3} for k in range(4)],
    thorough=[{"k": k, "n": 6 if k < 2 else 4} for k in range(4)],
    bounds="3-4 (thorough 4-6) sites with any valid value of each representation (2-4 states): counts, index lists, iteration",
)
def counting(ctx, k, n):
    O = _B(ctx).Occupation
    _, q, match, mis = BAS[k]
    v = ctx.ints("v", n, 0, q - 1)
    o = O(v, basis=basis(ctx, k))
    nm = sum(ite(x == match, 1, 0) for x in v)
    nx = sum(ite(x == mis, 1, 0) for x in v)
    ctx.check("length", len(o) == n)
    ctx.eq("matches", o.count_match(), nm)
    ctx.eq("mismatches", o.count_mismatch(), nx)
    ctx.eq("occupied", o.count_occupied(), nm)
    ctx.eq("vacant", o.count_vacant(), nx)
    for name, val in (("get_match_indices", match), ("get_mismatch_indices", mis), ("get_occupied_indices", match), ("get_vacant_indices", mis)):
        got = getattr(o, name)()
        ctx.check(name, [i for i in range(n) if bool(v[i] == val)] == got)
    ctx.eq_all("iteration", list(o), v)
    ctx.eq_all("values", o.values, v)


@harness("C19", configs=[{"k": k} for k in range(4)], bounds="any two occupations of 3 (2 for more than two states) sites: equality")
def equality(ctx, k):
    O = _B(ctx).Occupation
    _, q, match, mis = BAS[k]
    n = 3 if q == 2 else 2
    v, w = ctx.ints("v", n, 0, q - 1), ctx.ints("w", n, 0, q - 1)
    o, p = O(v, basis=basis(ctx, k)), O(w, basis=basis(ctx, k))
    same = land(*[a == b for a, b in zip(v, w)])
    ctx.check("equality", iff(bool(o == p), same))
    ctx.check("inequality", iff(bool(o != p), lnot(same)))


@harness(
    "C19",
    configs=[{"k": k} for k in range(4)],
    bounds="any value -2..5 given to the constructor or assigned at any of 3 sites: accepted exactly when it is a state of the representation; a refused "
    "assignment leaves the occupation unchanged",
)
def validation(ctx, k):
    O = _B(ctx).Occupation
    _, q, match, mis = BAS[k]
    x = ctx.int("x", -2, 5)
    r = ctx.run(O, [match, x, mis], basis=basis(ctx, k))
    ok = land(x >= 0, x < q)
    ctx.check("constructor", iff(r.ok, ok))
    base = ctx.ints("b", 3, 0, q - 1)
    o = O(base, basis=basis(ctx, k))
    i = ctx.choice("i", [0, 1, 2])
    r = ctx.run(o.__setitem__, i, x)
    ctx.check("assignment", iff(r.ok, ok))
    want = [ite(land(ok, j == i), x, base[j]) for j in range(3)]
    ctx.eq_all("after the assignment", o.values, want)
    if not r.ok:
        ctx.check("ValueError", isinstance(r.exc, ValueError))
    d = o.data
    d[0] = match if bool(o[0] != match) else mis
    ctx.eq_all("the data view is a copy", o.values, want)


@harness(
    "C19",
    configs=[{"k": k} for k in range(4)],
    bounds="any occupation of 4 sites and any pair of sites: flipping (copy or in place) exchanges match and mismatch at exactly those sites; slices and copies are "
    "independent",
)
def flipping(ctx, k):
    O = _B(ctx).Occupation
    _, q, match, mis = BAS[k]
    v = ctx.ints("v", 4, 0, q - 1)
    o = O(v, basis=basis(ctx, k))
    idx = ctx.choice("idx", [0, 3, [1], [0, 2], [3, 1, 0], []])
    ids = [idx] if isinstance(idx, int) else idx
    want = [ite(x == match, mis, match) if i in ids else x for i, x in enumerate(v)]
    f = o.flip(idx)
    ctx.eq_all("flipped copy", f.values, want)
    ctx.eq_all("original untouched", o.values, v)
    c = o.copy()
    s = o[1:3]
    ctx.eq_all("slice", s.values, v[1:3])
    t = o[[3, 0]]
    ctx.eq_all("selection", t.values, [v[3], v[0]])
    o.flip_inplace(idx)
    ctx.eq_all("flipped in place", o.values, want)
    ctx.eq_all("copy untouched", c.values, v)
    ctx.eq_all("slice untouched", s.values, v[1:3])


@harness(
    "C19",
    configs=[{"k": k} for k in range(4)],
    bounds="any occupation of 2 sites: copies, slices, selections and flipped copies keep the representation and accept exactly its values",
)
def derived(ctx, k):
    O = _B(ctx).Occupation
    _, q, match, mis = BAS[k]
    v = ctx.ints("v", 2, 0, q - 1)
    o = O(v, basis=basis(ctx, k))
    what = ctx.choice("what", ["copy", "slice", "selection", "flipped copy"])
    x = {"copy": lambda: o.copy(), "slice": lambda: o[0:2], "selection": lambda: o[[1, 0]], "flipped copy": lambda: o.flip(1)}[what]()
    w = ctx.int("w", -1, 5)
    before = list(x.values)
    r = ctx.run(x.__setitem__, 0, w)
    ctx.check(f"{what} keeps the representation", iff(r.ok, land(w >= 0, w < q)))
    ctx.eq_all(f"{what} after the assignment", x.values, [ite(land(w >= 0, w < q), w, before[0])] + before[1:])


@harness(
    "C19",
    configs=[{"a": a, "b": b} for a in range(4) for b in (0, 1, 2)],
    bounds="any occupation of 3 sites in any representation converted to any other: first mapped species stays the match value, every other state becomes the mismatch value (or "
    "keeps its state index between state representations)",
)
def conversion(ctx, a, b):
    O = _B(ctx).Occupation
    na, q, ma, xa = BAS[a]
    nb, _, mb, xb = BAS[b]
    v = ctx.ints("v", 3, 0, q - 1)
    o = O(v, basis=basis(ctx, a))
    p = o.to_basis(basis(ctx, b))
    want = v if na == nb else [ite(x == ma, mb, xb) for x in v]
    ctx.eq_all("converted", p.values, want)
    ctx.eq_all("source untouched", o.values, v)
    ctx.check("equivalent to its conversion", o.equivalent_to(p))
    x = v[0]
    B = basis(ctx, a)
    if na == "chebyshev":
        ctx.eq("state to occupation", B.to_occupation(x), ite(x == 0, 1, 0))
        y = ctx.int("y", 0, 1)
        ctx.eq("occupation to state", B.from_occupation(y), ite(y == 1, 0, 1))
    else:
        ctx.eq("occupation to state", B.to_chebyshev(x), ite(x == 1, 0, 1))
        y = ctx.int("y", 0, 1)
        ctx.eq("state to occupation", B.from_chebyshev(y), ite(y == 0, 1, 0))
        w = ctx.ints("w", 3, 0, 1)
        other = O([ite(z == 1, 0, 1) for z in w], basis="chebyshev")
        ctx.check("equivalence across representations", iff(bool(o.equivalent_to(other)), land(*[s == z for s, z in zip(v, w)])))


@harness("C19", configs=[{}], bounds="all-vacant and all-occupied occupations of 1 or 3 sites in every representation; representations from their dictionaries; state numbers -1..3")
def filled(ctx):
    O = _B(ctx).Occupation
    k = ctx.choice("k", [0, 1, 2])
    _, q, match, mis = BAS[k]
    n = ctx.choice("n", [1, 3])
    ctx.eq_all("zeros", O.zeros(n, basis=basis(ctx, k)).values, [mis] * n)
    ctx.eq_all("ones", O.ones(n, basis=basis(ctx, k)).values, [match] * n)
    d = basis(ctx, k)
    d2 = _B(ctx).BasisFunction.from_dict(d.as_dict())
    ctx.check("representation restored", type(d2) is type(d) and d2.valid_values == d.valid_values)
    ctx.raises("unknown representation", _B(ctx).get_basis, "typo", exc=ValueError)
    m = ctx.int("m", -1, 3)
    r = ctx.run(_B(ctx).ChebyshevBasis, m)
    ctx.check("at least two states", iff(r.ok, m >= 2))
