"""Active-site order: compact indices name exactly the mutable sites, everywhere in the same order."""
import os

from .common import *

MAPS = [
    {"Na": ["Na", "X"], "O": ["O"], "Si": ["Si", "P"]},
    {"Na": ["X", "Na"], "O": "O", "Si": ["Si"]},
    {"Na": ["Na"], "O": ["O", "S", "Vacancy"], "Si": "Si"},
]
ALLOWED = [
    {"Na": ["Na", "X"], "O": ["O"], "Si": ["Si", "P"]},
    {"Na": ["X", "Na"], "O": ["O"], "Si": ["Si"]},
    {"Na": ["Na"], "O": ["O", "S", "X"], "Si": ["Si"]},
]
POS = [[0.1, 0, 0], [0.3, 0.2, 0], [0.6, 0, 0.5], [0.9, 0.4, 0.1]]


def _A(ctx):
    return ctx.mod("kmcpy.structure.active_site_order").ActiveSiteOrder


def build(ctx, species, mapping, shape):
    return _A(ctx).from_structure_and_mapping(structure(species, POS[: len(species)]), mapping, supercell_shape=shape)


def frac(s):
    return [[float(x) for x in site.frac_coords] for site in s]


def same_place(a, b):
    return all(abs((x - y) - round(x - y)) < 1e-6 for x, y in zip(a, b))


@harness(
    "C17",
    configs=[{"m": m, "shape": s} for m, s in ((0, None), (1, (1, 2, 1)), (2, (2, 1, 2)), (0, (1, 1, 3)))],
    thorough=[{"m": m, "shape": s} for m in range(3) for s in ((1, 1, 1), (2, 2, 1), (3, 1, 2))],
    bounds="4 primitive sites of any of 3 species, 3 mappings, supercells up to 2x1x2 (thorough 3x1x2): which sites are active, their order, "
    "their images and positions; stored and restored; symbolic values carried over to the active sites",
)
def order(ctx, m, shape):
    sp = [ctx.choice(f"s{i}", ["Na", "O", "Si"]) for i in range(4)]
    allowed = [ALLOWED[m][x] for x in sp]
    act = [i for i in range(4) if len(allowed[i]) > 1]
    o = ctx.run(build, ctx, sp, MAPS[m], shape)
    ctx.check("refused exactly when nothing is mutable", o.ok == bool(act))
    if not o.ok:
        ctx.check("ValueError", isinstance(o.exc, ValueError))
        return
    o = o.value
    sh = shape or (1, 1, 1)
    n = sh[0] * sh[1] * sh[2]
    ctx.check("counts", (o.primitive_site_count, o.original_site_count, o.active_site_count) == (4, 4 * n, n * len(act)))
    full = o.full_structure_with_properties()
    ctx.check("full structure", len(full) == 4 * n)
    fc = frac(full)
    prim = [p for p in range(4) for _ in range(n)]  # site-major: all images of a primitive site together
    for i, p in enumerate(prim):
        u = [POS[p][c] - fc[i][c] * sh[c] for c in range(3)]
        ctx.check("every full site is an image of its primitive site", all(abs(x - round(x)) < 1e-6 for x in u) and full[i].specie.symbol == sp[p])
    ctx.check("images are distinct", all(not same_place(fc[i], fc[j]) for i in range(4 * n) for j in range(i)))
    want = [i for i, p in enumerate(prim) if p in act]
    ctx.check("active sites in structure order", list(o.active_to_original) == want)
    ctx.check("their primitive sites", list(o.active_to_primitive) == [prim[i] for i in want])
    ctx.check("the others are fixed", list(o.fixed_original_indices) == [i for i in range(4 * n) if i not in want])
    ctx.check("inverse map", o.original_to_active == {k: a for a, k in enumerate(want)})
    ctx.check("primitive map", o.primitive_to_active == {p: a for a, p in enumerate(act)})
    ctx.check("allowed species", [list(x) for x in o.allowed_species_by_primitive_site] == allowed)
    M = ctx.mod("kmcpy.structure.active_site_order")
    for key, vals in (
        (M.ORIGINAL_SITE_PROPERTY, list(range(4 * n))),
        (M.PRIMITIVE_SITE_PROPERTY, prim),
        (M.PRIMITIVE_ACTIVE_SITE_PROPERTY, [act.index(p) if p in act else -1 for p in prim]),
        (M.ACTIVE_SITE_PROPERTY, [want.index(i) if i in want else -1 for i in range(4 * n)]),
    ):
        ctx.check(f"full structure carries {key}", [int(x) for x in full.site_properties[key]] == vals)
    a = o.active_structure()
    ctx.check("active structure numbers its sites", [int(x) for x in a.site_properties[M.ACTIVE_SITE_PROPERTY]] == list(range(len(want))))
    ctx.check("active structure follows the active order", len(a) == len(want) and all(same_place(x, fc[i]) for x, i in zip(frac(a), want)))
    vals = ctx.reals("v", 4 * n, -5, 5)
    ctx.eq_all("values of the full structure", o.select_active_values(vals), [vals[i] for i in want])
    if len(want) != 4 * n:
        ctx.eq_all("values of the active sites", o.select_active_values(vals[: len(want)]), vals[: len(want)])
    A = _A(ctx)
    b = A.from_dict(o.as_dict())
    ctx.check("restored from its dictionary", b == o)
    o.assert_same_order(b)
    o.assert_same_order(o.as_dict())
    ctx.eq_all("restored order selects the same values", b.select_active_values(vals), [vals[i] for i in want])


@harness(
    "C17",
    configs=[{}],
    bounds="two settings differing in any of species order, mapping, order of the allowed species or supercell: recognised as different (and equal "
    "ones as the same)",
)
def fingerprint(ctx):
    opts = []
    for k in range(2):
        sp = ctx.choice(f"sp{k}", [("Na", "O", "Si"), ("Na", "Si", "O"), ("Na", "O", "O")])
        mp = ctx.choice(f"mp{k}", [0, 1, 2])
        sh = ctx.choice(f"sh{k}", [(1, 1, 1), (2, 1, 1), (1, 1, 2)])
        opts.append((sp, mp, sh))
    a, b = (build(ctx, sp, MAPS[mp], sh) for sp, mp, sh in opts)
    same = opts[0] == opts[1]
    ctx.check("same fingerprint exactly for the same order", (a.fingerprint == b.fingerprint) == same)
    for other in (b, b.as_dict()):
        r = ctx.run(a.assert_same_order, other)
        ctx.check("compared exactly", r.ok == same)
    d = b.as_dict()
    d["format"] = "other"
    ctx.raises("unknown format", _A(ctx).from_dict, d, exc=ValueError)


@harness(
    "C17",
    configs=[{}],
    bounds="any index -2..7 and any number of values 0..9 for 3 active of 9 sites: refused exactly when outside",
)
def limits(ctx):
    o = build(ctx, ["O", "Na", "Si"], MAPS[1], (1, 3, 1))
    i, j = ctx.int("i", -2, 7), ctx.int("j", -2, 7)
    r = ctx.run(o.validate_active_indices, [i, j])
    ctx.check("indices", iff(r.ok, land(i >= 0, i < 3, j >= 0, j < 3)))
    n = ctx.concrete(ctx.int("n", 0, 12))
    v = ctx.ints("v", n, 0, 5)
    r = ctx.run(o.select_active_values, v)
    ctx.check("lengths", r.ok == (n in (3, 9)))
    if n == 9:
        ctx.eq_all("values", r.value, v[3:6])
    bad = ctx.choice("bad", [(1, 1), (1, 1, 0), (0, 1, 1), (1, -1, 1), (1, 1, 1, 1)])
    ctx.raises("bad supercell shape", build, ctx, ["O", "Na"], MAPS[0], bad, exc=ValueError)
    ctx.raises("unmapped species", build, ctx, ["O", "K"], MAPS[0], None, exc=ValueError)


@harness(
    "C17",
    configs=[{"shape": (1, 1, 1)}, {"shape": (2, 1, 1)}],
    bounds="structures made of any subset of the sites of 3 primitive sites in 2 orders, each displaced by any of 3 small vectors (one across the cell boundary): "
    "reduced to the active sites present, in active order; a site away from the template or a doubled site is refused",
)
def filtering(ctx, shape):
    o = build(ctx, ["Na", "O", "Si"], MAPS[0], shape)
    full = o.full_structure_with_properties()
    n = len(full)
    keep = [i for i in range(n) if ctx.choice(f"k{i}", [True, False])]
    if not keep:
        return
    if ctx.choice("rev", [False, True]):
        keep = keep[::-1]
    d = ctx.choice("d", [(0, 0, 0), (0.0004, -0.0003, 0), (-1.0, 1.0, 0.0002)])
    fault = ctx.choice("fault", [None, "far", "double"])
    fc = frac(full)
    pos = [[x + y for x, y in zip(fc[i], d)] for i in keep]
    sp = [full[i].specie.symbol for i in keep]
    lat = [[float(x) for x in r] for r in full.lattice.matrix]
    act = list(o.active_to_original)
    if fault == "far":
        pos.append([0.5, 0.77, 0.77])
        sp.append("Na")
    elif fault == "double":
        pos.append([x + 0.00003 for x in pos[-1]])
        sp.append(sp[-1])
    s = structure(sp, pos, lat)
    r = ctx.run(o.filter_active_structure, s)
    if fault == "far" or (fault == "double" and keep[-1] in act):
        ctx.check("refused", isinstance(r.exc, ValueError))
        return
    want = [i for i in act if i in keep]
    if not want:
        return
    ctx.check("filtered", r.ok and len(r.value) == len(want))
    key = ctx.mod("kmcpy.structure.active_site_order").ACTIVE_SITE_PROPERTY
    if r.ok:
        ctx.check("active indices", [int(x) for x in r.value.site_properties[key]] == [act.index(i) for i in want])
        ctx.check("sites", all(same_place(x, [a + b for a, b in zip(fc[i], d)]) for x, i in zip(frac(r.value), want)))


@harness(
    "C17",
    configs=[{"shape": (1, 1, 1)}, {"shape": (1, 2, 1)}],
    bounds="a structure with one site (active or fixed, in either half of the cell) moved by any of 5 distances 0.003 to 0.4 A in any of 3 directions, default or any of 3 given "
    "tolerances: accepted exactly when the distance is within the tolerance",
)
def tolerance(ctx, shape):
    o = build(ctx, ["Na", "O", "Si"], MAPS[0], shape)
    full = o.full_structure_with_properties()
    lat = [[float(x) for x in r] for r in full.lattice.matrix]
    fc = frac(full)
    i = ctx.choice("i", list(range(len(full))))
    d = ctx.choice("d", [0.003, 0.02, 0.08, 0.2, 0.4])
    c = ctx.choice("c", [0, 1, 2])
    tol = ctx.choice("tol", [None, 0.001, 0.05, 0.3])
    keep = [k for k in range(len(full)) if k == i or k % 2 == 0]
    pos = [list(fc[k]) for k in keep]
    j = keep.index(i)
    pos[j][c] += d / lat[c][c]
    s = structure([full[k].specie.symbol for k in keep], pos, lat)
    r = ctx.run(o.filter_active_structure, s) if tol is None else ctx.run(o.filter_active_structure, s, tol)
    ok = d <= (0.01 if tol is None else tol)
    ctx.check("within the tolerance or refused", r.ok == ok)
    if r.ok and ok:
        act = list(o.active_to_original)
        ctx.check("sites kept", len(r.value) == len([k for k in keep if k in act]))
    elif not r.ok:
        ctx.check("ValueError", isinstance(r.exc, ValueError))
