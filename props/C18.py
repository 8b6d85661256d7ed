"""Event generation: every hop within the cutoff, with its own environment, consistently ordered."""
import itertools
import math
import os

from .common import *

# (label, species, fractional position); the first axis is the shortest
CELLS = {
    # two unlike Na sites
    "two": ((4.4, 4.8, 5.2), [("Na1", "Na", (0.0, 0.0, 0.0)), ("O1", "O", (0.5, 0.5, 0.1)), ("Na12", "Na", (0.5, 0.1, 0.3)), ("Si1", "Si", (0.2, 0.6, 0.5)), ("O2", "O", (0.1, 0.5, 0.8)), ("O2", "O", (0.7, 0.6, 0.7))]),
    # Na sites with congruent surroundings (inversion through the Si site)
    "pair": ((5.2, 4.4, 4.8), [("Si1", "Si", (0.5, 0.5, 0.5)), ("Na1", "Na", (0.31, 0.42, 0.25)), ("O1", "O", (0.0, 0.5, 0.2)), ("O1", "O", (0.0, 0.5, 0.8)), ("Na1", "Na", (0.69, 0.58, 0.75)), ("O2", "O", (0.0, 0.0, 0.5))]),
}


def _turn():
    """Na sites far apart whose surroundings are the same up to a threefold rotation (x, y, z) -> (z, x, y)."""
    abc = (14.0, 7.0, 7.0)
    v = [("Si1", "Si", (-1.8, 0.5, 1.6)), ("Si1", "Si", (-0.4, 1.9, -1.7)), ("Si1", "Si", (1.6, -1.5, 0.3)), ("Na12", "Na", (0.6, -1.0, -2.0))]
    out = []
    for c, turn in (((3.5, 3.5, 3.5), False), ((10.5, 3.5, 3.5), True)):
        out.append(("Na1", "Na", tuple(round(c[k] / abc[k], 6) for k in range(3))))
        for lab, sp, x in v:
            x = (x[2], x[0], x[1]) if turn else x
            out.append((lab, sp, tuple(round((c[k] + x[k]) / abc[k], 6) for k in range(3))))
    return abc, out


CELLS["turn"] = _turn()
ION = {"Na": "Na+", "Si": "Si4+", "O": "O2-"}


def cif(path, abc, sites):
    lines = ["data_x", "_symmetry_space_group_name_H-M 'P 1'"]
    lines += [f"_cell_length_{n} {v}" for n, v in zip("abc", abc)]
    lines += [f"_cell_angle_{n} 90" for n in ("alpha", "beta", "gamma")]
    lines += ["_symmetry_Int_Tables_number 1", "loop_", " _symmetry_equiv_pos_site_id", " _symmetry_equiv_pos_as_xyz", " 1 'x, y, z'"]
    lines += ["loop_", " _atom_site_type_symbol", " _atom_site_label", " _atom_site_fract_x", " _atom_site_fract_y", " _atom_site_fract_z", " _atom_site_occupancy"]
    lines += [f" {s} {lab} {x[0]} {x[1]} {x[2]} 1" for lab, s, x in sites]
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")


def supercell(abc, sites, shape, active):
    """Active sites of the supercell, in the simulation's order: (species, label, primitive site, cell, cartesian)."""
    out = []
    for p, (lab, s, x) in enumerate(sites):
        if s in active:
            for c in itertools.product(*[range(n) for n in shape]):
                out.append((s, lab, p, c, [(x[k] + c[k]) * abc[k] for k in range(3)]))
    return out


def images(sites, big, i, cut):
    """All (distance, site, vector) of neighbours of site i up to cut, periodic images included."""
    reps = [range(-int(cut / b) - 1, int(cut / b) + 2) for b in big]
    out = []
    for j, s in enumerate(sites):
        for t in itertools.product(*reps):
            v = [s[4][k] - sites[i][4][k] + t[k] * big[k] for k in range(3)]
            d = math.sqrt(sum(y * y for y in v))
            if 1e-6 < d <= cut:
                out.append((d, j, v))
    return out


def ordered(ctx, sites, shape):
    """Positions of my sites in the library's supercell (same site order, cells in pymatgen's order)."""
    from pymatgen.util.coord import lattice_points_in_supercell

    import numpy as np

    pts = [tuple(int(round(float(v))) for v in np.dot(t, np.diag(shape))) for t in lattice_points_in_supercell(np.diag(shape))]
    prims = []
    for s in sites:
        if s[2] not in prims:
            prims.append(s[2])
    by = {(s[2], s[3]): s for s in sites}
    return [by[(p, c)] for p in prims for c in pts]


CASES = [
    {"cell": "two", "shape": (2, 2, 2), "sel": ("Na1", "Na12"), "mode": "uniform"},
    {"cell": "two", "shape": (3, 2, 2), "sel": None, "mode": "uniform"},
    {"cell": "two", "shape": (2, 2, 2), "sel": ("Na12", "Na1"), "mode": "dict"},
    {"cell": "pair", "shape": (2, 2, 2), "sel": ("Na1", "Na1"), "mode": "uniform"},
    {"cell": "pair", "shape": (2, 2, 2), "sel": ("Na+", "Na+"), "mode": "dict"},
    {"cell": "turn", "shape": (1, 2, 1), "sel": ("Na1", "Na12"), "mode": "dict"},
    {"cell": "two", "shape": (1, 2, 2), "sel": ("Na1", "Na12"), "mode": "uniform"},
    {"cell": "two", "shape": (2, 1, 2), "sel": None, "mode": "uniform", "act": ("Na", "Si", "O")},
]


@harness(
    "C18",
    configs=CASES,
    thorough=[
        {"cell": "two", "shape": (2, 3, 2), "sel": ("Na", "Na"), "mode": "dict"},
        {"cell": "pair", "shape": (2, 2, 3), "sel": None, "mode": "uniform"},
        {"cell": "pair", "shape": (2, 3, 3), "sel": ("Na1", "Na1"), "mode": "dict"},
    ],
    bounds="3 cells of 6 to 10 sites (2 or 3 active species), supercells from one cell thick (sites met through several images) up to 3x2x2 (thorough 2x3x3), endpoint selection by label, species or default, any cutoff (or any pair of cutoffs "
    "per neighbour species) from 2.2 to 4.3 Angstrom: which events exist, their environments and the order of these; the written library",
    deadline=150,
)
def generation(ctx, cell, shape, sel, mode, act=("Na", "Si")):
    G = ctx.mod("kmcpy.event").EventGenerator
    L = ctx.mod("kmcpy.event").EventLib
    abc, prim = CELLS[cell]
    d = ctx.tmp()
    f = os.path.join(d, "s.cif")
    out = os.path.join(d, "e.json")
    cif(f, abc, prim)
    Ld = ctx.mod("kmcpy.io.cif").load_labeled_structure_from_cif
    # the reader groups sites by species: take its site order, and my own labels and positions
    near_ = lambda u, v: all(abs((a - b) - round(a - b)) < 1e-6 for a, b in zip(u, v))
    prim = [q for x in Ld(f) for q in prim if near_(q[2], [float(v) for v in x.frac_coords])]
    ctx.check("every site is read once", sorted(prim) == sorted(CELLS[cell][1]))
    mapping = {"Na": ["Na", "X"], "Si": ["Si", "P"], "O": ["O", "S"] if "O" in act else "O"}
    top = 2.9 if cell == "turn" else 3.3 if "O" in act or 1 in shape else 4.3
    c1 = ctx.real("c1", 2.2, top)
    c2 = ctx.real("c2", 2.2, top) if mode == "dict" else c1
    kw = dict(local_env_cutoff=c1) if mode == "uniform" else dict(
        local_env_cutoff_dict={("Na0+", "Na0+"): c1, ("Na0+", "Si0+"): c2} if cell == "turn" else {("Na+", "Na+"): c1, ("Na+", "Si4+"): c2}  # without anions no charges are assigned
    )
    if sel is not None:
        kw["mobile_ion_identifiers"] = sel
    sites = ordered(ctx, supercell(abc, prim, shape, act), shape)
    big = [abc[k] * shape[k] for k in range(3)]
    start = [i for i, s in enumerate(sites) if s[0] == "Na" and (sel is None or sel[0] in ("Na", "Na+", s[1]))]
    nb = {i: [x for x in images(sites, big, i, 4.4)] for i in start}
    for c, sp in ((c1, "Na"), (c2, "Si")):
        for dist in sorted({round(x[0], 6) for i in start for x in nb[i] if mode == "uniform" or sites[x[1]][0] == sp}):
            ctx.assume(lor(c > dist + 1e-4, c < dist - 1e-4))
    near = {}
    for i in start:
        near[i] = [x for x in nb[i] if bool(x[0] < (c1 if sites[x[1]][0] == "Na" else c2))]
    target = lambda j: sites[j][0] == "Na" and (sel is None or sel[1] in ("Na", "Na+", sites[j][1]))
    want = sorted((i, x[1]) for i in start for x in near[i] if target(x[1]))
    nearest = ctx.choice("find_nearest", [False, True])
    gen = G()
    r = ctx.run(gen.generate_events, structure_file=f, supercell_shape=list(shape), event_file=out, site_mapping=mapping, find_nearest_if_fail=nearest, **kw)
    kinds = {}
    for i in start:
        sig = tuple(sorted((s, sum(1 for x in near[i] if sites[x[1]][0] == s)) for s in act))
        kinds.setdefault(sig, {}).setdefault(sites[i][2], i)
    clash = cell == "two" and any(len(g) > 1 for g in kinds.values())  # unlike surroundings with equal species counts
    if not r.ok:
        ctx.check("refused only without events or when surroundings differ", isinstance(r.exc, ValueError) and (not want or (clash and not nearest)))
        ctx.check("nothing is written when refused", not os.path.exists(out))
        return
    ctx.check("events exist", bool(want))
    lib = L.from_file(out)
    got = sorted(tuple(int(v) for v in e.mobile_ion_indices) for e in lib.events)
    ctx.check("one event per hop within the cutoff", got == want)
    env = {}
    for e in lib.events:
        i = int(e.mobile_ion_indices[0])
        lst = [int(v) for v in e.local_env_indices]
        ctx.check("one environment per site", env.setdefault(i, lst) == lst)
        ctx.check("environment is complete", sorted(lst) == sorted(x[1] for x in near.get(i, [])))
    vec = {}
    for i, lst in env.items():
        if len(set(lst)) < len(lst):
            continue  # a site met through several images: positions in the list are not told apart here
        by = {x[1]: x for x in near[i]}
        vec[i] = [by[j] for j in lst if j in by]
    for i, j in itertools.combinations(sorted(vec), 2):
        a, b = vec[i], vec[j]
        if sites[i][2] == sites[j][2]:
            ctx.check("same order for every copy of a site", len(a) == len(b) and all(abs(u - v) < 1e-4 for x, y in zip(a, b) for u, v in zip(x[2], y[2])))
        elif sorted(sites[x[1]][0] for x in a) == sorted(sites[x[1]][0] for x in b):
            ctx.check("same species order for alike sites", [sites[x[1]][0] for x in a] == [sites[x[1]][0] for x in b])
            if cell in ("pair", "turn") and not nearest and i == min(k for k in env if sites[k][2] == sites[i][2]):
                dm = lambda w: [[math.dist(x[2], y[2]) for y in w] for x in w]
                ctx.check("same mutual distances for alike sites", all(abs(u - v) < 0.011 + 0.011 * v for p, q in zip(dm(a), dm(b)) for u, v in zip(p, q)))
    ctx.check("dependencies are included", lib.has_event_dependencies())
    A = ctx.mod("kmcpy.structure.active_site_order").ActiveSiteOrder
    order = A.from_structure_and_mapping(Ld(f), mapping, supercell_shape=shape)
    ctx.check("valid for the structure it was made from", ctx.run(lib.validate_index_metadata, order).ok)
    other = A.from_structure_and_mapping(Ld(f), mapping, supercell_shape=tuple(n + 1 for n in shape))
    ctx.raises("refused for another supercell", lib.validate_index_metadata, other, exc=ValueError)
    # positions in the simulation's active order are those the events mean
    act = order.active_structure()
    ok = len(act) == len(sites)
    for s, x in zip(sites, act):
        for k in range(3):
            u = float(x.frac_coords[k]) - s[4][k] / big[k]
            ok = ok and abs(u - round(u)) < 1e-6
    ctx.check("event indices are active-site indices", ok)


@harness("C18", configs=[{}], bounds="any cell 0..6, image -9..9 and supercell 1..7 per axis: wrapped into the supercell, congruent modulo its shape")
def wrapping(ctx):
    N = ctx.mod("kmcpy.event.generators").normalize_supercell_tuple
    ax = ctx.choice("axis", [0, 1, 2])
    n = ctx.choice("n", [1, 2, 3, 5, 7])
    c, im = ctx.int("c", 0, 6), ctx.int("im", -9, 9)
    ctx.assume(c < n)
    shape, cell, image = [2, 3, 4], [1, 2, 0], [-3, 4, 9]
    shape[ax], cell[ax], image[ax] = n, c, im
    got = N(site_belongs_to_supercell=tuple(cell), image_of_site=tuple(image), supercell_shape=shape)
    ctx.check("three components", len(got) == 3)
    for k in range(3):
        if k == ax:
            ctx.check("inside", land(got[k] >= 0, got[k] < n))
            ctx.check("congruent", lor(*[got[k] == c + im + n * m for m in range(-16, 17)]))
        else:
            ctx.eq("other axes", got[k], (cell[k] + image[k]) % shape[k])


@harness(
    "C18",
    configs=[{}],
    bounds="endpoint selection by 6 labels and species spellings on either side, 4 site mappings: events start and end exactly on the named sites; ill-formed "
    "requests are refused",
)
def selection(ctx):
    G = ctx.mod("kmcpy.event").EventGenerator
    L = ctx.mod("kmcpy.event").EventLib
    abc, prim = CELLS["two"]
    d = ctx.tmp()
    f, out = os.path.join(d, "s.cif"), os.path.join(d, "e.json")
    cif(f, abc, prim)
    mp = ctx.choice("mapping", [{"Na": ["Na", "X"], "Si": "Si", "O": "O"}, {"Na": ["X", "Na"], "Si": ["Si", "P"], "O": ["O"]}, {"Na": ["Na", "Vacancy"], "Si": "Si", "O": ["O", "S"]},
                                {"Na": ["Na", "K"], "Si": "Si", "O": "O"}, None])
    a = ctx.choice("from", ["Na1", "Na12", ["Na1", "Na12"], "Na+", "Na9"])
    b = ctx.choice("to", ["Na1", "Na12", "Na+", "Si1"])
    kind = lambda v: v == "Na+"
    r = ctx.run(G().generate_events, structure_file=f, supercell_shape=[2, 2, 2], event_file=out, site_mapping=mp, local_env_cutoff=4.0, mobile_ion_identifiers=(a, b))
    if mp is None or not any(v in ("X", "Vacancy") for v in mp["Na"]):
        ctx.check("no mapping or no vacancy in it", not r.ok and isinstance(r.exc, ValueError))
        return
    ctx.assume(kind(a) == kind(b))  # one kind of identifier per request
    act = [s for s in ("Na", "Si", "O") if isinstance(mp[s], list) and len(mp[s]) > 1]
    Ld = ctx.mod("kmcpy.io.cif").load_labeled_structure_from_cif
    pr = [q for x in Ld(f) for q in prim if all(abs((u - float(v)) - round(u - float(v))) < 1e-6 for u, v in zip(q[2], x.frac_coords))]
    sites = ordered(ctx, supercell(abc, pr, (2, 2, 2), act), (2, 2, 2))
    big = [2 * v for v in abc]
    match = lambda s, v: s[0] == "Na" if kind(v) else s[1] in (v if isinstance(v, list) else [v])
    want = sorted((i, x[1]) for i, s in enumerate(sites) if match(s, a) for x in images(sites, big, i, 4.0) if match(sites[x[1]], b) and s[0] == "Na")
    ctx.check("refused exactly without events", r.ok == bool(want))
    if r.ok:
        got = sorted(tuple(int(v) for v in e.mobile_ion_indices) for e in L.from_file(out).events)
        ctx.check("endpoints", got == want)
    else:
        ctx.check("ValueError", isinstance(r.exc, ValueError) and not os.path.exists(out))
    if b == "Na1":
        ctx.raises("two identifiers", G().generate_events, structure_file=f, site_mapping=mp, event_file=out, mobile_ion_identifiers=("Na1", "Na12", "Na1"), exc=ValueError)


@harness("C18", configs=[{}], bounds="site tables with any labels, local indices 0..3 and cells 0..1 for 3 sites: each key names its own site, a doubled key is refused")
def site_table(ctx):
    S = ctx.mod("kmcpy.structure.sites")
    lab = [ctx.choice(f"l{i}", ["Na1", "Na12"]) for i in range(3)]
    loc = [ctx.concrete(ctx.int(f"i{i}", 0, 1)) for i in range(3)]
    cell = [(ctx.concrete(ctx.int(f"c{i}", 0, 1)), 0, 1) for i in range(3)]
    s = structure(["Na"] * 3, [[0.1 * i, 0, 0] for i in range(3)], site_properties={"label": lab, "local_index": loc, "supercell": cell})
    keys = list(zip(cell, lab, loc))
    r = ctx.run(S.build_site_index, s, skip_check=False)
    ctx.check("refused exactly when doubled", r.ok == (len(set(keys)) == 3))
    if r.ok:
        ctx.check("own site", [r.value[S.site_index_key(supercell=c, label=l, local_index=i)] for c, l, i in keys] == [0, 1, 2] and len(r.value) == 3)
    else:
        ctx.check("KeyError", isinstance(r.exc, KeyError))


@harness(
    "C18",
    configs=[{"kind": "cutoff"}, {"kind": "range"}],
    bounds="any cutoff (or any lower and upper limit) 1.0..4.3 per species pair: the neighbours of a site are exactly the images within its limits, each with its own index, image and distance",
)
def neighbours(ctx, kind):
    N = ctx.mod("kmcpy.structure.neighbors")
    abc, prim = CELLS["pair"]
    s = structure([q[1] for q in prim], [q[2] for q in prim], ((abc[0], 0, 0), (0, abc[1], 0), (0, 0, abc[2])))
    i = ctx.choice("site", [0, 1])
    me = prim[i][1]
    c = {"Na": ctx.real("a", 1.0, 4.3), "Si": ctx.real("b", 1.0, 4.3)}
    flip = ctx.bool("flip")
    key = lambda x: (me, x) if not bool(flip) else (x, me)
    lo = {"Na": 0.0, "Si": 0.0}
    if kind == "range":
        lo = {"Na": ctx.real("la", 0.5, 4.3), "Si": ctx.real("lb", 0.5, 4.3)}
        look = N.prepare_range_cutoff_neighbor_lookup({key(x): (lo[x], c[x]) for x in c})
    else:
        look = N.prepare_cutoff_neighbor_lookup({key(x): c[x] for x in c})
    mine = [(q[1], q[0], p, (0, 0, 0), [q[2][k] * abc[k] for k in range(3)]) for p, q in enumerate(prim)]
    cand = [x for x in images(mine, abc, i, 4.4) if prim[x[1]][1] in c]
    for x in c:
        for dist in sorted({round(y[0], 6) for y in cand if prim[y[1]][1] == x}):
            for b in (c[x], lo[x]):
                ctx.assume(lor(b > dist + 1e-4, b < dist - 1e-4))
    want = [y for y in cand if bool(land(y[0] < c[prim[y[1]][1]], y[0] > lo[prim[y[1]][1]]))]
    got = (N.get_cutoff_neighbor_info if kind == "cutoff" else N.get_range_cutoff_neighbor_info)(s, i, look)
    rows = lambda ys: sorted((int(a), [round(float(v), 4) + 0.0 for v in b]) for a, b in ys)
    g = []
    for n in got:
        j, im = int(n["site_index"]), [int(v) for v in n["image"]]
        g.append((j, [mine[j][4][k] + im[k] * abc[k] - mine[i][4][k] for k in range(3)]))
        ctx.check("distance", abs(float(n["weight"]) - math.sqrt(sum(v * v for v in g[-1][1]))) < 1e-6)
    ctx.check("neighbours", rows(g) == rows([(y[1], y[2]) for y in want]))
