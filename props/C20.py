"""Structures and occupations describe the same configuration, in both directions."""
from .common import *

SITES = [("Na", [0.1, 0.0, 0.0]), ("Si", [0.5, 0.5, 0.0]), ("Na", [0.6, 0.0, 0.5]), ("O", [0.9, 0.5, 0.5])]
MAPS = [
    {"Na": ["Na", "X"], "Si": ["Si", "P"], "O": ["O"]},
    {"Na": ["Vacancy", "K", "Na"], "Si": "Si", "O": ["O", "S"]},
    {"Na": ["K", "Na", "Va"], "Si": ["Ge", "Si"], "O": ["X", "O"]},
]
ALLOWED = [
    {"Na": ["Na", "X"], "Si": ["Si", "P"], "O": ["O"]},
    {"Na": ["X", "K", "Na"], "Si": ["Si"], "O": ["O", "S"]},
    {"Na": ["K", "Na", "X"], "Si": ["Ge", "Si"], "O": ["X", "O"]},
]
LAT = ((6.0, 0, 0), (0, 7.0, 0), (0, 1.0, 8.0))


def template():
    return structure([s for s, _ in SITES], [c for _, c in SITES], LAT)


def lattice(ctx, m, basis="chebyshev"):
    L = ctx.mod("kmcpy.structure.lattice_structure").LatticeStructure
    return L(template(), MAPS[m], basis)


def label(specie):
    return getattr(specie, "symbol", str(specie))


def code(basis, k, s):
    return s if basis == "chebyshev" else (1 - s)


def scell(sc):
    s = template()
    s.add_site_property("p", list(range(len(SITES))))
    if sc is not None:
        s.make_supercell(sc)
    return [int(p) for p in s.site_properties["p"]], [[float(x) for x in c] for c in s.frac_coords], s.lattice


def place(c, sites, tol=1e-4):
    hit = [j for j, d in enumerate(sites) if all(abs((x - y) - round(x - y)) < tol for x, y in zip(c, d))]
    return hit[0] if len(hit) == 1 else None


CASES = [
    {"m": 0, "basis": "chebyshev", "sc": None},
    {"m": 0, "basis": "occupation", "sc": None},
    {"m": 1, "basis": "chebyshev", "sc": None},
    {"m": 2, "basis": "chebyshev", "sc": None},
    {"m": 0, "basis": "chebyshev", "sc": [[2, 0, 0], [0, 1, 0], [0, 0, 1]]},
    {"m": 0, "basis": "occupation", "sc": [[1, 0, 0], [0, 1, 0], [0, 0, 2]]},
    {"m": 1, "basis": "chebyshev", "sc": [[1, 0, 0], [0, 2, 0], [0, 0, 1]]},
    {"m": 2, "basis": "chebyshev", "sc": [[1, 1, 0], [0, 1, 0], [0, 0, 2]]},
]


@harness(
    "C20",
    configs=CASES,
    thorough=[
        {"m": 0, "basis": "chebyshev", "sc": [[2, 0, 0], [0, 2, 0], [0, 0, 1]]},
        {"m": 1, "basis": "chebyshev", "sc": [[1, 0, 0], [0, 1, 0], [0, 0, 3]]},
        {"m": 2, "basis": "chebyshev", "sc": [[1, 0, 0], [0, 2, 1], [0, 0, 2]]},
        {"m": 0, "basis": "occupation", "sc": [[0, 1, 0], [2, 0, 0], [0, 0, 1]]},
    ],
    bounds="4 template sites (up to 3 states per site), 8 (thorough 12) combinations of site mapping, representation and supercell (diagonal and not): any occupation with up to 4 "
    "free sites becomes the structure with exactly those species at exactly those positions, and reading it back gives the occupation, with the atoms in 3 different orders",
    max_paths=1500,
)
def roundtrip(ctx, m, basis, sc):
    lat = lattice(ctx, m, basis)
    np_ = __import__("numpy")
    prim, pos, cell = scell(sc)
    n = len(prim)
    allowed = [ALLOWED[m][SITES[p][0]] for p in prim]
    free = [i for i in range(n) if len(allowed[i]) > 1]
    free = free if len(free) <= 4 else [free[k] for k in (0, 1, len(free) // 2, len(free) - 1)]
    st = [ctx.int(f"s{i}", 0, len(allowed[i]) - 1) if i in free else i % len(allowed[i]) for i in range(n)]
    occ_in = [code(basis, len(allowed[i]), st[i]) for i in range(n)]
    B = ctx.mod("kmcpy.structure.basis")
    occ = B.Occupation(occ_in, basis=lat.basis)
    scm = None if sc is None else np_.array(sc)
    s = lat.get_structure_from_occ(occ, sc_matrix=scm) if sc is not None else lat.get_structure_from_occ(occ)
    found = [None] * n
    for site in s:
        j = place(site.frac_coords, pos)
        ctx.check("an atom sits on a template site, one per site", j is not None and found[j] is None)
        if j is not None:
            found[j] = label(site.specie)
    want = [allowed[i][ctx.concrete(st[i]) if i in free else st[i]] for i in range(n)]
    ctx.check("species at every site", [f or "X" for f in found] == want)
    ctx.check("cell", np_.allclose(s.lattice.matrix, cell.matrix))
    ctx.eq_all("occupation untouched", occ.values, occ_in)
    ctx.check("template untouched", len(lat.template_structure) == len(SITES) and [label(x.specie) for x in lat.template_structure] == [x for x, _ in SITES])
    k = ctx.choice("order", [0, 1, 2])
    if len(s):
        ids = list(range(len(s)))
        ids = ids if k == 0 else (ids[::-1] if k == 1 else ids[1:] + ids[:1])
        t = s.__class__(s.lattice, [s[i].specie for i in ids], [s[i].frac_coords for i in ids])
    else:
        t = s
    back = lat.get_occ_from_structure(t) if k != 1 else lat.get_occ_from_structure(t, sc_matrix=scm if scm is not None else np_.eye(3, dtype=int))
    ctx.eq_all("read back", back.values, occ_in)
    if len(t):
        mapping = [place(x.frac_coords, pos) for x in t]
        back = lat.get_occ_from_structure(t, structure_site_mapping=mapping)
        ctx.eq_all("read back with an explicit mapping", back.values, occ_in)


@harness(
    "C20",
    configs=[{"m": m, "axis": a, "span": sp} for m, a, sp in ((0, 0, (-0.3, 0.3)), (1, 0, (0.7, 1.0)), (0, 0, (-0.6, -0.3)), (1, 2, (-1, 1)))],
    thorough=[{"m": m, "axis": 0, "span": sp} for m in (0, 1) for sp in ((-1, -0.7), (0.3, 0.7))],
    bounds="3 atoms, one displaced by any vector along one axis (ranges within a whole cell either way): it counts for the nearest template site if it lies within the tolerance "
    "(0.06 or 0.15), else the structure is refused; two atoms on one site, or a species not allowed there, are refused (equidistant positions and exact tolerance excluded)",
)
def displaced(ctx, m, axis, span):
    lat = lattice(ctx, m)
    i = ctx.choice("which", [0, 2])
    others = [j for j in (0, 1, 2) if j != i]
    d = ctx.real("d", *span)
    tol = ctx.choice("tol", [0.06, 0.15])
    sp = ctx.choice("specie", ["Na", "S"])
    base = [list(SITES[i][1])] + [list(SITES[j][1]) for j in others]
    c = [list(x) for x in base]
    c[0][axis] = c[0][axis] + d
    names = [sp] + [SITES[j][0] for j in others]
    real = structure(names, base, LAT)
    s = SymStructure(ctx, real, c) if ctx.sym else structure(names, c, LAT)
    # which image is nearest, and unambiguously so
    for _, t in SITES:
        x = c[0][axis] - t[axis]
        f = x - ctx.concrete(rint(x))
        ctx.assume(land(f < 0.499, f > -0.499))
    # squared minimum-image fractional distance to each template site
    dist = []
    for _, t in SITES:
        q = 0
        for a in range(3):
            x = c[0][a] - t[a]
            x = x - ctx.concrete(rint(x))
            q = q + x * x
        dist.append(q)
    best = dist[0]
    for q in dist[1:]:
        best = smin(best, q)
    for a in range(len(dist)):
        for b in range(a):
            ctx.assume(lor(dist[a] - dist[b] > 1e-4, dist[b] - dist[a] > 1e-4))
    ctx.assume(lor(best - tol * tol > 1e-4, tol * tol - best > 1e-4))
    hit = [bool(q == best) for q in dist].index(True)
    taken = hit in others
    allowed = ALLOWED[m][SITES[hit][0]]
    fits = bool(best <= tol * tol) and not taken and sp in allowed
    others_fit = all(SITES[j][0] in ALLOWED[m][SITES[j][0]] for j in others)
    r = ctx.run(lat.get_occ_from_structure, s, tol=tol)
    ctx.check("accepted exactly when every atom fits", r.ok == (fits and others_fit))
    if not r.ok:
        ctx.check("ValueError", isinstance(r.exc, ValueError))
        return
    want = []
    for k in range(len(SITES)):
        al = ALLOWED[m][SITES[k][0]]
        if k == hit:
            want.append(al.index(sp))
        elif k in others:
            want.append(al.index(SITES[k][0]))
        else:
            want.append(al.index("X") if "X" in al else (None if len(al) > 1 else 0))
    ctx.check("length", len(r.value) == len(want))
    for k, w in enumerate(want):
        if w is not None:  # a missing atom where no vacancy is allowed has no defined state
            ctx.eq(f"occupation[{k}]", r.value.values[k], w)


@harness(
    "C20",
    configs=[{"sc": None}, {"sc": [[1, 0, 0], [0, 1, 0], [0, 0, 2]]}],
    bounds="any explicit mapping of 2 atoms to sites -1..n, mappings of any length 0..3, occupations of any length n-1..n+1 and any value 0..3: used exactly as given or refused",
)
def explicit(ctx, sc):
    lat = lattice(ctx, 1)
    np_ = __import__("numpy")
    prim, pos, cell = scell(sc)
    n = len(prim)
    allowed = [ALLOWED[1][SITES[p][0]] for p in prim]
    a, b = ctx.int("a", -1, n), ctx.int("b", -1, n)
    kk = ctx.choice("len", [0, 1, 2, 3])
    names = ["K", "O"]
    from pymatgen.core import Structure

    s = Structure(cell, names, [[0.3, 0.3, 0.3], [0.7, 0.7, 0.7]])
    mp = [a, b, 0][:kk]
    r = ctx.run(lat.get_occ_from_structure, s, structure_site_mapping=mp)
    ok = kk == 2
    if ok:
        inside = land(a >= 0, a < n, b >= 0, b < n, a != b)
        okA = lor(*[land(a == j, "K" in allowed[j]) for j in range(n)])
        okB = lor(*[land(b == j, "O" in allowed[j]) for j in range(n)])
        ok = bool(land(inside, okA, okB))
    ctx.check("accepted exactly when valid", r.ok == ok)
    if not r.ok:
        ctx.check("ValueError", isinstance(r.exc, ValueError))
    else:
        ctx.check("length", len(r.value) == n)
        for j in range(n):
            al = allowed[j]
            got = r.value.values[j]
            if "K" in al:
                ctx.eq(f"occupation[{j}]", got, ite(a == j, al.index("K"), al.index("X")))
            elif "O" in al:
                ctx.check(f"occupation[{j}]", implies(b == j, got == al.index("O")))
            else:
                ctx.eq(f"occupation[{j}]", got, 0)
    B = ctx.mod("kmcpy.structure.basis")
    k = ctx.choice("values", [n - 1, n, n + 1])
    v = ctx.int("v", 0, 3)
    site = ctx.choice("site", [0, 1])
    vals = [0] * k
    vals[site] = v
    r = ctx.run(lat.get_structure_from_occ, B.Occupation(vals, basis=lat.basis, validate=False), **({} if sc is None else {"sc_matrix": np_.array(sc)}))
    ctx.check("structure built exactly for a full, valid occupation", iff(r.ok, land(k == n, v < len(allowed[site]))))


@harness(
    "C20",
    configs=[{}],
    bounds="structures whose cell is any scaling 0.5..2.5 of one template axis: accepted exactly as a whole-number supercell (within 0.5 % to either side excluded)",
)
def cells(ctx):
    lat = lattice(ctx, 0)
    f = ctx.real("f", 0.5, 2.5)
    ax = ctx.choice("axis", [0, 1, 2])
    # keep away from the tolerance boundary
    tol = 0.01
    ctx.assume(lor(f <= 0.97, land(f >= 0.9995, f <= 1.0005), land(f >= 1.03, f <= 1.95), land(f >= 1.9995, f <= 2.0005), f >= 2.05))
    k = ite(f < 1.5, 1, 2)
    whole = bool(lor(land(f >= 0.9995, f <= 1.0005), land(f >= 1.9995, f <= 2.0005)))
    kk = ctx.concrete(k)
    rows = [[(float(kk) if i == ax else 1.0) * x for x in r] for i, r in enumerate(LAT)]
    real = structure(["P"], [[0.5 / (kk if ax == 0 else 1), 0.5 / (kk if ax == 1 else 1), 0.0]], rows)
    mat = [[(f if i == ax else 1.0) * x for x in r] for i, r in enumerate(LAT)]
    if ctx.sym:
        s = SymStructure(ctx, real)
        s.lattice.matrix = ctx.array(mat, dtype=float)
    else:
        s = structure(["P"], real.frac_coords.tolist(), mat)
    r = ctx.run(lat.get_occ_from_structure, s)
    ctx.check("accepted exactly for a supercell", r.ok == whole)
    if r.ok:
        ctx.check("number of sites", len(r.value) == len(SITES) * kk)
        prim = [p for p in range(len(SITES)) for _ in range(kk)]
        vals = list(r.value.values)
        _, pos, _ = scell([[kk if i == j == ax else int(i == j) for j in range(3)] for i in range(3)])
        ctx.eq("P where it sits", vals[place(real.frac_coords[0], pos)], 1)
        for j, p in enumerate(prim):
            if SITES[p][0] == "Na":
                ctx.eq(f"Na sites empty[{j}]", vals[j], 1)
    else:
        ctx.check("ValueError", isinstance(r.exc, ValueError))


@harness(
    "C20",
    configs=[{"m": m, "sc": sc} for m in range(3) for sc in ([[2, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 2, 0], [0, 0, 3]])],
    thorough=[{"m": m, "sc": [[1, 1, 0], [0, 2, 0], [0, 0, 2]]} for m in range(3)],
    bounds="a lattice of 4 sites enlarged in place to 8 or 24 (thorough 16) sites: at any site, any state 0..3 means the species of that site, any of 7 species its state, and "
    "anything else is refused",
)
def enlarged(ctx, m, sc):
    lat = lattice(ctx, m)
    np_ = __import__("numpy")
    prim, pos, cell = scell(sc)
    n = len(prim)
    lat.make_supercell(np_.array(sc))
    ctx.check("sites", len(lat.template_structure) == n and len(lat.allowed_species) == n)
    i = ctx.concrete(ctx.int("site", 0, n - 1))
    al = ALLOWED[m][SITES[prim[i]][0]]
    ctx.check("position", place(lat.template_structure[i].frac_coords, pos) == i)
    v = ctx.int("v", 0, 3)
    r = ctx.run(lat.species_for_occupation_value, i, v)
    ctx.check("a state is known exactly when the site has it", iff(r.ok, v < len(al)))
    if r.ok:
        ctx.check("species of the state", lor(*[land(v == k, label(r.value) == x) for k, x in enumerate(al)]))
    x = ctx.choice("specie", ["Na", "X", "K", "Si", "Ge", "O", "S"])
    r = ctx.run(lat.occupation_value_for_species, i, x)
    ctx.check("a species is known exactly when the site allows it", r.ok == (x in al))
    if r.ok:
        ctx.eq("state of the species", r.value, al.index(x))
