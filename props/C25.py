"""Enumerated local environments, NEB endpoints and the fitting data made of them."""
import itertools
import math
import os

from .common import *

LAT = ((6.0, 0, 0), (0, 6.0, 0), (0, 0, 6.0))
SP = ["Na", "Cl", "Si", "Na", "Al", "Si"]
POS = [[0.02, 0.03, 0.05], [0.1, 0.5, 0.8], [0.55, 0.15, 0.3], [0.85, 0.7, 0.1], [0.4, 0.6, 0.6], [0.3, 0.9, 0.45]]
MAP = {"Na": ["Na", "X"], "Cl": ["Cl"], "Si": ["Si", "P"], "Al": ["Al", "Mg", "X"]}
TWO = {"Na": ["Na", "X"], "Cl": ["Cl"], "Si": ["Si", "P"], "Al": ["Al"]}
HOP = {"Na": ["Na", "K", "X"], "Cl": ["Cl"], "Si": ["Na", "X"], "Al": ["Al", "Na", "X"]}
NOX = {"Na": ["Na", "K"], "Cl": ["Cl"], "Si": ["Na", "X"], "Al": ["X", "Na"]}


def lattice(ctx, mapping, basis="chebyshev"):
    L = ctx.mod("kmcpy.structure.lattice_structure").LatticeStructure
    return L(structure(SP, POS, LAT), mapping, basis)


def active(mapping):
    return [i for i, s in enumerate(SP) if len(mapping[s]) > 1]


def near(mapping, origin):
    """(active index, distance) of the images of the active sites around a fractional point."""
    out = []
    for a, p in enumerate(active(mapping)):
        for t in itertools.product((-2, -1, 0, 1, 2), repeat=3):
            d = math.sqrt(sum((6.0 * (x + y - o)) ** 2 for x, y, o in zip(POS[p], t, origin)))
            if d < 5.6:
                out.append((a, d))
    return out


def atoms(s):
    """{position: species} of a structure of the 6-site cell (None where two atoms coincide)."""
    out = {}
    for site in s:
        hit = [i for i, p in enumerate(POS) if all(abs((x - y) - round(x - y)) < 1e-6 for x, y in zip(site.frac_coords, p))]
        k = hit[0] if hit else "elsewhere"
        out[k] = None if k in out else getattr(site.specie, "symbol", str(site.specie))
    return out


def expected(mapping, species):
    """What a structure holds where the active sites hold `species`."""
    act = active(mapping)
    out = {}
    for i, s in enumerate(SP):
        v = species[act.index(i)] if i in act else s
        if v != "X":
            out[i] = v
    return out


def code(basis, k):
    return k if basis == "chebyshev" else 1 - k


WHERE = {"point": (0.5, 0.4, 0.35), "site": 2, "corner": (0.98, 0.95, 0.02)}

CASES = [
    {"where": "point", "vary": None, "counts": None, "basis": "chebyshev", "base": False},
    {"where": "site", "vary": ("Si", "P"), "counts": ("Si", "P"), "basis": "chebyshev", "base": True},
    {"where": "corner", "vary": ("Na", "X"), "counts": ("Na", "Vacancy"), "basis": "occupation", "base": False},
    {"where": "point", "vary": ("Al", "Mg", "X"), "counts": ("Al", "Mg", "X"), "basis": "chebyshev", "base": False},
    {"where": "site", "vary": ("Na", "X", "P"), "counts": None, "basis": "occupation", "base": True},
]


@harness(
    "C25",
    configs=CASES,
    thorough=[{"where": w, "vary": v, "counts": c, "basis": "chebyshev", "base": b} for w in WHERE for b in (False, True)
              for v, c in ((None, None), (None, ("Na", "X", "Si", "P", "Al", "Mg")), (("Si", "P"), ("P", "Si")), (("Na", "X"), None), (("Al", "Mg", "X"), ("X", "Mg", "Al")))],
    bounds="a cubic cell of 5 active sites (one of 3 states) and a fixed one; any cutoff 1..5.5 Angstrom, any demanded composition and result limit: each allowed assignment of the varied sites "
    "exactly once, with its occupation and structure; sites outside keep the base configuration; impossible compositions refused",
    max_paths=3000,
)
def environments(ctx, where, vary, counts, basis, base):
    E = ctx.mod("kmcpy.structure.local_environment_enumerator")
    m = MAP if basis == "chebyshev" else TWO
    L = lattice(ctx, m, basis)
    act = active(m)
    allowed = [m[SP[i]] for i in act]
    c = WHERE[where]
    origin = POS[act[c]] if isinstance(c, int) else c
    images = near(m, origin)
    rc = ctx.real("rc", 1, 5.5)
    for _, d in images:
        ctx.assume(abs(rc - d) > 1e-4)
    cap = ctx.int("cap", 1, 60) if vary and len(vary) < 3 else ctx.choice("cap", [1, 5, 60])
    want = [ctx.int(f"n{i}", 0, 5) for i in range(len(counts))] if counts else None
    state = [0] * len(act)
    kw = {}
    if base:
        state = [ctx.choice(f"b{i}", list(range(len(a)))) for i, a in enumerate(allowed) if i in (0, 3)]
        state = [state[0], 0, 0, state[1]] + [0] * (len(act) - 4)
        full = expected(m, [a[k] for a, k in zip(allowed, state)])
        kw["base_structure"] = structure([full[i] for i in sorted(full)], [POS[i] for i in sorted(full)], LAT)
    if vary:
        kw["variable_species"] = list(vary)
    if counts:
        kw["species_counts"] = dict(zip(counts, want))
    r = ctx.run(E.enumerate_local_environments, L, center=c if isinstance(c, int) else list(c), cutoff=rc, max_results=cap, exclude_center_site=False, **kw)
    reached = sorted(a for a, d in images if bool(d < rc))
    inside = sorted(set(reached))
    choices = {a: [s for s in allowed[a] if vary is None or s in vary] for a in inside}
    sites = [a for a in inside if len(choices[a]) > 1]
    if counts:
        fits = sum(want) == len(sites)
        if not r.ok:
            ctx.check("refused only where the composition does not fit", lnot(fits))
            return
        ctx.check("an impossible composition is refused", fits)
    elif not r.ok:
        ctx.check("enumerated", False)
        return
    todo = []
    for pick in itertools.product(*[choices[a] for a in sites]):
        if counts:
            names = [("X" if s == "Vacancy" else s) for s in counts]
            if any(p not in names for p in pick) or not bool(land(*[n == pick.count(s) for s, n in zip(names, want)])):
                continue
        todo.append(dict(zip(sites, pick)))
    got = r.value
    ctx.check("number of environments", smin(cap, len(todo)) == len(got))
    seen = []
    for g in got:
        mine = {int(k): v for k, v in g.species_by_site.items()}
        ctx.check("an allowed assignment", mine in todo)
        ctx.check("not given twice", mine not in seen)
        seen.append(mine)
        species = [mine.get(a, allowed[a][state[a]]) for a in range(len(act))]
        ctx.check("occupation", [int(v) for v in g.full_occupation.data] == [code(basis, allowed[a].index(s)) for a, s in enumerate(species)])
        ctx.check("structure", atoms(g.structure) == expected(m, species))
        ctx.check("sites of the environment", sorted(g.local_site_indices) == reached)
        ctx.check("local occupation", [int(v) for v in g.local_occupation.data] == [int(g.full_occupation.data[a]) for a in g.local_site_indices])
        ctx.check("varied sites", sorted(g.variable_site_indices) == sites)


@harness(
    "C25",
    configs=[{"order": o} for o in (None, "nasicon_nat_commun_2022")],
    bounds="any cutoff 1..5.5 Angstrom around a point: sites come in the order of the local environment an expansion is built on",
)
def order(ctx, order):
    E = ctx.mod("kmcpy.structure.local_environment_enumerator")
    LL = ctx.mod("kmcpy.structure.local_lattice_structure").LocalLatticeStructure
    c = WHERE["point"]
    rc = ctx.real("rc", 1, 5.5)
    for _, d in near(MAP, c):
        ctx.assume(abs(rc - d) > 1e-4)
    ctx.assume(rc > min(d for _, d in near(MAP, c)) + 0.01)
    got = E.enumerate_local_environments(lattice(ctx, MAP), center=list(c), cutoff=rc, max_results=1, local_site_order=order)
    ref = LL(template_structure=structure(SP, POS, LAT), center=list(c), cutoff=rc, site_mapping=MAP, local_site_order=order)
    ctx.check("order", [int(i) for i in got[0].local_site_indices] == [int(i) for i in ref.site_indices])


def pairs(mapping):
    n = len(active(mapping))
    return [(i, j) for i in range(n) for j in range(n)]


@harness(
    "C25",
    configs=[{"m": "map", "via": "list"}, {"m": "hop", "via": "list"}, {"m": "hop", "via": "full"}, {"m": "nox", "via": "list"}, {"m": "two", "via": "occupation"}, {"m": "hop", "via": "event"}],
    bounds="any occupation of 5 active sites (of 2 or 3 states) and any pair of sites: endpoints differ in exactly one ion, moved from the first to the second site, atoms in the same order; "
    "pairs without a common mobile species or a vacancy are refused",
    max_paths=4000,
)
def endpoints(ctx, m, via):
    E = ctx.mod("kmcpy.structure.local_environment_enumerator")
    mapping = {"map": MAP, "hop": HOP, "nox": NOX, "two": TWO}[m]
    basis = "occupation" if m == "two" else "chebyshev"
    L = lattice(ctx, mapping, basis)
    act = active(mapping)
    allowed = [mapping[SP[i]] for i in act]
    i, j = ctx.choice("pair", pairs(mapping))
    free = [a for a in range(len(act)) if a not in (i, j)][:2] + [i, j]
    occ = []
    for a in range(len(act)):
        k = ctx.int(f"o{a}", 0, len(allowed[a]) - 1) if a in free else 0
        occ.append(code(basis, k))
    given = list(occ)
    if via == "full":
        given = [0] * len(SP)
        for a, p in enumerate(act):
            given[p] = occ[a]
    if via == "occupation":
        given = ctx.mod("kmcpy.structure.basis").Occupation(ctx.array(given, dtype=int), basis=L.basis)
    where = ctx.mod("kmcpy.event").Event(mobile_ion_indices=(i, j), local_env_indices=(0, 1)) if via == "event" else (i, j)
    r = ctx.run(E.generate_neb_endpoint_pair, L, given, where)
    possible = i != j and allowed[i][0] == allowed[j][0] != "X" and "X" in allowed[i] and "X" in allowed[j]
    ctx.check("made exactly for possible hops", r.ok == possible)
    if not r.ok:
        return
    p = r.value
    ion = allowed[i][0]
    rest = [None if a in (i, j) else allowed[a][code(basis, ctx.concrete(occ[a]))] for a in range(len(act))]
    for s, o, at, name in ((p.initial, p.initial_occupation, i, "initial"), (p.final, p.final_occupation, j, "final")):
        species = [(ion if a == at else "X") if a in (i, j) else rest[a] for a in range(len(act))]
        ctx.check(f"{name} occupation", [int(v) for v in o.data] == [code(basis, allowed[a].index(v)) for a, v in enumerate(species)])
        ctx.check(f"{name} structure", atoms(s) == expected(mapping, species))
    ctx.check("one ion moves", len(p.initial) == len(p.final))
    moved = [k for k, (a, b) in enumerate(zip(p.initial, p.final)) if a.specie != b.specie or max(abs(x - y) for x, y in zip(a.frac_coords, b.frac_coords)) > 1e-6]
    ctx.check("exactly one atom differs", len(moved) == 1 and atoms([p.initial[moved[0]]]) == {act[i]: ion} and atoms([p.final[moved[0]]]) == {act[j]: ion})
    ctx.check("hop kept", tuple(p.mobile_ion_indices) == (i, j))
