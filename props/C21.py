"""Cluster expansions: clusters, their grouping into orbits, and the features computed from them."""
import itertools
import math

from .common import *


def _M(ctx):
    return ctx.mod("kmcpy.structure.cluster")


def line(n):
    return [[2.0 * i, 0.0, 0.0] for i in range(n)]


# reference labels, candidate labels, reference distances
CASES = {
    "aaa": ("AAA", "AAA", {(0, 1): 2.0, (0, 2): 3.0, (1, 2): 3.0}),
    "scalene": ("AAA", "AAA", {(0, 1): 2.0, (0, 2): 3.0, (1, 2): 4.0}),
    "aab": ("AAB", "BAA", {(0, 1): 2.0, (0, 2): 3.0, (1, 2): 2.5}),
    "abba": ("ABBA", "BABA", {(0, 1): 2.0, (2, 3): 2.0, (0, 2): 3.0, (1, 3): 3.0, (0, 3): 4.0, (1, 2): 4.0}),
}
SPEC = {"A": "Na", "B": "Si"}


def cluster(ctx, labels, dist, sites, roles=None):
    n = len(labels)
    m = [[0.0] * n for _ in range(n)]
    for (i, j), d in dist.items():
        m[i][j] = m[j][i] = d
    return _M(ctx).Cluster(site_indices=sites, species=[SPEC[x] for x in labels], coords=line(n), distance_matrix=ctx.array(m, dtype=float), roles=roles), m


@harness(
    "C21",
    configs=[{"case": c, "roles": r} for c, r in (("aaa", False), ("scalene", False), ("aab", False), ("abba", False), ("aaa", True))],
    thorough=[{"case": "abba", "roles": False, "nf": 3}],
    bounds="clusters of 3 and 4 labelled sites against references with and without symmetry: any candidate distances 1.5..4.5 (3 free ones; of 4 sites 2, thorough 3), except within a hair of the "
    "tolerance; whether a matching order exists, is unique, and which is nearest",
    max_paths=6000,
)
def matching(ctx, case, roles, nf=2):
    M = _M(ctx)
    rl, cl, dist = CASES[case]
    rr = ["x", "y", "x"] if roles else None
    cr = ["y", "x", "x"] if roles else None
    ref, R = cluster(ctx, rl, dist, [4, 1, 8, 6][: len(rl)], rr)
    n = len(cl)
    pairs = list(itertools.combinations(range(n), 2))
    free = pairs[:nf] if n == 4 else pairs
    cd = {p: ctx.real(f"d{p[0]}{p[1]}", 1.5, 4.5) for p in free}
    if n == 4:  # the others as in the reference under one matching order (0->1, 1->0, 2->2, 3->3)
        cd = {**{(0, 1): 2.0, (0, 2): 4.0, (0, 3): 3.0, (1, 2): 3.0, (1, 3): 4.0, (2, 3): 2.0}, **cd}
    for v in set(dist.values()):
        for c in cd.values():
            ctx.assume(lor(abs(c - v) < 0.0009, abs(c - v) > 0.008))
    idx = [7, 5, 9, 2][:n]
    cand, C = cluster(ctx, cl, cd, idx, cr)
    lab = lambda l, r: list(zip(l, r or [""] * n))
    a, b = lab(rl, rr), lab(cl, cr)
    perms = [p for p in itertools.permutations(range(n)) if all(a[i] == b[p[i]] for i in range(n))]
    close = lambda p: land(*[abs(R[i][j] - C[p[i]][p[j]]) < 0.005 for i, j in pairs])
    good = [close(p) for p in perms]
    count = sum(ite(g, 1, 0) for g in good)
    near, uniq = ctx.choice("mode", [(False, False), (False, True), (True, False)])
    if near:
        r = ctx.run(M.ClusterMatcher(ref).match, cand, find_nearest_if_fail=True)
    elif uniq:
        r = ctx.run(M.match_clusters, ref, cand, require_unique=True)
    else:
        r = ctx.run(M.match_clusters, ref, cand)
    ctx.check("found exactly when it exists", iff(r.ok, True if near else (count == 1 if uniq else count >= 1)))
    if not r.ok:
        ctx.check("ValueError", isinstance(r.exc, ValueError))
        return
    m = r.value
    p = tuple(int(x) for x in m.reference_to_candidate)
    ctx.check("a label-preserving order", p in perms)
    ctx.check("inverse", [int(m.candidate_to_reference[p[i]]) for i in range(n)] == list(range(n)))
    ctx.check("site indices in that order", [int(x) for x in m.ordered_candidate_indices] == [idx[x] for x in p])
    ctx.check("distances agree whenever some order does", implies(count >= 1, close(p)))
    ctx.check("uniqueness", implies(count >= 1, iff(m.is_unique, count == 1)))
    if near:
        dev = lambda q: sum(abs(R[i][j] - C[q[i]][q[j]]) for i, j in pairs)
        for q in perms:
            ctx.check("nearest order", implies(count == 0, dev(p) <= dev(q) + 1e-9))


@harness("C21", configs=[{}], bounds="clusters that differ in labels, roles or number of sites are never matched, whatever their distances")
def labels(ctx):
    M = _M(ctx)
    d = {p: ctx.real(f"d{p[0]}{p[1]}", 1.5, 4.5) for p in ((0, 1), (0, 2), (1, 2))}
    conc = {(0, 1): 2.0, (0, 2): 3.0, (1, 2): 3.5}
    ref, _ = cluster(ctx, "AAB", conc, [0, 1, 2])
    which = ctx.choice("which", ["abb", "role", "more", "fewer"])
    if which == "abb":
        c, _ = cluster(ctx, "ABB", d, [0, 1, 2])
    elif which == "role":
        c, _ = cluster(ctx, "AAB", d, [0, 1, 2], ["", "end", ""])
    elif which == "more":
        c, _ = cluster(ctx, "AABA", {**conc, (0, 3): d[(0, 1)], (1, 3): d[(0, 2)], (2, 3): 3.0}, [0, 1, 2, 3])
    else:
        c, _ = cluster(ctx, "AA", {(0, 1): d[(0, 1)]}, [0, 1])
    ctx.raises("refused", M.match_clusters, ref, c, exc=ValueError)
    ctx.raises("refused even when the nearest is asked for", M.match_clusters, ref, c, find_nearest_if_fail=True, exc=ValueError)
    ctx.check("not equal", not bool(ref == c))


# name -> sites around the centre (fractional in the 10 Angstrom cell)
GEOMS = {
    "cross": [("Na", (0.0, 0.0, 0.0)), ("Si", (0.2, 0.0, 0.0)), ("Si", (-0.2, 0.0, 0.0)), ("Si", (0.0, 0.2, 0.0)), ("Si", (0.0, -0.2, 0.0))],
    "mixed": [("Na", (0.0, 0.0, 0.0)), ("Si", (0.2, 0.0, 0.0)), ("Na", (-0.2, 0.0, 0.0)), ("Si", (0.0, 0.2, 0.0)), ("Si", (0.0, 0.0, 0.3))],
    "generic": [("Na", (0.0, 0.0, 0.0)), ("Si", (0.21, 0.0, 0.0)), ("Si", (-0.1, 0.2, 0.0)), ("Na", (0.0, -0.25, 0.05)), ("Na", (0.05, 0.02, 0.3))],
}


def congruent(s, a, b):
    """Whether clusters a and b (site numbers) carry the same labels at the same distances."""
    if len(a) != len(b):
        return False
    lab = [s[i].species_string for i in a]
    D = lambda i, j: s[int(i)].distance(s[int(j)]) if not hasattr(s, "lattice") else math.dist(s[int(i)].coords, s[int(j)].coords)
    return any(
        [s[i].species_string for i in p] == lab and all(abs(D(a[i], a[j]) - D(p[i], p[j])) < 0.005 for i in range(len(a)) for j in range(i))
        for p in itertools.permutations(b)
    )


@harness(
    "C21",
    configs=[{"geom": g, "center": c} for g in GEOMS for c in ("site", "point")][:5],
    thorough=[{"geom": "generic", "center": "point"}],
    bounds="expansions over 4 and 5 sites in three arrangements, any three cluster cutoffs 0.5..7 Angstrom (away from cluster sizes): each cluster of 1 to 4 sites below its cutoff "
    "belongs to exactly one orbit, clusters share an orbit exactly when congruent",
)
def orbits(ctx, geom, center):
    from .C23 import built

    cuts = [ctx.real(f"cut{k}", 0.5, 7) for k in (2, 3, 4)]
    sites = GEOMS[geom]
    m, lls = built(ctx, "occupation", cutoff=3.2, sites=sites, cuts=cuts, center=0 if center == "site" else [0.0, 0.0, 0.0])
    s = lls.structure
    n = len(s)
    if n != len(sites) - (center == "site" and lls.local_site_order.exclude_center_site):
        ctx.fail("environment")
    pos = [[float(x) for x in site.coords] for site in s]
    for k in (2, 3, 4):
        for c in itertools.combinations(range(n), k):
            size = max(math.dist(pos[i], pos[j]) for i, j in itertools.combinations(c, 2))
            ctx.assume(abs(cuts[k - 2] - size) > 1e-6)
    got = [[tuple(sorted(int(i) for i in c.site_indices)) for c in o.clusters] for o in m.orbits]
    flat = [c for o in got for c in o]
    ctx.check("no cluster twice", len(set(flat)) == len(flat))
    for k in (1, 2, 3, 4):
        for c in itertools.combinations(range(n), k):
            size = max([0.0] + [math.dist(pos[i], pos[j]) for i, j in itertools.combinations(c, 2)])
            ctx.check(f"{k}-site cluster present exactly below its cutoff", iff(c in flat, True if k == 1 else cuts[k - 2] > size))
    for o in got:
        for c in o[1:]:
            ctx.check("congruent clusters in an orbit", congruent(s, o[0], c))
    for o, q in itertools.combinations(got, 2):
        ctx.check("different orbits are not congruent", not congruent(s, o[0], q[0]))
    ctx.check("multiplicity", [int(o.multiplicity) for o in m.orbits] == [len(o) for o in got])
    ctx.check("features are the orbits", [[tuple(sorted(int(i) for i in c)) for c in o] for o in m.cluster_site_indices] == got)
    fp = m.get_orbit_fingerprints()
    ctx.check("one identity per orbit", len(fp) == len(got) and len(set(fp)) == len(fp))


@harness(
    "C21",
    configs=[{"basis": "occupation", "cell": 1}, {"basis": "chebyshev", "cell": 1}, {"basis": "chebyshev", "cell": 3}],
    bounds="every occupation of the 4 environment sites (two, and mixed two and three states): the features read from the structure of that occupation, in any of 3 atom orders, give with any "
    "coefficients the value computed from the occupation",
)
def features(ctx, basis, cell):
    from .C23 import SITES, built, energies

    mapping = {"Na": ["Na", "X"], "Si": ["Si", "P", "Al"] if cell == 3 else ["Si", "P"]}
    sites = SITES + [("O", (0.5, 0.5, 0.5))]
    mapping["O"] = ["O"]
    m, lls = built(ctx, basis, sites=sites, mapping=mapping, center=[0.02, 0.01, 0.0])
    occ = [ctx.choice(f"o{i}", list(range(len(mapping[sites[i][0]])))) for i in range(4)]
    names = [mapping[sites[i][0]][occ[i]] for i in range(4)] + ["O"]
    order = ctx.choice("order", [(0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (2, 0, 4, 1, 3)])
    keep = [i for i in order if names[i] != "X"]
    s = structure([names[i] for i in keep], [sites[i][1] for i in keep])
    o, c = m.get_occ_corr_from_structure(s)
    n = len(m.cluster_site_indices)
    k = ctx.reals("k", n, -99, 99)
    e0 = ctx.real("e0", -99, 99)
    m.set_parameters({"keci": k, "empty_cluster": e0, "orbit_fingerprints": m.get_orbit_fingerprints(), "local_environment_hash": m.local_environment_hash})
    c2 = m.get_corr_from_structure(s)
    env = tuple(int(i) for i in lls.site_indices)
    got = energies(m, ctx, occ if basis == "chebyshev" else [int(v) for v in o.data], env)
    ctx.eq("value of the structure's features", e0 + sum(x * y for x, y in zip(k, [float(v) for v in c])), got, rtol=1e-6)
    ctx.eq_all("features alone", [float(v) for v in c2], [float(v) for v in c], rtol=1e-9)
