"""Local environments: which sites, in which order, around which centre."""
import itertools
import math

from .common import *

LAT = {"cubic": ((6.0, 0, 0), (0, 6.0, 0), (0, 0, 6.0)), "skew": ((5.0, 0, 0), (1.5, 5.5, 0), (0.5, -1.0, 6.0))}
SP = ["O", "Na", "Si", "Na", "O", "Si"]
POS = [[0.02, 0.03, 0.05], [0.1, 0.2, 0.92], [0.55, 0.15, 0.3], [0.85, 0.7, 0.1], [0.4, 0.6, 0.6], [0.3, 0.9, 0.45]]
MAP = {"Na": ["Na", "X"], "O": ["O"], "Si": ["Si", "P"]}
ACT = [1, 2, 3, 5]  # primitive indices of the active sites


def cart(lat, f):
    m = LAT[lat]
    return [sum(f[r] * m[r][c] for r in range(3)) for c in range(3)]


def local(ctx, lat, center, cutoff, **kw):
    LL = ctx.mod("kmcpy.structure.local_lattice_structure").LocalLatticeStructure
    s = structure(SP, POS, LAT[lat])
    return LL(template_structure=s, center=center, cutoff=cutoff, site_mapping=MAP, **kw), s


def images(lat, origin):
    """(active index, label, position relative to the origin, distance) of every active site image nearby."""
    out = []
    for a, p in enumerate(ACT):
        for t in itertools.product((-2, -1, 0, 1, 2), repeat=3):
            c = cart(lat, [x + y for x, y in zip(POS[p], t)])
            rel = [x - y for x, y in zip(c, origin)]
            d = math.sqrt(sum(x * x for x in rel))
            if d < 5.2:
                out.append((a, SP[p], rel, d))
    return out


KEYS = {
    "default": (None, ("species",)),
    "paper": ("nasicon_nat_commun_2022", ("element", 0)),
    "zy": ({"name": "mine", "sort_keys": ["cartesian_z", "cartesian_y"]}, (2, 1)),
    "syx": ({"name": "other", "sort_keys": ["species_string", "cartesian_y", "cartesian_x"], "exclude_center_site": True}, ("species", 1, 0)),
}
X = {"Na": 0.93, "Si": 1.90}  # electronegativity: the order of elements


def key(spec, label, rel):
    return tuple(label if k == "species" else X[label] if k == "element" else rel[k] for k in spec)


@harness(
    "C29",
    configs=[{"lat": "cubic", "center": 1, "order": "default"}, {"lat": "cubic", "center": 3, "order": "paper"}, {"lat": "skew", "center": (0.5, 0.5, 0.5), "order": "zy"},
             {"lat": "skew", "center": 2, "order": "syx"}, {"lat": "cubic", "center": (0.55, 0.15, 0.3), "order": "syx"}],
    thorough=[{"lat": la, "center": c, "order": o} for la in LAT for c in (1, 5, (0.1, 0.2, 0.92)) for o in KEYS],
    bounds="any cutoff 1..4.9 Angstrom (away from site distances) around a site or a point of a cubic and a skew cell, 4 orders, centre kept or excluded: the environment is every image of every "
    "mutable site within the cutoff, once, relative to the centre, sorted, under its compact index",
)
def environment(ctx, lat, center, order):
    rc = ctx.real("rc", 1, 4.9)
    given, spec = KEYS[order]
    force = ctx.choice("exclude", [None, True, False])
    origin = cart(lat, POS[center] if isinstance(center, int) else center)
    near = images(lat, origin)
    for _, _, _, d in near:
        ctx.assume(abs(rc - d) > 1e-4)
    excl = force if force is not None else order in ("paper", "syx")
    own = ACT.index(center) if isinstance(center, int) else None
    near = [x for x in near if not (excl and x[3] < 1e-3)]
    if excl and own is not None:
        ctx.assume(land(*[rc < x[3] for x in near if x[0] == own]))  # images of the centre itself: left open
    kw = {} if given is None else {"local_site_order": given}
    if force is not None:
        kw["exclude_center_site"] = force
    r = ctx.run(local, ctx, lat, center if isinstance(center, int) else list(center), rc, **kw)
    count = sum(ite(x[3] < rc, 1, 0) for x in near)
    if not r.ok:
        ctx.check("only an empty environment is refused", count == 0)
        return
    l, s = r.value
    got = [(int(i), site.species_string, [float(c) for c in site.coords]) for i, site in zip(l.site_indices, l.structure)]
    ctx.check("one index per site", len(got) == len(l.structure) == len(l.site_indices))
    ctx.check("number of sites", count == len(got))
    for a, lab, rel, d in near:
        hit = sum(1 for g in got if g[0] == a and g[1] == lab and max(abs(x - y) for x, y in zip(g[2], rel)) < 1e-6)
        ctx.check("present exactly within the cutoff", iff(hit == 1, d < rc))
        ctx.check("never twice", hit <= 1)
    ks = [key(spec, g[1], [round(x, 7) for x in g[2]]) for g in got]
    ctx.check("sorted", ks == sorted(ks))
    ctx.check("template untouched", [x.species_string for x in s] == SP and len(l.template_structure) == 4)


@harness(
    "C29",
    configs=[{}],
    bounds="environments of arbitrary cutoffs 1.5..4.6 (two, independent) around centres of the cubic cell: same identity exactly for the same sites in the same order",
)
def identity(ctx):
    a, b = ctx.real("a", 1.5, 4.6), ctx.real("b", 1.5, 4.6)
    ca = ctx.choice("ca", [1, 3])
    oa, ob = ctx.choice("orders", [("zy", "zy"), ("zy", "syx"), ("syx", "syx")])
    kw = lambda o: {"local_site_order": KEYS[o][0], "exclude_center_site": False}
    for c in (1, ca):
        for _, _, _, d in images("cubic", cart("cubic", POS[c])):
            ctx.assume(land(abs(a - d) > 1e-4, abs(b - d) > 1e-4))
    x, _ = local(ctx, "cubic", 1, a, **kw(oa))
    y, _ = local(ctx, "cubic", ca, b, **kw(ob))
    seq = lambda l: [(s.species_string, [round(float(v), 6) + 0.0 for v in s.coords]) for s in l.structure]
    ctx.check("identity", (x.get_ordered_site_hash() == y.get_ordered_site_hash()) == (seq(x) == seq(y)))
    ctx.check("identity stored", x.local_environment_hash == x.get_ordered_site_hash())


@harness("C29", configs=[{}], bounds="any cutoff 2.5..4.6: centres that are fixed sites or of no known form, unknown orders and keys and the withdrawn exclusion are refused")
def refused(ctx):
    rc = ctx.real("rc", 2.5, 4.6)
    bad = ctx.choice("bad", ["fixed", "float", "order", "key", "species", "type"])
    r = {
        "fixed": lambda: ctx.run(local, ctx, "cubic", 0, rc),
        "float": lambda: ctx.run(local, ctx, "cubic", 1.5, rc),
        "order": lambda: ctx.run(local, ctx, "cubic", 1, rc, local_site_order="unknown"),
        "key": lambda: ctx.run(local, ctx, "cubic", 1, rc, local_site_order={"name": "x", "sort_keys": ["cartesian_w"]}),
        "species": lambda: ctx.run(local, ctx, "cubic", 1, rc, exclude_species=["O"]),
        "type": lambda: ctx.run(local, ctx, "cubic", 1, rc, local_site_order=3),
    }[bad]()
    ctx.check("refused", isinstance(r.exc, (ValueError, TypeError)))


PERM = [(0, 1, 2, 3), (2, 3, 0, 1), (3, 0, 2, 1), (1, 0, 3, 2)]


@harness(
    "C29",
    configs=[{}],
    bounds="environments around each of the equivalent sites of a 2x1x1 arrangement, any cutoff 1.5..4.4: matched to a reference site by site, the distances between matched sites agree and "
    "the site numbers follow; different environments are not matched",
)
def matched(ctx):
    LL = ctx.mod("kmcpy.structure.local_lattice_structure").LocalLatticeStructure
    rc = ctx.real("rc", 1.5, 4.4)
    cell = ((10.0, 0, 0), (0, 7.0, 0), (0, 0, 7.5))
    # two copies of an arrangement, the second one turned by half a turn about z
    base = [("Na", (0.0, 0.0, 0.0)), ("Si", (1.5, 0.4, 0.0)), ("Na", (-0.6, 1.9, 0.3)), ("Si", (0.2, -0.7, 2.1))]
    pts = [(s, p) for s, p in base] + [(s, (5.0 - p[0], 3.5 - p[1], p[2])) for s, p in base]
    perm = ctx.choice("perm", PERM)
    pts = pts[:4] + [pts[4 + i] for i in perm]
    s = structure([x[0] for x in pts], [[x / cell[i][i] for i, x in enumerate(p)] for _, p in pts], cell)
    dist = lambda i, j: s[i].distance(s[j])
    second = 4 + perm.index(0)
    for i in range(8):
        if i != 0:
            ctx.assume(abs(rc - dist(0, i)) > 1e-3)
        if i != second:
            ctx.assume(abs(rc - dist(second, i)) > 1e-3)
    mk = lambda c: LL(template_structure=s, center=c, cutoff=rc, site_mapping={"Na": ["Na", "X"], "Si": ["Si", "P"]}, exclude_center_site=True)
    r, q = ctx.run(mk, 0), ctx.run(mk, second)
    if not (r.ok and q.ok):
        return
    a, b = r.value, q.value
    m = ctx.run(b.match_with_reference, a)
    ctx.check("equivalent", m.ok and bool(a.is_equivalent_to(b)))
    if not m.ok:
        return
    m = m.value
    ctx.check("same sites", sorted(map(int, m.site_indices)) == sorted(map(int, b.site_indices)))
    n = len(a.structure)
    ctx.check("same species", [x.species_string for x in m.structure] == [x.species_string for x in a.structure])
    d = lambda t, i, j: math.dist([float(v) for v in t[i].coords], [float(v) for v in t[j].coords])
    ctx.check("same distances", all(abs(d(a.structure, i, j) - d(m.structure, i, j)) < 1e-3 for i in range(n) for j in range(i)))
    where = {int(i): [float(v) for v in x.coords] for i, x in zip(b.site_indices, b.structure)}
    ctx.check("numbers follow their sites", all(math.dist(where[int(i)], [float(v) for v in x.coords]) < 1e-6 for i, x in zip(m.site_indices, m.structure)))
    ctx.check("original kept", [int(i) for i in b.site_indices] == [int(i) for i in q.value.site_indices])
