"""Hop direction: which endpoint holds the mobile ion, in each site's own encoding."""
from .common import *

LABELS = ["Na", "X", "K", "Vacancy", "Va", "VA", "vacancy", "Si", "N", "Kr"]
VAC = {"X", "Vacancy", "vacancy", "Va", "VA"}


def aso(ctx, allowed, to_prim, shape=(1, 1, 1)):
    A = ctx.mod("kmcpy.structure.active_site_order").ActiveSiteOrder
    active = tuple(i for i, a in enumerate(allowed) if len(a) > 1)
    n = len(to_prim)
    return A(
        primitive_site_count=len(allowed),
        original_site_count=n,
        primitive_active_indices=active,
        active_to_original=tuple(range(n)),
        active_to_primitive=tuple(to_prim),
        fixed_original_indices=(),
        supercell_shape=shape,
        species_by_primitive_site=tuple(a[0] for a in allowed),
        allowed_species_by_primitive_site=tuple(tuple(a) for a in allowed),
        fingerprint="f",
    )


@harness(
    "C06",
    configs=[{"q": 2}, {"q": 3}],
    bounds="one primitive site with 2-3 allowed labels, each any of 10 labels (five vacancy spellings, labels that begin alike); any mobile species; two "
    "further sites with fixed mappings; active sites refer to the primitive sites in any order",
)
def table_from_mapping(ctx, q):
    E = ctx.mod("kmcpy.event")
    lab = []
    for i in range(q):
        lab.append(ctx.choice(f"l{i}", [x for x in (LABELS if i < 2 else ["Na", "X", "Si"]) if x not in lab]))
    if sum(x in VAC for x in lab) > 1:
        return  # two spellings of the vacancy on one site: not a mapping kMCpy produces
    allowed = [lab, ["X", "Na"], ["O"], ["K", "Na", "X"]]
    mobile = ctx.choice("mobile", ["Na", "K"])
    prim = ctx.choice("prim", [(0, 1, 3), (3, 0, 1), (1, 3, 0), (0, 0, 3)])
    t = E.HopStateLookup.from_active_site_order(aso(ctx, allowed, prim), mobile)
    ctx.check("one entry per active site", len(t.mobile_state_by_site) == 3 and len(t.vacancy_state_by_site) == 3)
    for a, p in enumerate(prim):
        sp = allowed[p]
        m = [i for i, x in enumerate(sp) if x == mobile]
        v = [i for i, x in enumerate(sp) if x in VAC]
        ctx.check("mobile state is the index of the mobile species in the site's own mapping", int(t.mobile_state_by_site[a]) == (m[0] if m else E.INVALID_STATE))
        ctx.check("vacancy state is the index of the vacancy in the site's own mapping", int(t.vacancy_state_by_site[a]) == (v[0] if v else E.INVALID_STATE))


@harness(
    "C06",
    configs=[{"ends": e} for e in ((0, 1), (2, 0), (1, 2))],
    thorough=[{"ends": e, "kmax": 4} for e in ((0, 1), (2, 1))],
    bounds="3 sites, any mobile/vacancy codes in -1..3 (-1 = the site cannot hold it; thorough -1..4), any occupation in 0..3: "
    "direction of an annotated event",
)
def direction(ctx, ends, kmax=3):
    E = ctx.mod("kmcpy.event")
    mob, vac = ctx.ints("mob", 3, -1, kmax), ctx.ints("vac", 3, -1, kmax)
    for m, v in zip(mob, vac):
        ctx.assume(lor(m != v, m == -1))
    occ = ctx.ints("occ", 3, 0, kmax)
    a, b = ends
    ev = make_event(ctx, a, b)
    lib = event_lib(ctx, [make_event(ctx, b, a), ev], deps=False)
    lookup(ctx, mob, vac).annotate_event_lib(lib)
    for e, s in ((ev, 1), (lib.events[0], -1)):
        d = E.event_direction(occ, e)
        fwd = land(occ[a] == mob[a], occ[b] == vac[b])
        bwd = land(occ[a] == vac[a], occ[b] == mob[b])
        ctx.check("forward exactly when the first endpoint holds the ion and the second is vacant", iff(d == s, fwd))
        ctx.check("backward exactly in the mirrored case", iff(d == -s, bwd))
        ctx.check("no other outcome", lor(d == 1, d == -1, d == 0))


@harness("C06", configs=[{}], bounds="event without annotation, any occupation 0..3 of both endpoints: state 0 is the ion, 1 the vacancy")
def default_direction(ctx):
    E = ctx.mod("kmcpy.event")
    occ = ctx.ints("occ", 2, 0, 3)
    d = E.event_direction(occ, make_event(ctx, 0, 1))
    ctx.check("forward", iff(d == 1, land(occ[0] == 0, occ[1] == 1)))
    ctx.check("backward", iff(d == -1, land(occ[0] == 1, occ[1] == 0)))


@harness(
    "C06",
    configs=[{}],
    bounds="KMC built with a lookup table: 2 events, any codes in 0..2, any occupation, events annotated before with another table or not: availability seen by "
    "a rate model is the one of the table",
)
def simulation_uses_table(ctx):
    mob, vac = ctx.ints("mob", 3, 0, 2), ctx.ints("vac", 3, 0, 2)
    for m, v in zip(mob, vac):
        ctx.assume(m != v)
    occ = ctx.ints("occ", 3, 0, 2)
    evs = [make_event(ctx, 0, 1), make_event(ctx, 2, 1)]
    lib = event_lib(ctx, evs)
    m = ctx.mod("kmcpy.models.local_barrier_model").LocalBarrierModel.constant_barrier(100.0)
    if ctx.choice("before", [False, True]):
        lookup(ctx, [2, 1, 0], [1, 0, 2]).annotate_event_lib(lib)  # an earlier use of the library with another table
    k = kmc(ctx, m, lib, occ, hop_lookup=lookup(ctx, mob, vac))
    for ev in evs:
        a, b = ev.mobile_ion_indices
        r = m.compute_probability(event=ev, runtime_config=k.config.runtime_config, simulation_state=k.simulation_state)
        can = lor(land(occ[a] == mob[a], occ[b] == vac[b]), land(occ[a] == vac[a], occ[b] == mob[b]))
        ctx.check("an event has a rate exactly when its endpoints hold one ion and one vacancy", iff(r > 0, can))
