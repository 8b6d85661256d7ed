"""Local cluster expansion: value of the expansion and its locality."""
from .common import *

TOPO = [
    ([[[0]], [[0, 1]]], 2),
    ([[[0], [1], [2]], [[0, 1], [1, 2], [0, 2]], [[0, 1, 2]]], 3),
    ([[[2], [0]], [[3, 1], [0, 2]], [[3, 2, 1, 0]]], 4),
]


def _value(clusters, phi):
    out = []
    for orbit in clusters:
        s = 0
        for cl in orbit:
            p = 1
            for site in cl:
                p = p * phi(site)
            s = s + p
        out.append(s)
    return out


@harness(
    "C07",
    configs=[{"topo": t} for t in range(3)],
    bounds="three cluster sets (points to quadruplets, up to 4 environment sites), any binary occupation, arbitrary real "
    "coefficients and constant; environment listed in any of several orders inside a larger state",
)
def occupation_basis(ctx, topo):
    clusters, n = TOPO[topo]
    keci = ctx.reals("keci", len(clusters), -500, 500)
    e0 = ctx.real("e0", -500, 500)
    m = lce(ctx, clusters, keci, e0)
    env = ctx.choice("env", [tuple(range(2, 2 + n)), tuple(reversed(range(2, 2 + n))), tuple(range(3, 2 + n)) + (2,)])
    occ = [ctx.concrete(ctx.int(f"o{i}", 0, 1)) if i >= 2 else ctx.int(f"o{i}", 0, 1) for i in range(2 + n)]
    st = state(ctx, occ)
    ev = make_event(ctx, 0, 1, env)
    got = m.compute(simulation_state=st, event=ev)
    corr = _value(clusters, lambda s: occ[env[s]])
    want = e0
    for c, k in zip(corr, keci):
        want = want + c * k
    ctx.eq("value = constant + sum of coefficient x cluster sum", got, want, rtol=1e-6)
    ctx.eq_all("state unchanged", st.occupations, occ)


@harness(
    "C07",
    configs=[{"topo": 0, "dec": 0}, {"topo": 1, "dec": 0}, {"topo": 1, "dec": 1}, {"topo": 2, "dec": 1}, {"topo": 0, "dec": 1, "q": 6}],
    bounds="decorated (multi-state) expansion: up to 4 environment sites with 2-3 states (2 sites with 5-6), every occupation, symbolic site-function "
    "values and coefficients",
)
def state_basis(ctx, topo, dec, q=3):
    clusters, n = TOPO[topo]
    nb = 2
    feats, basis = [], []
    for j, orbit in enumerate(clusters):
        feats.append(orbit)
        basis.append([[(dec * (i + k)) % nb for k in range(len(cl))] for i, cl in enumerate(orbit)])
    q = [max(q, 3) if i % 2 == 0 else max(q - 1, 2) for i in range(n)]
    table = [[[ctx.real(f"phi{i}_{s}_{b}", -2, 2) for b in range(nb)] for s in range(max(q))] for i in range(n)]
    keci = [ctx.choice(f"k{i}", [0.5, -3.0]) if i else ctx.real("k0", -100, 100) for i in range(len(clusters))]
    m = lce(ctx, feats, keci, 7.0, basis=basis, site_values=table)
    occ = [0, 1] + [ctx.concrete(ctx.int(f"o{i}", 0, q[i] - 1)) for i in range(n)]
    got = m.compute(simulation_state=state(ctx, occ), event=make_event(ctx, 0, 1, tuple(range(2, 2 + n))))
    want = 7.0
    for f, b, k in zip(feats, basis, keci):
        s = 0
        for cl, bl in zip(f, b):
            p = 1
            for site, bi in zip(cl, bl):
                p = p * table[site][occ[2 + site]][bi]
            s = s + p
        want = want + k * s
    ctx.eq("value uses each site's own function of its state", got, want, rtol=1e-6)


@harness(
    "C07",
    configs=[{"topo": t, "reload": r} for t in (0, 1, 2) for r in (False, True)],
    bounds="sites outside the event's environment hold any value: the result never depends on them; the same after writing the "
    "model to its serialised form and back",
)
def locality(ctx, topo, reload):
    clusters, n = TOPO[topo]
    keci = [1.5, -20.0, 300.0][: len(clusters)]
    m = lce(ctx, clusters, keci, 11.0)
    if reload:
        L = ctx.mod("kmcpy.models.local_cluster_expansion").LocalClusterExpansion
        m2 = L.from_dict({"name": "x", "cluster_site_indices": [[[int(i) for i in c] for c in o] for o in m.cluster_site_indices], "basis": m.basis.as_dict()})
        m2.set_parameters({"keci": keci, "empty_cluster": 11.0})
        m = m2
    env = tuple(range(1, 1 + n))
    inner = [ctx.concrete(ctx.int(f"o{i}", 0, 1)) for i in range(n)]
    far1, far2 = ctx.ints("far1", 3, 0, 1), ctx.ints("far2", 3, 0, 1)
    ev = make_event(ctx, 0, 1 + n, env)
    a = m.compute(simulation_state=state(ctx, [far1[0]] + inner + far1[1:]), event=ev)
    b = m.compute(simulation_state=state(ctx, [far2[0]] + inner + far2[1:]), event=ev)
    ctx.eq("remote sites do not matter", a, b)
    want = 11.0
    for c, k in zip(_value(clusters, lambda s: inner[s]), keci):
        want = want + c * k
    ctx.eq("value of the expansion", a, want)


@harness("C07", configs=[{"q": q} for q in (1, 2, 3, 4, 5)], bounds="site functions for 1-5 states: Chebyshev polynomials T1..T(q-1) at equally spaced points")
def site_functions(ctx, q):
    B = ctx.mod("kmcpy.structure.basis")
    b = B.ChebyshevBasis(max_states=max(q, 2))
    v = b.site_basis_values(q)
    nf = b.num_site_basis_functions(q)
    if q == 1:
        ctx.check("single-state site has one constant function", nf == 1 and len(v) == 1)
        ctx.eq("constant", v[0][0], 1.0)
        return
    ctx.check("q-1 functions", nf == q - 1)
    s = ctx.concrete(ctx.int("s", 0, q - 1))
    x = -1.0 + 2.0 * s / (q - 1)
    t0, t1 = 1.0, x
    for k in range(q - 1):
        ctx.eq("Chebyshev recursion", v[s][k], t1)
        t0, t1 = t1, 2 * x * t1 - t0
    ctx.check("state indices are the occupation values", b.state_value(s, q) == s)


@harness("C07", configs=[{}], bounds="no parameters set; no event; no state: refused")
def refuses_incomplete(ctx):
    L = ctx.mod("kmcpy.models.local_cluster_expansion").LocalClusterExpansion
    m = L.from_dict({"name": "x", "cluster_site_indices": [[[0]]], "basis": {"@class": "OccupationBasis", "name": "occupation"}})
    st, ev = state(ctx, [0, 1, ctx.int("o", 0, 1)]), make_event(ctx, 0, 1, (2,))
    ctx.raises("no parameters", m.compute, simulation_state=st, event=ev)
    m.set_parameters({"keci": [1.0], "empty_cluster": 0.0})
    ctx.raises("no event", m.compute, simulation_state=st, event=None)
    ctx.raises("no state", m.compute, simulation_state=None, event=ev)
