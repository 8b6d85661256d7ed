"""Composite rates: Arrhenius law, microscopic reversibility, zero when the hop is impossible."""
from .common import *

CL = [[[0], [1], [2]], [[0, 1], [1, 2]]]


def _kra_value(occ, keci, empty):
    a, b, c = occ
    return empty + keci[0] * (a + b + c) + keci[1] * (a * b + b * c)


def _setup(ctx, kind):
    """kra model, site model, function giving the site energy change for direction +1 / -1."""
    kk = ctx.reals("keci", 2, -4000, 4000)
    ke = ctx.real("ekra0", -4000, 9000)
    kra = lce(ctx, CL, kk, ke)
    env = [ctx.concrete(ctx.int(f"env{i}", 0, 1)) for i in range(3)]
    ekra = _kra_value(env, kk, ke)
    if kind == "none":
        return kra, None, env, ekra, lambda d: 0
    if kind == "lce":
        sk = ctx.reals("skeci", 2, -4000, 4000)
        s0 = ctx.real("s0", -4000, 4000)
        site = lce(ctx, CL, sk, s0)
        v = _kra_value(env, sk, s0)
        return kra, site, env, ekra, lambda d: d * v
    de = ctx.real("de", -9, 9)
    unit = "eV" if kind == "ev" else "meV"
    S = ctx.mod("kmcpy.models.site_energy").SiteEnergyModel
    # energy of the ion on site 0 minus that on site 1 is de: moving 0 -> 1 costs -de... as seen by the external code
    site = S(compute_fn=lambda event, simulation_state, changes: sum((c.new_state - c.old_state) * de for c in changes if c.kmcpy_site == 0), units=unit)
    return kra, site, env, ekra, lambda d: d * de * (1000 if unit == "eV" else 1)


@harness(
    "C05",
    configs=[{"kind": k, "d": d} for k in ("none", "lce", "ev", "mev") for d in (1, -1)],
    bounds="one event with 3 environment sites (all occupations), both hop directions, real expansion coefficients up to 4 eV with |E| <= 80 kT, "
    "site energy, attempt frequency and temperature 300/1000 K; site term absent, expansion, or external in eV/meV",
)
def rate_law(ctx, kind, d):
    C = ctx.mod("kmcpy.models.composite_lce_model").CompositeLCEModel
    kra, site, env, ekra, dE = _setup(ctx, kind)
    T = ctx.choice("T", [300.0, 1000.0])
    v = ctx.real("v", 0, None)
    e = ekra + dE(d) / 2
    ctx.assume(land(e <= 80 * KB * T, -e <= 80 * KB * T))
    m = C(site_model=site, kra_model=kra)
    occ = ([0, 1] if d == 1 else [1, 0]) + env
    ev = make_event(ctx, 0, 1, (2, 3, 4))
    st = state(ctx, occ)
    r = m.compute_probability(event=ev, runtime_config=RC(T, v), simulation_state=st)
    ctx.eq("rate = v exp(-(E_KRA + dE/2)/kT)", r, v * ctx.exp(-(ekra + dE(d) / 2) / (KB * T)), rtol=1e-6, atol=1e-300)
    ctx.check("rate is never negative", r >= 0)
    ctx.eq_all("state is not changed by evaluating a rate", st.occupations, occ)


@harness(
    "C05",
    configs=[{"kind": "lce"}, {"kind": "mev"}],
    bounds="as above with symbolic temperature in [0.01, 1e5] K and energies up to 12 eV with |E| <= 80 kT: Arrhenius exponent for any temperature",
)
def any_temperature(ctx, kind):
    C = ctx.mod("kmcpy.models.composite_lce_model").CompositeLCEModel
    k0, s0 = ctx.real("k0", -2000, 12000), ctx.real("s0", -8000, 8000)
    kra = lce(ctx, [[[0]]], [0.0], k0)
    if kind == "lce":
        site = lce(ctx, [[[0]]], [0.0], s0)
    else:
        site = ctx.mod("kmcpy.models.site_energy").SiteEnergyModel(compute_fn=lambda event, simulation_state: s0, units="meV")
    T = ctx.real("T", 0, 1.0e5, lo_open=True)
    ctx.assume(T >= 0.01)
    m = C(site_model=site, kra_model=kra)
    d = ctx.choice("d", [1, -1])
    st = state(ctx, [0, 1, 0] if d == 1 else [1, 0, 0])
    sign = d if kind == "lce" else 1
    e = k0 + sign * s0 / 2
    ctx.assume(land(e <= 80 * KB * T, -e <= 80 * KB * T))
    r = m.compute_probability(event=make_event(ctx, 0, 1, (2,)), runtime_config=RC(T, 1.0), simulation_state=st)
    want = ctx.exp(-(k0 + sign * s0 / 2) / (KB * T))
    ctx.eq("rate follows the Arrhenius law at any temperature", r, want, rtol=1e-6, atol=1e-300)


@harness(
    "C05",
    configs=[{"kind": k} for k in ("none", "lce", "ev")],
    bounds="one event, 3 environment sites, arbitrary coefficients: rate of the hop and of the reverse hop from the state it leads "
    "to, 300 K",
)
def reversibility(ctx, kind):
    C = ctx.mod("kmcpy.models.composite_lce_model").CompositeLCEModel
    kra, site, env, ekra, dE = _setup(ctx, kind)
    m = C(site_model=site, kra_model=kra)
    ev = make_event(ctx, 0, 1, (2, 3, 4))
    rc = RC(300.0, 1.0e13)
    st = state(ctx, [0, 1] + env)
    for e in (ekra, dE(1)):
        ctx.assume(land(e <= 80 * KB * 300, -e <= 80 * KB * 300))
    m.initialize_state(simulation_state=st)
    f = m.compute_probability(event=ev, runtime_config=rc, simulation_state=st)
    st.apply_event(ev, 1.0)
    m.apply_event(event=ev, simulation_state=st)
    b = m.compute_probability(event=ev, runtime_config=rc, simulation_state=st)
    q = ctx.exp(-dE(1) / (KB * 300.0))
    ctx.exp_products()
    if ctx.sym:
        ctx.eq("forward/backward = exp(-dE/kT)", f, b * q)
    else:
        ctx.eq("forward/backward = exp(-dE/kT)", f, b * q, rtol=1e-6, atol=1e-300)


@harness(
    "C05",
    configs=[{"codes": c} for c in (None, ((0, 1, 2), (1, 0, 1)), ((2, 0, 0), (0, 2, 1)))],
    bounds="any occupation 0..2 of 2 endpoints and 1 environment site, default or per-site encodings: rate positive exactly when one "
    "endpoint holds the ion and the other is vacant",
)
def zero_when_unavailable(ctx, codes):
    C = ctx.mod("kmcpy.models.composite_lce_model").CompositeLCEModel
    called = []
    site = ctx.mod("kmcpy.models.site_energy").SiteEnergyModel(compute_fn=lambda event, simulation_state: called.append(1) or 50.0, units="meV")
    m = C(site_model=site, kra_model=lce(ctx, [[[0]]], [5.0], 300.0))
    ev = make_event(ctx, 0, 1, (2,))
    mob, vac = (0, 0), (1, 1)
    if codes:
        mob, vac = codes
        lookup(ctx, mob, vac).annotate_event(ev)
    occ = ctx.ints("occ", 3, 0, 2)
    r = m.compute_probability(event=ev, runtime_config=RC(300.0, 1.0e13), simulation_state=state(ctx, occ))
    can = lor(land(occ[0] == mob[0], occ[1] == vac[1]), land(occ[0] == vac[0], occ[1] == mob[1]))
    ctx.check("rate is zero when the hop is impossible", implies(lnot(can), r == 0))
    ctx.check("rate is positive when the hop is possible", implies(can, r > 0))


@harness(
    "C05",
    configs=[{"kind": k} for k in ("none", "lce")],
    bounds="one model asked three times about two events with 3 environment sites, any coefficients up to 4 eV, any occupations, changing temperature (300, 700 K), attempt frequency and "
    "direction between the questions: every answer follows the law for its own question",
)
def asked_again(ctx, kind):
    C = ctx.mod("kmcpy.models.composite_lce_model").CompositeLCEModel
    kk = ctx.reals("keci", 3, -1000, 1000)
    sk = ctx.reals("skeci", 3, -1000, 1000)
    terms = [[[0]], [[1]], [[2]]]
    m = C(site_model=lce(ctx, terms, sk, 10.0) if kind == "lce" else None, kra_model=lce(ctx, terms, kk, 300.0))
    ev = [make_event(ctx, 0, 1, (2, 3, 4)), make_event(ctx, 1, 0, (4, 2, 3))]
    first = [ctx.concrete(ctx.int(f"a{i}", 0, 1)) for i in range(3)]
    second = [ctx.concrete(ctx.int(f"b{i}", 0, 1)) for i in range(3)]
    v = ctx.real("v", 1, 1.0e14)
    swap = ctx.choice("swap", [False, True])
    for q, (e, env, T, f, ends) in enumerate((
        (0, first, 300.0, 1.0, (0, 1)),
        (0, second, 300.0, v, (1, 0) if swap else (0, 1)),
        (1, first, 700.0, v, (0, 1)),
    )):
        occ = list(ends) + env
        d = 1 if (ends == (0, 1)) == (e == 0) else -1
        loc = [occ[i] for i in ev[e].local_env_indices]
        E = 300.0
        for i in range(3):
            E = E + kk[i] * loc[i]
        if kind == "lce":
            D = 10.0
            for i in range(3):
                D = D + sk[i] * loc[i]
            E = E + d * D / 2
        ctx.assume(land(E <= 80 * KB * T, -E <= 80 * KB * T))
        r = m.compute_probability(event=ev[e], runtime_config=RC(T, f), simulation_state=state(ctx, occ))
        ctx.eq(f"answer {q + 1}", r, f * ctx.exp(-E / (KB * T)), rtol=1e-6, atol=1e-300)
