"""Local barrier rules: first match wins, site selection, counting, Arrhenius rate."""
from .common import *


def _cls(ctx):
    return ctx.mod("kmcpy.models.local_barrier_model").LocalBarrierModel


def total(conds):
    s = 0
    for c in conds:
        s = s + ite(c, 1, 0)
    return s


SP = {2: {0: "P", 1: "Si", 2: "Al"}, 3: {0: "Si", 1: "P", 2: "P"}, 4: {0: "P", 1: "Al", 2: "Si"}}


def rule(ctx, kind, i, occ, ev):
    """-> (rule dict, condition on the state)."""
    env = ev.local_env_indices
    bar = ctx.real(f"bar{i}", -5000, 15000)
    d = {"properties": {"barrier": bar}, "name": f"r{i}"}
    if kind == "exact":
        want = [0, ctx.int(f"want{i}", 0, 2), 1, 2, ctx.int(f"wantb{i}", 0, 1)]
        d.update(type="exact", mobile_ion_indices=[0, 1], local_env_indices=list(env), occupations=want)
        sites = [0, 1] + list(env)
        return d, land(*[occ[s] == w for s, w in zip(sites, want)]), bar
    if kind == "exact_other":
        d.update(type="exact", mobile_ion_indices=[1, 0], local_env_indices=list(env), occupations=[0, 1, 0, 0, 0])
        return d, False, bar
    if kind == "pattern":
        p = [ctx.choice(f"w{i}", ["*", 0, "vacant"]), "*", ctx.int(f"want{i}", 0, 2), "*", 1]
        d.update(type="pattern", pattern=p)
        sites = [0, 1] + list(env)
        val = {"vacant": 1}
        return d, land(*[occ[s] == val.get(w, w) for s, w in zip(sites, p) if not (isinstance(w, str) and w == "*")]), bar
    if kind == "state":
        st = ctx.int(f"st{i}", 0, 1)
        lo, hi = ctx.int(f"lo{i}", 0, 2), ctx.int(f"hi{i}", 0, 3)
        d.update(type="state_count", state=st, min_count=lo, max_count=hi)
        n = total(occ[s] == st for s in env)
        return d, land(n >= lo, n <= hi), bar
    if kind == "count":
        c = ctx.int(f"c{i}", 0, 3)
        d.update(type="state_count", occupation="occupied", count=c, sites=[4, 0, 2])
        return d, total(occ[s] == 0 for s in (4, 0, 2)) == c, bar
    if kind == "species":
        lo = ctx.int(f"lo{i}", 0, 3)
        which = ctx.choice(f"sp{i}", ["Si", ["Si", "Al"]])
        d.update(type="species_count", species=which, min_count=lo)
        names = {which} if isinstance(which, str) else set(which)
        n = total(lor(*[occ[s] == k for k, x in SP[s].items() if x in names] or [False]) for s in env)
        return d, n >= lo, bar
    if kind == "constant_here":
        d.update(type="constant", mobile_ion_indices=[0, 1])
        return d, True, bar
    if kind == "constant_elsewhere":
        d.update(type="constant", local_env_indices=[2, 3])
        return d, False, bar
    raise AssertionError(kind)


KINDS = [
    ("exact", "count", "pattern"),
    ("exact_other", "pattern", "count"),
    ("species", "constant_elsewhere", "state"),
    ("count", "species", "constant_here"),
    ("pattern", "constant_here", "state"),
    ("constant_elsewhere", "state", "exact"),
]


@harness(
    "C08",
    configs=[{"kinds": k, "default": i % 2 == 0} for i, k in enumerate(KINDS)],
    thorough=[{"kinds": k, "default": i % 2 == 1} for i, k in enumerate(KINDS)] + [{"kinds": k[::-1], "default": True} for k in KINDS],
    bounds="3 rules of every type in 6 (thorough 18) orders; symbolic barriers, thresholds and states; any occupation 0..2 of 5 sites; with and "
    "without default",
)
def first_match(ctx, kinds, default):
    ev = make_event(ctx, 0, 1, (3, 2, 4))
    occ = ctx.ints("occ", 5, 0, 2)
    rules, conds, bars = [], [], []
    for i, k in enumerate(kinds):
        d, c, b = rule(ctx, k, i, occ, ev)
        rules.append(d)
        conds.append(c)
        bars.append(b)
    dflt = ctx.real("default", -5000, 15000)
    m = _cls(ctx)(rules=rules, site_species=SP, **({"default_barrier": dflt} if default else {}))
    o = ctx.run(m.compute, simulation_state=state(ctx, occ), event=ev)
    if not default:
        ctx.check("without default the value exists exactly when a rule matches", iff(o.ok, lor(*conds)))
        if not o.ok:
            ctx.check("no match is a KeyError", isinstance(o.exc, KeyError))
            return
    want = dflt
    for c, b in reversed(list(zip(conds, bars))):
        want = ite(c, b, want)
    ctx.check("evaluates", o.ok)
    ctx.eq("value of the first matching rule", o.value, want)


SEL = {
    "local_env": lambda m, e: list(e),
    "mobile_ion": lambda m, e: list(m),
    "from": lambda m, e: [m[0]],
    "to": lambda m, e: [m[1]],
    "canonical": lambda m, e: list(dict.fromkeys(list(m) + list(e))),
    "all": lambda m, e: list(range(5)),
    (4, 1): lambda m, e: [4, 1],
    None: lambda m, e: list(e),
}


@harness(
    "C08",
    configs=[{"sel": s} for s in SEL],
    max_paths=9000,
    bounds="each site selector on events whose environment overlaps the endpoints, is unordered, empty or names one site twice (periodic images); any occupation 0..2 of 5 "
    "sites, symbolic counted state and threshold",
)
def selectors(ctx, sel):
    ends, env = ctx.choice("ev", [((3, 1), (1, 4, 0)), ((0, 2), ()), ((1, 0), (4, 3, 2)), ((0, 1), (3, 2, 3))])
    ev = make_event(ctx, *ends, env)
    occ = ctx.ints("occ", 5, 0, 2)
    st, lo = ctx.int("st", 0, 2), ctx.int("lo", 0, 5)
    d = {"type": "state_count", "state": st, "min_count": lo, "barrier": 400.0}
    if sel is not None:
        d["sites"] = list(sel) if isinstance(sel, tuple) else sel
    m = _cls(ctx)(rules=[d], default_barrier=100.0)
    sites = SEL[sel](ends, env)
    n = total(occ[s] == st for s in sites)
    got = m.compute(simulation_state=state(ctx, occ), event=ev)
    ctx.eq("rule applies to the selected sites", got, ite(n >= lo, 400.0, 100.0))
    pat = [ctx.choice(f"p{i}", ["*", 0, 2]) if i < 2 else "*" for i in range(len(sites))]
    if pat:
        m2 = _cls(ctx)(default_barrier=100.0)
        m2.add_pattern_rule(pat, barrier=300.0, sites=d.get("sites", "local_env"))
        got = m2.compute(simulation_state=state(ctx, occ), event=ev)
        ctx.eq("pattern over the selected sites", got, ite(land(*[occ[s] == p for s, p in zip(sites, pat) if p != "*"]), 300.0, 100.0))


@harness(
    "C08",
    configs=[{"annotated": False}, {"annotated": True}],
    bounds="any barrier in -3..12 eV within 80 kT, temperature 1..1e5 K and attempt frequency, any occupation 0..2 of the endpoints, with and without per-site codes",
)
def rate(ctx, annotated):
    bar = ctx.real("bar", -3000, 12000)
    T, nu = ctx.real("T", 1, 1.0e5), ctx.real("nu", 1, 1.0e14)
    ctx.assume(land(-bar <= 80 * KB * T, bar <= 80 * KB * T))
    occ = ctx.ints("occ", 3, 0, 2)
    ev = make_event(ctx, 2, 0, (1,))
    mob, vac = (1, 0, 2), (0, 1, 0)
    if annotated:
        lookup(ctx, mob, vac).annotate_event_lib(event_lib(ctx, [ev], deps=False))
    else:
        mob, vac = (0, 0, 0), (1, 1, 1)
    can = lor(land(occ[2] == mob[2], occ[0] == vac[0]), land(occ[2] == vac[2], occ[0] == mob[0]))
    m = _cls(ctx).constant_barrier(bar)
    r = m.compute_probability(event=ev, runtime_config=RC(T, nu), simulation_state=state(ctx, occ))
    ctx.eq("Arrhenius rate when the hop is possible, zero otherwise", r, ite(can, nu * ctx.exp(-bar / (KB * T)), 0.0), rtol=1e-6, atol=1e-300)


@harness("C08", configs=[{}], bounds="two named properties, each present or absent in the rule and in the defaults, any selection of default, probability and requested property")
def properties(ctx):
    names = ["barrier", "saddle"]
    rv, dv = {"barrier": ctx.real("b", 0, 500), "saddle": ctx.real("s", 0, 500)}, {"barrier": ctx.real("db", 0, 500), "saddle": ctx.real("ds", 0, 500)}
    vals = {k: rv[k] for k in ctx.choice("in_rule", [("barrier", "saddle"), ("saddle",), ("barrier",)])}
    dv = {k: dv[k] for k in ctx.choice("in_default", [("barrier",), ("barrier", "saddle"), ("saddle",)])}
    dp = ctx.choice("dp", names)
    pp = ctx.choice("pp", names)
    ask = ctx.choice("ask", [None] + names)
    o = ctx.int("o", 0, 1)
    m = _cls(ctx)(
        rules=[{"type": "pattern", "sites": "from", "pattern": [0], "properties": vals}],
        default_properties=dv,
        default_property=dp,
        probability_property=pp,
    )
    st, ev = state(ctx, [o, 1 - o]), make_event(ctx, 0, 1)
    hit = bool(o == 0)
    table = vals if hit else dv
    name = ask or dp
    out = ctx.run(m.compute, simulation_state=st, event=ev, property_name=ask)
    if name in table:
        ctx.check("available", out.ok)
        ctx.eq("requested property of the matched rule", out.value, table[name])
    else:
        ctx.check("missing property is refused, not taken from elsewhere", isinstance(out.exc, KeyError))
    out = ctx.run(m.compute_probability, event=ev, runtime_config=RC(300.0, 1.0e13), simulation_state=st)
    if pp in table:
        ctx.check("rate available", out.ok)
        ctx.eq("rate uses the probability property", out.value, 1.0e13 * ctx.exp(-table[pp] / (KB * 300.0)))
    else:
        ctx.check("rate refused", isinstance(out.exc, KeyError))


@harness("C08", configs=[{}], bounds="pattern of the wrong length, species rule without mapping for a counted site or state, site out of range: refused")
def evaluation_errors(ctx):
    C = _cls(ctx)
    occ = ctx.ints("occ", 4, 0, 2)
    st, ev = state(ctx, occ), make_event(ctx, 0, 1, (2, 3))
    n = ctx.concrete(ctx.int("n", 1, 5))
    m = C(default_barrier=1.0)
    m.add_pattern_rule(["*"] * n, barrier=5.0, sites="local_env")
    o = ctx.run(m.compute, simulation_state=st, event=ev)
    ctx.check("pattern length must equal the number of selected sites", o.ok == (n == 2))
    m = C(default_barrier=1.0, site_species={2: {0: "A", 1: "B", 2: "A"}, 3: {0: "A", 1: "B"}})
    m.add_species_count_rule("A", min_count=1, barrier=5.0)
    o = ctx.run(m.compute, simulation_state=st, event=ev)
    ctx.check("unmapped state is refused", iff(o.ok, occ[3] != 2))
    m = C(default_barrier=1.0, site_species={2: {0: "A", 1: "B", 2: "A"}})
    m.add_species_count_rule("A", min_count=1, barrier=5.0)
    ctx.raises("unmapped site is refused", m.compute, simulation_state=st, event=ev)
    m = C(default_barrier=1.0)
    m.add_state_count_rule(0, min_count=1, barrier=5.0, sites=[0, 4])
    ctx.raises("site out of range is refused", m.compute, simulation_state=st, event=ev)
