"""Local barrier model: malformed definitions are refused; serialisation keeps the model."""
from .common import *
from .C08 import SP, rule, KINDS, _cls


@harness(
    "C09",
    configs=[{"kinds": k, "default": i % 2 == 0} for i, k in enumerate(KINDS)],
    bounds="models of 3 rules of every type, symbolic barriers, thresholds, states and occupations: the model read back from its "
    "dictionary (mobile ion endpoints, environment order, JSON-like keys) gives the same value or the same refusal",
)
def round_trip(ctx, kinds, default):
    ev = make_event(ctx, 0, 1, (3, 2, 4))
    occ = ctx.ints("occ", 5, 0, 2)
    rules = [rule(ctx, k, i, occ, ev)[0] for i, k in enumerate(kinds)]
    C = _cls(ctx)
    m = C(
        rules=rules,
        site_species={str(k): {str(a): b for a, b in v.items()} for k, v in SP.items()},
        name="model",
        **({"default_properties": {"barrier": ctx.real("default", 0, 900), "x": 3}} if default else {}),
    )
    d = m.as_dict()
    m2 = C.from_dict(d)
    st = state(ctx, occ)
    a, b = ctx.run(m.compute, simulation_state=st, event=ev), ctx.run(m2.compute, simulation_state=st, event=ev)
    ctx.check("same outcome", a.ok == b.ok)
    if a.ok:
        ctx.eq("same value", b.value, a.value)
    ctx.check("same rule names and order", [r["name"] for r in m.rules] == [r["name"] for r in m2.rules])
    ctx.check("same settings", (m.name, m.default_property, m.probability_property, m.probability_mode) == (m2.name, m2.default_property, m2.probability_property, m2.probability_mode))
    d2 = m2.as_dict()
    ctx.check("second dictionary has the same keys", sorted(d) == sorted(d2))


@harness(
    "C09",
    configs=[{}],
    bounds="any choice of default property, probability property and requested property out of three, species rules over 1 to 3 species (in any "
    "order, any occupation 0..2 of two sites), count, range or one-sided bounds: same value, same rate, same refusals after reading back",
)
def settings_round_trip(ctx):
    C = _cls(ctx)
    names = ["barrier", "saddle", "x"]
    sp = ctx.choice("sp", ["Si", ["Al", "Si"], ["P", "Si", "Al"], ["Si", "Si"]])
    c = ctx.choice("c", [{"count": 0}, {"min_count": 0, "max_count": 0}, {"max_count": 1}, {"min_count": 2}, {"count": 2}])
    dp, pp = ctx.choice("dp", names), ctx.choice("pp", names)
    val = {n: ctx.real(n, -900, 900) for n in names}
    m = C(
        rules=[{"type": "species_count", "species": sp, "properties": {n: val[n] for n in names[:2]}, **c}],
        site_species=SP,
        default_properties={"barrier": 5.0, "x": val["x"]},
        default_property=dp,
        probability_property=pp,
    )
    if ctx.choice("rebuilt", [False, True]):  # set up again with other rules, then with its own
        own = m.as_dict()["rules"]
        other = {"type": "exact", "mobile_ion_indices": [0, 1], "local_env_indices": [2, 3], "occupations": [0, 1, 0, 0], "barrier": 1.0}
        m.build(rules=[other])
        m.build(rules=[other])
        m.build(rules=own)
    m2 = C.from_dict(m.as_dict())
    st, ev = state(ctx, [0, 1] + ctx.ints("o", 2, 0, 2)), make_event(ctx, 0, 1, (2, 3))
    for what, call in (
        ("default", lambda z: z.compute(simulation_state=st, event=ev)),
        ("x", lambda z: z.compute(simulation_state=st, event=ev, property_name="x")),
        ("rate", lambda z: z.compute_probability(simulation_state=st, event=ev, runtime_config=RC(1000.0, 2.0))),
    ):
        a, b = ctx.run(call, m), ctx.run(call, m2)
        ctx.check(f"{what}: same outcome", a.ok == b.ok)
        if a.ok:
            ctx.eq(f"{what}: same value", b.value, a.value)


@harness(
    "C09",
    configs=[{"how": h} for h in ("state", "pattern", "exact", "species")],
    bounds="state codes -2..3 given as numbers, numeric text or aliases, anywhere a state can appear: negative codes are refused, "
    "others mean the same number",
)
def state_codes(ctx, how):
    C = _cls(ctx)
    form = ctx.choice("form", ["int", "text"])
    v = ctx.int("v", -2, 3)
    if form == "text":
        v = ctx.concrete(v)
    w = f" {v}" if form == "text" else v
    m = C(default_barrier=1.0)
    occ = ctx.int("o", 0, 3)
    ev = make_event(ctx, 0, 1, (2,))
    if how == "state":
        o = ctx.run(m.add_state_count_rule, w, count=1, barrier=2.0)
    elif how == "pattern":
        o = ctx.run(m.add_pattern_rule, [0, "*", w], barrier=2.0)
    elif how == "exact":
        o = ctx.run(m.add_exact_rule, [0, 1], [2], [0, 1, w], barrier=2.0)
    else:
        o = ctx.run(C, default_barrier=1.0, site_species={2: {w: "A", 9: "B"}})
        m = o.value
    ctx.check("accepted exactly when not negative", iff(o.ok, v >= 0))
    if not o.ok:
        return
    if how == "species":
        m.add_species_count_rule("A", count=1, barrier=2.0)
        ctx.assume(occ == v)
    got = m.compute(simulation_state=state(ctx, [0, 1, occ]), event=ev)
    ctx.eq("means that state", got, ite(occ == v, 2.0, 1.0))


@harness("C09", configs=[{}], bounds="every documented alias, any case and padding")
def aliases(ctx):
    C = _cls(ctx)
    a, v = ctx.choice("a", [("occupied", 0), ("match", 0), ("Template", 0), (" VACANT ", 1), ("vacancy", 1), ("mismatch", 1), ("other", 1)])
    o = ctx.int("o", 0, 2)
    m = C(default_barrier=1.0)
    m.add_state_count_rule(a, count=1, barrier=2.0)
    got = m.compute(simulation_state=state(ctx, [0, 1, o]), event=make_event(ctx, 0, 1, (2,)))
    ctx.eq("alias", got, ite(o == v, 2.0, 1.0))


@harness(
    "C09",
    configs=[{}],
    bounds="count, min_count, max_count each absent or any integer -2..3: accepted exactly when at least one is given, none is "
    "negative and count is not combined with a range; then the rule matches exactly the counts in range",
)
def count_constraints(ctx):
    C = _cls(ctx)
    d = {"type": "state_count", "state": 0, "barrier": 2.0}
    for k in ("count", "min_count", "max_count"):
        if ctx.choice(f"has_{k}", [False, True]):
            d[k] = ctx.int(k, -2, 3)
    given = [d[k] for k in ("count", "min_count", "max_count") if k in d]
    good = land(bool(given), not ("count" in d and len(given) > 1), *[g >= 0 for g in given])
    o = ctx.run(C, rules=[d], default_barrier=1.0)
    ctx.check("accepted exactly when well formed", iff(o.ok, good))
    if not o.ok:
        return
    occ = ctx.ints("o", 3, 0, 1)
    n = sum(ite(x == 0, 1, 0) for x in occ)
    got = o.value.compute(simulation_state=state(ctx, [0, 1] + occ), event=make_event(ctx, 0, 1, (2, 3, 4)))
    hit = land(*([n == d["count"]] if "count" in d else []), *([n >= d["min_count"]] if "min_count" in d else []), *([n <= d["max_count"]] if "max_count" in d else []))
    ctx.eq("range", got, ite(hit, 2.0, 1.0))


@harness(
    "C09",
    configs=[{}],
    bounds="exact rules: any number of occupations 1..5 for an event with 3-4 distinct sites; two exact entries with any "
    "occupations: the second is refused exactly when it repeats the first",
)
def exact_entries(ctx):
    C = _cls(ctx)
    env, distinct = ctx.choice("env", [((2, 3), 4), ((1, 2), 3), ((2, 2), 3), ((), 2)])
    n = ctx.concrete(ctx.int("n", 1, 5))
    o = ctx.run(C().add_exact_rule, [0, 1], list(env), [0] * n, barrier=2.0)
    ctx.check("one occupation per distinct site", o.ok == (n == distinct))
    a, b = ctx.ints("a", 2, 0, 1), ctx.ints("b", 2, 0, 1)
    ends = ctx.choice("ends", [[0, 1], [1, 0]])
    env2 = ctx.choice("env2", [[], [1]])
    e1 = {"mobile_ion_indices": [0, 1], "local_env_indices": [], "occupations": a, "properties": {"barrier": 2.0}}
    e2 = {"mobile_ion_indices": ends, "local_env_indices": env2, "occupations": b, "properties": {"barrier": 3.0}}
    if env2 and ends == [0, 1]:
        return
    o = ctx.run(C.from_exact_entries, [e1, e2])
    if ends != [0, 1]:
        ctx.check("a different event is no duplicate", o.ok)
        return
    ctx.check("duplicate refused", iff(lnot(o.ok), land(a[0] == b[0], a[1] == b[1])))


BAD = {
    "bool barrier": {"type": "constant", "barrier": True},
    "text barrier": {"type": "constant", "barrier": "3"},
    "no properties": {"type": "constant"},
    "bool property": {"type": "constant", "properties": {"barrier": False}},
    "unnamed property": {"type": "constant", "properties": {" ": 2.0}},
    "unknown type": {"type": "typo", "barrier": 1.0},
    "unknown selector": {"type": "state_count", "state": 0, "count": 1, "sites": "everything", "barrier": 1.0},
    "bool state": {"type": "state_count", "state": True, "count": 1, "barrier": 1.0},
    "unknown state": {"type": "state_count", "state": "full", "count": 1, "barrier": 1.0},
    "float state": {"type": "state_count", "state": 1.0, "count": 1, "barrier": 1.0},
    "bool count": {"type": "state_count", "state": 0, "count": True, "barrier": 1.0},
    "float count": {"type": "state_count", "state": 0, "min_count": 1.0, "barrier": 1.0},
    "empty pattern": {"type": "pattern", "pattern": [], "barrier": 1.0},
    "text pattern": {"type": "pattern", "pattern": "01", "barrier": 1.0},
    "empty species": {"type": "species_count", "species": [], "count": 1, "barrier": 1.0},
    "blank species": {"type": "species_count", "species": ["A", " "], "count": 1, "barrier": 1.0},
    "species without bound": {"type": "species_count", "species": "A", "barrier": 1.0},
    "float site": {"type": "state_count", "state": 0, "count": 1, "sites": [0.0], "barrier": 1.0},
    "empty sites": {"type": "state_count", "state": 0, "count": 1, "sites": [], "barrier": 1.0},
    "not a dictionary": ["constant"],
    "float endpoint": {"type": "exact", "mobile_ion_indices": [0, 1.0], "local_env_indices": [], "occupations": [0, 1], "barrier": 1.0},
    "exact without environment": {"type": "exact", "mobile_ion_indices": [0, 1], "occupations": [0, 1], "barrier": 1.0},
}


@harness("C09", configs=[{}], bounds="22 malformed rule definitions, as first or later rule, through the constructor, add_rule and build: refused, and the rules accepted before stay in force")
def malformed(ctx):
    C = _cls(ctx)
    name = ctx.choice("bad", list(BAD))
    bar = ctx.real("bar", 0, 500)
    good = {"type": "constant", "barrier": bar}
    pos = ctx.choice("pos", [0, 1])
    ctx.raises(f"constructor refuses: {name}", C, rules=[good] * pos + [BAD[name]], exc=(TypeError, ValueError))
    m = C(rules=[good])
    ctx.raises(f"add_rule refuses: {name}", m.add_rule, BAD[name], exc=(TypeError, ValueError))
    got = m.compute(simulation_state=state(ctx, [0, 1]), event=make_event(ctx, 0, 1))
    ctx.eq("earlier rule still decides", got, bar)
    ctx.check("nothing half-added", len(m.rules) == 1)
    ctx.raises("constructor refuses unknown probability mode", C, rules=[good], probability_mode="x", exc=ValueError)
    ctx.raises("rates refuse unknown probability mode", C(default_barrier=1.0, probability_mode="x").compute_probability, event=make_event(ctx, 0, 1), runtime_config=RC(300.0, 1.0), simulation_state=state(ctx, [0, 1]))


@harness("C09", configs=[{}], bounds="any occupation 0..2 of 5 sites: an entry recorded from an event and a state matches exactly that event in that local state")
def entry_from_state(ctx):
    C = _cls(ctx)
    occ, occ2 = ctx.ints("a", 5, 0, 2), ctx.ints("b", 5, 0, 2)
    ends, env = ctx.choice("ev", [((0, 1), (3, 1)), ((2, 0), (4,)), ((1, 3), ())])
    ev = make_event(ctx, *ends, env)
    bar = ctx.real("bar", 1, 500)
    e = C.entry_from_event_state(ev, state(ctx, occ), {"barrier": bar})
    m = C.from_exact_entries([e], default_barrier=-5.0)
    got = m.compute(simulation_state=state(ctx, occ2), event=ev)
    same = land(*[occ[s] == occ2[s] for s in set(ends) | set(env)])
    ctx.eq("recorded environment", got, ite(same, bar, -5.0))
    other = m.compute(simulation_state=state(ctx, occ), event=make_event(ctx, ends[1], ends[0], env))
    ctx.eq("another event does not match", other, -5.0)
