"""Site-energy models: the external evaluator always sees the simulation's occupations."""
from .common import *


def _cls(ctx):
    return ctx.mod("kmcpy.models.site_energy").SiteEnergyModel


EVENTS = [((0, 1), ()), ((2, 1), (0,)), ((2, 3), ())]
SITE_MAPS = [None, [0, 1, 2, 3], [3, 1, 0, 2], [5, 0, 2, 4], {"2": 1, "0": 4, "3": 0, "1": 2}]


def site(smap, i):
    if smap is None:
        return i
    return smap[str(i)] if isinstance(smap, dict) else smap[i]


def values(ctx, style):
    """state mapping arguments and the reference table[site][state]."""
    if style == "none":
        return {}, [[0, 1, 2]] * 4
    if style == "ints":
        v = ctx.ints("val", 3, -400, 400)
        return {"state_mapping": {"0": v[0], "1": v[1], "2": v[2]}}, [v] * 4
    if style == "reals":
        v = ctx.reals("val", 3, -400, 400)
        return {"state_mapping": v}, [v] * 4
    if style == "by_site":
        g = ctx.reals("val", 3, -400, 400)
        w = ctx.reals("own", 3, -400, 400)
        return {"state_mapping": g, "state_mapping_by_site": {1: w}}, [g, w, g, g]
    if style == "mixed":  # integers on most sites, half-integers on one
        g = [0, 1, 2]
        w = [ctx.int("w0", -3000, 3000), 0.5, 0]
        return {"state_mapping": g, "state_mapping_by_site": [None, w, None, g]}, [g, w, g, g]
    raise AssertionError


@harness(
    "C10",
    configs=[{"style": s, "steps": 2} for s in ("none", "ints", "reals", "by_site", "mixed")],
    thorough=[{"style": s, "steps": 3} for s in ("reals", "by_site", "mixed")],
    bounds="4 sites, 3 events, 5 site mappings, state values of five kinds (symbolic integers or reals, per-site tables), per-site "
    "mobile/vacancy codes in 0..1 or default; any executable state; histories of 2 (thorough 3) events: external copy, announced "
    "changes and energy",
)
def mirror(ctx, style, steps):
    smap = ctx.choice("smap", SITE_MAPS if style == "none" else SITE_MAPS[2:4])
    kw, table = values(ctx, style)
    log = []
    dE = [ctx.real(f"dE{i}", -40, 40) for i in range(steps)]
    size = ctx.choice("size", [None, 7])

    def compute(runtime, external_occupation, changes, event, simulation_state):
        log.append(("compute", list(external_occupation), list(changes)))
        return cur_dE[0]

    def apply(runtime, external_occupation, changes, event, simulation_state):
        log.append(("apply", list(external_occupation), list(changes)))

    unit = ctx.choice("unit", ["eV", "meV"]) if style == "ints" else {"none": "eV", "mixed": "meV"}.get(style, "EV")
    m = _cls(ctx)(compute_fn=compute, apply_fn=apply, site_mapping=smap, external_size=size, external_fill_value=-7, units=unit, **kw)
    occ = [ctx.choice(f"o{i}", [0, 1]) for i in range(4)]
    evs = [make_event(ctx, *e, env) for e, env in EVENTS]
    lib = event_lib(ctx, evs)
    enc = ctx.choice("enc", [None, ((0, 1, 0, 0), (1, 0, 1, 1))] if style in ("none", "mixed", "by_site") else [None])
    if enc:
        lookup(ctx, *enc).annotate_event_lib(lib)
    st = state(ctx, list(occ))
    mob, vac = enc or ((0,) * 4, (1,) * 4)
    m.initialize_state(simulation_state=st, event_lib=lib)
    used = [site(smap, i) for i in range(4)]
    n_ext = size if size is not None else max(used) + 1

    def expect(o):
        e = [-7] * n_ext
        for i in range(4):
            e[used[i]] = table[i][o[i]]
        return e

    ctx.eq_all("copy after initialisation", m.external_occupation, expect(occ))
    cur = list(occ)
    for s in range(steps):
        i = ctx.choice(f"ev{s}", [0, 1, 2])
        a, b = EVENTS[i][0]
        if not ((cur[a] == mob[a] and cur[b] == vac[b]) or (cur[a] == vac[a] and cur[b] == mob[b])):
            return
        new = list(cur)
        for x in (a, b):
            new[x] = vac[x] if cur[x] == mob[x] else mob[x]
        cur_dE = [dE[s]]
        log.clear()
        got = m.compute(event=evs[i], simulation_state=st)
        moved = [x for x in (a, b) if bool(table[x][cur[x]] != table[x][new[x]])]
        if moved:
            ctx.eq("energy difference in meV", got, dE[s] * (1.0 if unit == "meV" else 1000.0))
            ctx.check("evaluator asked once", [x[0] for x in log] == ["compute"])
            ctx.eq_all("evaluator sees the state before the hop", log[0][1], expect(cur))
            ch = log[0][2]
            ctx.check("exactly the changed endpoints", sorted(c.kmcpy_site for c in ch) == sorted(moved))
            for c in ch:
                k = c.kmcpy_site
                ctx.check("external site", c.external_site == used[k])
                ctx.check("states", c.old_state == cur[k] and c.new_state == new[k])
                ctx.eq("old value", c.old_value, table[k][cur[k]])
                ctx.eq("new value", c.new_value, table[k][new[k]])
        else:
            ctx.eq("nothing changes for the evaluator", got, 0.0)
        ctx.eq_all("asking changes nothing", m.external_occupation, expect(cur))
        st.apply_event(evs[i], 0.0)
        log.clear()
        m.apply_event(event=evs[i], simulation_state=st)
        ctx.check("evaluator told once", [x[0] for x in log] == (["apply"] if moved else []))
        if moved:
            ch = {c.kmcpy_site: c for c in log[0][2]}
            ctx.check("told of the changed endpoints", sorted(ch) == sorted(moved))
            for k, c in ch.items():
                ctx.eq("told old value", c.old_value, table[k][cur[k]])
                ctx.eq("told new value", c.new_value, table[k][new[k]])
        ctx.eq_all("copy follows the simulation", m.external_occupation, expect(new))
        cur = new


@harness(
    "C10",
    configs=[{"kind": "int"}, {"kind": "float"}],
    bounds="external supercell larger than the active sites: given initial occupation (integers or reals) of length 5 or a fill value; "
    "real state values; one hop",
)
def initial_external(ctx, kind):
    base = ctx.ints("base", 5, -900, 900) if kind == "int" else ctx.reals("base", 5, -900, 900)
    v = ctx.reals("v", 2, -500, 500)
    ctx.assume(v[0] != v[1])
    how = ctx.choice("how", ["initial", "fill"])
    fill = ctx.real("fill", -500, 500)
    kw = {"initial_occupation": base} if how == "initial" else {"external_size": 5, "external_fill_value": fill}
    m = _cls(ctx)(compute_fn=lambda event=None: 0.0, site_mapping=[4, 2], state_mapping=v, **kw)
    st = state(ctx, [0, 1])
    ev = make_event(ctx, 0, 1)
    m.initialize_state(simulation_state=st)
    rest = base if how == "initial" else [fill] * 5
    want = [rest[0], rest[1], v[1], rest[3], v[0]]
    ctx.eq_all("copy", m.external_occupation, want)
    st.apply_event(ev, 0.0)
    m.apply_event(event=ev, simulation_state=st)
    want[2], want[4] = v[0], v[1]
    ctx.eq_all("copy after the hop; other sites untouched", m.external_occupation, want)
    payload = ctx.run(m.as_dict)
    if payload.ok and how == "initial":
        ctx.eq_all("what is stored is the initial occupation, not the current one", payload.value["initial_occupation"], base)
    m.initialize_state(simulation_state=state(ctx, [1, 0]))
    want[2], want[4] = v[0], v[1]
    ctx.eq_all("initialising again starts from the new state", m.external_occupation, want)
    m.initialize_state(simulation_state=state(ctx, [0, 0]))
    want[2], want[4] = v[0], v[0]
    ctx.eq_all("initialising a third time", m.external_occupation, want)


@harness(
    "C10",
    configs=[{}],
    bounds="external site indices -1..4 for 3 sites, external length 1..4 or implied, mapping of 2-3 sites: refused exactly when a site "
    "has no external site, a negative one or one outside the external occupation; states 0..3 with external values for two of them, for all "
    "sites or one site",
)
def mapping_refusals(ctx):
    C = _cls(ctx)
    n = ctx.choice("n", [2, 3])
    mp = ctx.ints("map", n, -1, 4)
    size = ctx.choice("size", [None, 2, 4])
    m = C(compute_fn=lambda event=None: 0.0, site_mapping=mp, external_size=size)
    o = ctx.run(m.initialize_state, simulation_state=state(ctx, [0, 1, 0]))
    good = land(n == 3, *[x >= 0 for x in mp], *([x < size for x in mp] if size else []))
    ctx.check("accepted exactly when every site has a place", iff(o.ok, good))
    s = ctx.int("s", 0, 3)
    for a, b in ((0, 2), (1, 3), (2, 1)):
        m = C(compute_fn=lambda event=None: 0.0, state_mapping={a: 5, b: 6})
        o = ctx.run(m.initialize_state, simulation_state=state(ctx, [a, s]))
        ctx.check("state without external value is refused", iff(o.ok, lor(s == a, s == b)))
        m = C(compute_fn=lambda event=None: 0.0, state_mapping=[7, 8, 9, 4], state_mapping_by_site={1: {str(a): 5, str(b): 6}})
        o = ctx.run(m.initialize_state, simulation_state=state(ctx, [3, s]))
        ctx.check("state without external value on its site is refused", iff(o.ok, lor(s == a, s == b)))


@harness("C10", configs=[{}], bounds="model stored and read back, any integer mapping of 3 sites onto 0..4: with and without initial occupation: same external copy, units and order hash; altered mapping, size or length refused")
def round_trip(ctx):
    C = _cls(ctx)
    mp = [ctx.concrete(x) for x in ctx.ints("map", 3, 0, 3)]
    ctx.assume(len(set(mp)) == 3)
    unit = ctx.choice("unit", ["eV", "MEV"])
    base = ctx.choice("base", [None, [7, 6, 5, 4, 3, 2]])
    ext = {"external_size": 6, "external_fill_value": 3} if base is None else {"initial_occupation": base}
    m = C(compute_ref="kmcpy.models.site_energy:constant_site_energy_difference", compute_kwargs={"value": 0.25}, site_mapping=mp, state_mapping=[4, 9], units=unit, **ext)
    d = m.as_dict()
    d["site_mapping"] = {str(k): v for k, v in d["site_mapping"].items()}
    d["state_mapping"] = {str(k): v for k, v in d["state_mapping"].items()}
    m2 = C.from_dict(d)
    occ = ctx.ints("o", 3, 0, 1)
    ctx.assume(occ[0] != occ[1])
    st = state(ctx, occ)
    for x in (m, m2):
        x.initialize_state(simulation_state=st)
    ctx.eq_all("same external copy", m2.external_occupation, list(m.external_occupation))
    ev = make_event(ctx, 0, 1)
    ctx.eq("same energy", m2.compute(event=ev, simulation_state=st), 250.0 if unit == "eV" else 0.25)
    ctx.check("same hash", m2.external_site_order_hash == m.external_site_order_hash)
    ctx.check("same name", m2.name == m.name)
    if base is not None:
        bad = dict(d, initial_occupation=base[:-1])
        ctx.raises("initial occupation of another length refused", C.from_dict, bad, exc=ValueError)
    else:
        ctx.raises("other external size refused", C.from_dict, dict(d, external_size=7), exc=ValueError)
    d["site_mapping"]["0"] = mp[0] + 1
    ctx.raises("altered mapping refused", C.from_dict, d, exc=ValueError)
