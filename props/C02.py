"""Rates used for selection are always those of the current state."""
from .common import *


def _table_rate(ctx, events, tag="rate"):
    """rate(event, occ) = arbitrary function of the occupations of the event's own sites."""
    tables = []
    for i, e in enumerate(events):
        sites = list(e.mobile_ion_indices) + [s for s in e.local_env_indices]
        uniq = []
        for s in sites:
            if s not in uniq:
                uniq.append(s)
        tables.append((uniq, {}))

    def rate_index(i, occ):
        sites, tab = tables[i]
        n = len(sites)

        def rec(k, bits):
            if k == n:
                if bits not in tab:
                    tab[bits] = ctx.real(f"{tag}{i}_{''.join(map(str, bits))}", 0, None)
                return tab[bits]
            o = occ[sites[k]]
            return ite(o == 0, rec(k + 1, bits + (0,)), rec(k + 1, bits + (1,)))

        return rec(0, ())

    return rate_index


def _probe(ctx, k, events, rates, tag):
    """Selection + waiting time expose every stored rate."""
    total = 0
    for r in rates:
        total = total + r
    ctx.assume(total > 0)
    rng = set_rng(k, Rng(ctx, "u" + tag, zeros=1))
    o = ctx.run(k.propose, k.event_lib.events)
    ctx.check("an event is proposed whenever some rate is positive", o.ok)
    if not o.ok:
        return
    ev, dt = o.value[:2]
    idx = next(i for i, e in enumerate(events) if e is ev)
    u = rng.draws[0]
    lo = 0
    for r in rates[:idx]:
        lo = lo + r
    ctx.check("selection uses the rates of the current state", interval(u, total, lo, lo + rates[idx]))
    ctx.eq("waiting time uses the total rate of the current state", dt * total, -ctx.log(rng.draws[-1]), rtol=1e-6)


@harness(
    "C02",
    configs=[{"frm": f, "to": t, "steps": 2} for f in range(4) for t in range(4) if f != t],
    bounds="2 events on 4 two-state sites: event 0 = (0,1 | env 2), event 1 = any endpoints/one env site; any initial "
    "state; any history of 1-2 executed events (available or not); rates are arbitrary functions of the event's own sites",
)
def two_events(ctx, frm, to, steps):
    env = ctx.concrete(ctx.int("env", 0, 3))
    events = [make_event(ctx, 0, 1, (2,)), make_event(ctx, frm, to, (env,))]
    lib = event_lib(ctx, events)
    occ = ctx.ints("occ", 4, 0, 1)
    rate = _table_rate(ctx, events)

    def model_rate(e, s, rc):
        i = next(j for j, x in enumerate(events) if x is e)
        return rate(i, s.occupations)

    k = kmc(ctx, stub_model(ctx, model_rate), lib, list(occ))
    cur = list(occ)
    for s in range(steps):
        i = ctx.choice(f"step{s}", [0, 1])
        e = events[i]
        k.update(e, 0.0)
        a, b = e.mobile_ion_indices
        cur[a], cur[b] = cur[b], cur[a]
    _probe(ctx, k, events, [rate(j, cur) for j in range(2)], "p")


@harness(
    "C02",
    configs=[{"pattern": p} for p in range(8)],
    bounds="3-4 events in eight fixed topologies (chain, ring, star, shared environment, disjoint, repeated event, same endpoints "
    "with different environments, opposite directions) on up to 6 "
    "sites; any initial state, any history of 2 events (thorough 3)",
    thorough=[{"pattern": p, "steps": 3} for p in range(8)],
)
def topologies(ctx, pattern, steps=2):
    T = [
        [(0, 1, ()), (1, 2, ()), (2, 3, ())],
        [(0, 1, ()), (1, 2, ()), (2, 0, ())],
        [(0, 1, ()), (0, 2, ()), (0, 3, ()), (2, 3, ())],
        [(0, 1, (4,)), (2, 3, (4,)), (4, 5, ())],
        [(1, 0, ()), (3, 2, ()), (5, 4, ())],
        [(0, 1, ()), (0, 1, ()), (1, 2, ())],
        [(0, 1, (2,)), (0, 1, (3,)), (4, 5, (3,))],
        [(0, 1, (2,)), (1, 0, (3,)), (3, 4, ())],
    ][pattern]
    n = 6 if pattern in (3, 4, 6, 7) else 4
    events = [make_event(ctx, *t) for t in T]
    lib = event_lib(ctx, events)
    occ = ctx.ints("occ", n, 0, 1)
    rate = _table_rate(ctx, events)

    def model_rate(e, s, rc):
        i = next(j for j, x in enumerate(events) if x is e)
        return rate(i, s.occupations)

    k = kmc(ctx, stub_model(ctx, model_rate), lib, list(occ))
    cur = list(occ)
    for s in range(steps):
        i = ctx.choice(f"step{s}", list(range(len(events))))
        k.update(events[i], 0.0)
        a, b = events[i].mobile_ion_indices
        cur[a], cur[b] = cur[b], cur[a]
    _probe(ctx, k, events, [rate(j, cur) for j in range(len(events))], "p")


@harness(
    "C02",
    configs=[{"steps": 1}, {"steps": 2}],
    thorough=[{"steps": 3}],
    bounds="model with its own copy of the occupations (initialised once, updated by the accepted-event hook): 2 events on 3 "
    "sites, any state (fresh or already at a later step), histories of 1-2 events with or without time passing",
)
def stateful_model(ctx, steps):
    events = [make_event(ctx, 0, 1, (2,)), make_event(ctx, 1, 2, ())]
    lib = event_lib(ctx, events)
    occ = ctx.ints("occ", 3, 0, 1)
    rate = _table_rate(ctx, events)
    B = ctx.mod("kmcpy.models.base").BaseModel
    log = []

    class Mirror(B):
        def __init__(self):
            super().__init__(name="mirror")
            self.mirror = None

        def initialize_state(self, *, simulation_state, **kw):
            log.append("init")
            self.mirror = list(simulation_state.occupations)

        def apply_event(self, *, event, simulation_state):
            log.append(event)
            for s in event.mobile_ion_indices:
                self.mirror[s] = simulation_state.occupations[s]

        def compute_probability(self, event=None, runtime_config=None, simulation_state=None):
            i = next(j for j, x in enumerate(events) if x is event)
            return rate(i, self.mirror)

        def as_dict(self):
            return {}

        @classmethod
        def from_dict(cls, d):
            return cls()

    m = Mirror()
    k = kmc(ctx, m, lib, state(ctx, list(occ), **ctx.choice("start", [{}, {"time": 2.5, "step": 7}])))
    ctx.check("model state initialised once before any rate is needed", log == ["init"])
    cur = list(occ)
    hist = []
    for s in range(steps):
        i = ctx.choice(f"step{s}", [0, 1])
        hist.append(events[i])
        k.update(events[i], ctx.choice(f"dt{s}", [0.0, 0.25]))
        a, b = events[i].mobile_ion_indices
        cur[a], cur[b] = cur[b], cur[a]
    ctx.check("each accepted event reaches the model exactly once", len(log) == 1 + steps and all(x is y for x, y in zip(log[1:], hist)))
    for s in range(3):
        ctx.eq(f"model copy of site {s} equals the state", m.mirror[s], k.simulation_state.occupations[s])
    _probe(ctx, k, events, [rate(j, cur) for j in range(2)], "p")


@harness(
    "C02",
    configs=[{"sites": s} for s in ("explicit", "all", "local_env", "canonical", "from", "to", "mobile_ion", "pattern_all")],
    bounds="LocalBarrierModel with one counting rule over each kind of site selection or a pattern over all sites, 2 events on 5 sites that share no site, any "
    "state with executable events, 2 executed events; symbolic rule barrier",
)
def barrier_rules(ctx, sites):
    M = ctx.mod("kmcpy.models.local_barrier_model").LocalBarrierModel
    m = M(default_barrier=300.0)
    if sites == "pattern_all":
        m.add_pattern_rule(["*", 0, "*", "*", ctx.choice("last", ["*", 1])], barrier=450.0, sites="all")
    else:
        m.add_state_count_rule(
            state=0, min_count=1 if sites in ("from", "to") else 2, barrier=450.0, sites=[0, 1, 4] if sites == "explicit" else sites
        )
    events = [make_event(ctx, 0, 1, ()), make_event(ctx, 2, 3, (4,))]
    lib = event_lib(ctx, events)
    occ = ctx.ints("occ", 5, 0, 1)
    ctx.assume(land(occ[0] != occ[1], occ[2] != occ[3]))
    k = kmc(ctx, m, lib, list(occ))
    for s in range(2):
        k.update(events[ctx.choice(f"step{s}", [0, 1])], 0.0)
    fresh = M.from_dict(m.as_dict())
    rates = [fresh.compute_probability(event=e, runtime_config=k.config.runtime_config, simulation_state=k.simulation_state) for e in events]
    _probe(ctx, k, events, rates, "p")


@harness(
    "C02",
    configs=[{"n": n, "layout": l} for n in (70, 140) for l in ("endpoints", "environment")],
    thorough=[{"n": 300, "layout": l} for l in ("endpoints", "environment")],
    bounds="libraries of 70 and 140 (thorough 300) events that all use site 0 (as an endpoint or as an environment site); every "
    "event's rate depends on site 0; six events spread over the library have symbolic rates, the rest cannot happen; one executed event",
)
def large_library(ctx, n, layout):
    if layout == "endpoints":
        events = [make_event(ctx, 0, i + 1, ()) for i in range(n)]
    else:
        events = [make_event(ctx, 0, 1, ())] + [make_event(ctx, 2 * i, 2 * i + 1, (0,)) for i in range(1, n)]
    lib = event_lib(ctx, events)
    live = sorted({0, 1, n // 3, n // 2, n - 2, n - 1})
    table = {i: [ctx.real(f"rate{i}_{c}", 0, 1.0e6) for c in (0, 1)] for i in live}
    index = {id(e): i for i, e in enumerate(events)}

    def rate(i, occ0):
        return table[i][occ0] if i in table else 0.0

    nsite = n + 1 if layout == "endpoints" else 2 * n
    start = ctx.choice("site0", [0, 1])
    occ = [1 - start] * nsite
    occ[0] = start
    k = kmc(ctx, stub_model(ctx, lambda e, s, rc: rate(index[id(e)], int(s.occupations[0]))), lib, occ, n_sites=nsite)
    k.update(events[ctx.choice("executed", [0, n - 1] if layout == "endpoints" else [0])], 0.0)
    _probe(ctx, k, events, [rate(i, 1 - start) for i in range(n)], "p")


TERMS = [[[0]], [[1]], [[2]], [[3]], [[4]], [[5]], [[0, 5], [1, 4]]]


def _composite(ctx):
    kra = lce(ctx, TERMS, [3.0, -7.0, 11.0, 17.0, -5.0, 2.0, 6.0], 300.0)
    site = lce(ctx, TERMS, [4.0, 9.0, -6.0, 1.0, 8.0, -10.0, 5.0], 20.0)
    return ctx.mod("kmcpy.models.composite_lce_model").CompositeLCEModel(site_model=site, kra_model=kra)


@harness(
    "C02",
    configs=[{"used": u} for u in (False, True)],
    bounds="the composite model (expansion barrier and site energy over 6 environment sites, a different coefficient for every site) on 3 events over 8 sites that are in each "
    "other's environments; every state with executable events, every history of 2 events; the model is new or has served another simulation at another temperature, attempt "
    "frequency and state",
)
def composite(ctx, used):
    events = [make_event(ctx, 0, 1, (2, 3, 4, 5, 6, 7)), make_event(ctx, 2, 3, (0, 1, 7, 6, 5, 4)), make_event(ctx, 7, 6, (5, 0, 1, 2, 3, 4))]
    occ = [ctx.concrete(x) for x in ctx.ints("occ", 8, 0, 1)]
    if occ[0] == occ[1] or occ[2] == occ[3] or occ[6] == occ[7]:
        return
    m = _composite(ctx)
    if used:
        kmc(ctx, m, event_lib(ctx, events), [1 - o for o in occ], config=make_config(ctx, temperature=900.0, attempt_frequency=1.0e12))
    k = kmc(ctx, m, event_lib(ctx, events), list(occ), config=make_config(ctx, temperature=300.0, attempt_frequency=1.0e13))
    for s in range(2):
        i = ctx.choice(f"step{s}", [0, 1, 2])
        k.update(events[i], 0.0)
        a, b = events[i].mobile_ion_indices
        occ[a], occ[b] = occ[b], occ[a]
    fresh = _composite(ctx)
    rates = [fresh.compute_probability(event=e, runtime_config=RC(300.0, 1.0e13), simulation_state=state(ctx, occ)) for e in events]
    _probe(ctx, k, events, rates, "p")
