"""Executing an event moves exactly one ion between the event's endpoints."""
from .common import *


def _codes(ctx, n, kmax, tag="code"):
    mob, vac = ctx.ints("mob", n, 0, kmax), ctx.ints("vac", n, 0, kmax)
    for m, v in zip(mob, vac):
        ctx.assume(m != v)
    return mob, vac


@harness(
    "C04",
    configs=[{"kmax": 2, "ends": (0, 1)}, {"kmax": 2, "ends": (2, 0)}, {"kmax": 1, "ends": (1, 2)}],
    thorough=[{"kmax": 3, "ends": (1, 0)}],
    bounds="3 sites, each with its own mobile/vacancy state codes in 0..2 (thorough 0..3), any occupation in that range in which "
    "the event can happen, any non-negative dt, start time and step",
)
def one_hop(ctx, kmax, ends):
    a, b = ends
    mob, vac = _codes(ctx, 3, kmax)
    occ = ctx.ints("occ", 3, 0, kmax)
    ev = make_event(ctx, a, b)
    lookup(ctx, mob, vac).annotate_event(ev)
    fwd = land(occ[a] == mob[a], occ[b] == vac[b])
    bwd = land(occ[a] == vac[a], occ[b] == mob[b])
    ctx.assume(lor(fwd, bwd))
    t0, dt = ctx.real("t0", 0, None), ctx.real("dt", 0, None)
    s0 = ctx.int("step0", 0, 1000)
    st = state(ctx, occ, time=t0, step=s0)
    st.apply_event(ev, dt)
    got = st.occupations
    ctx.check("the ion leaves one endpoint and arrives at the other", implies(fwd, land(got[a] == vac[a], got[b] == mob[b])))
    ctx.check("a backward hop is the mirror image", implies(bwd, land(got[a] == mob[a], got[b] == vac[b])))
    for i in range(3):
        if i not in ends:
            ctx.check("other sites keep their state", got[i] == occ[i])
    ctx.eq("time advances by dt", st.time, t0 + dt, rtol=1e-9)
    ctx.check("step counter advances by one", st.step == s0 + 1)
    st.apply_event(ev, 0.0)
    for i in range(3):
        ctx.check("executing the same event again undoes it", st.occupations[i] == occ[i])
    ctx.check("step counter counts every event", st.step == s0 + 2)


@harness(
    "C04",
    configs=[{"ends": (0, 1)}, {"ends": (3, 1)}],
    bounds="4 sites, default encoding (0 = ion, 1 = vacancy), any occupation, any executable event orientation",
)
def default_codes(ctx, ends):
    a, b = ends
    occ = ctx.ints("occ", 4, 0, 1)
    ctx.assume(occ[a] != occ[b])
    st = state(ctx, occ)
    dt = ctx.real("dt", 0, None)
    st.apply_event(make_event(ctx, a, b), dt)
    ctx.check("endpoints exchange", land(st.occupations[a] == occ[b], st.occupations[b] == occ[a]))
    for i in range(4):
        if i not in ends:
            ctx.check("other sites keep their state", st.occupations[i] == occ[i])
    ctx.eq("time advances", st.time, dt)
    ctx.check("step", st.step == 1)


@harness(
    "C04",
    configs=[{"steps": 2}],
    thorough=[{"steps": 3}],
    bounds="KMC driver, 3 sites with two different encodings, 3 events (ring), symbolic rates and draws, 2 executed events "
    "(thorough 3): ions counted per site encoding",
)
def driver_conserves_ions(ctx, steps):
    mob, vac = [0, 1, 2], [1, 0, 1]
    codes = [(0, 1), (1, 2), (2, 0)]
    pre = ctx.ints("occupied", 3, 0, 1)
    occ = [ite(o == 1, m, v) for o, m, v in zip(pre, mob, vac)]
    evs = [make_event(ctx, *c, env=()) for c in codes]
    lib = event_lib(ctx, evs)
    lk = lookup(ctx, mob, vac)

    def rate(e, s, rc):
        a, b = e.mobile_ion_indices
        o = s.occupations
        can = lor(land(o[a] == mob[a], o[b] == vac[b]), land(o[a] == vac[a], o[b] == mob[b]))
        return ite(can, 1.0 + a, 0.0)

    n0 = pre[0] + pre[1] + pre[2]
    ctx.assume(land(n0 >= 1, n0 <= 2))
    k = kmc(ctx, stub_model(ctx, rate), lib, occ, hop_lookup=lk)
    set_rng(k, Rng(ctx))
    st = k.simulation_state
    t = 0
    for i in range(steps):
        before = list(st.occupations)
        ev, dt = k.propose(lib.events)[:2]
        k.update(ev, dt)
        t = t + dt
        a, b = ev.mobile_ion_indices
        n = 0
        for j in range(3):
            ctx.check("every site holds a state it knows", lor(st.occupations[j] == mob[j], st.occupations[j] == vac[j]))
            n = n + ite(st.occupations[j] == mob[j], 1, 0)
            if j not in (a, b):
                ctx.check("spectators unchanged", st.occupations[j] == before[j])
        ctx.check("number of ions is conserved", n == n0)
        ctx.check(
            "exactly the endpoints changed", land(st.occupations[a] != before[a], st.occupations[b] != before[b])
        )
        ctx.check("one step per event", st.step == i + 1)
        ctx.eq("simulation time is the sum of waiting times", st.time, t, rtol=1e-6)


@harness(
    "C04",
    configs=[{}],
    bounds="3 sites, any occupation in 0..2: the caller's list and copies of the state do not alias it",
)
def no_aliasing(ctx):
    occ = ctx.ints("occ", 3, 0, 2)
    mine = list(occ)
    st = state(ctx, mine, time=1.5, step=7)
    cp = st.copy()
    st.occupations[1] = 9
    st.apply_event(make_event(ctx, 0, 2), 1.0)
    for i in range(3):
        ctx.check("caller's list untouched", mine[i] == occ[i])
        ctx.check("copy untouched", cp.occupations[i] == occ[i])
    ctx.check("copy keeps counters", cp.step == 7)
    ctx.eq("copy keeps time", cp.time, 1.5)
