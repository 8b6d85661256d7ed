"""Event selection proportional to rates and exponential waiting time."""
from .common import *


@harness(
    "C01",
    configs=[{"n": 1}, {"n": 2}, {"n": 3}, {"n": 4}],
    thorough=[{"n": 5}, {"n": 6}],
    bounds="1-4 events (thorough 6), any non-negative real rates (total > 0), any two uniform draws in [0,1)",
)
def select_event(ctx, n):
    rates = ctx.reals("rate", n, 0, None)
    total = 0
    for r in rates:
        total = total + r
    ctx.assume(total > 0)
    events = [make_event(ctx, i, i + 1) for i in range(n)]
    lib = event_lib(ctx, events)
    k = kmc(ctx, stub_model(ctx, lambda e, s, rc: rates[events.index(e)]), lib, [0, 1] * n, n_sites=n + 1)
    rng = set_rng(k, Rng(ctx))
    ev, dt = k.propose(lib.events)[:2]
    idx = next(i for i, e in enumerate(events) if e is ev)
    u, w = rng.draws[0], rng.draws[-1]
    ctx.check("selection and waiting time use separate draws", len(rng.draws) >= 2)
    ctx.check("selected event can happen", rates[idx] > 0)
    lo = 0
    for r in rates[:idx]:
        lo = lo + r
    hi = lo + rates[idx]
    ctx.check("selection interval has length rate/total", interval(u, total, lo, hi))
    ctx.check("waiting time is finite and non-negative", land(dt >= 0, dt < float("inf")))
    ctx.eq("waiting time is -ln(u)/total rate", dt * total, -ctx.log(w), rtol=1e-6)
    ctx.reach("selected")


@harness(
    "C01",
    configs=[{"n": 2, "steps": 2}],
    thorough=[{"n": 3, "steps": 2}],
    bounds="2-3 independent events (thorough 3), rates changing after each of 2 executed events; selection after each",
)
def select_after_updates(ctx, n, steps):
    """Selection keeps using the current rates after events were executed."""
    events = [make_event(ctx, 2 * i, 2 * i + 1) for i in range(n)]
    lib = event_lib(ctx, events)
    table = [[ctx.real(f"rate{i}_{c}", 0, None) for c in (0, 1)] for i in range(n)]

    def rate(e, s, rc):
        i = events.index(e)
        return ite(s.occupations[2 * i] == 0, table[i][0], table[i][1])

    k = kmc(ctx, stub_model(ctx, rate), lib, [0, 1] * n)
    rng = set_rng(k, Rng(ctx))
    cur = [0] * n
    for _ in range(steps):
        rates = [table[i][cur[i]] for i in range(n)]
        total = 0
        for r in rates:
            total = total + r
        ctx.assume(total > 0)
        rng.draws.clear()
        ev, dt = k.propose(lib.events)[:2]
        idx = next(i for i, e in enumerate(events) if e is ev)
        u = rng.draws[0]
        ctx.check("selected event can happen", rates[idx] > 0)
        lo = 0
        for r in rates[:idx]:
            lo = lo + r
        ctx.check("selection interval", interval(u, total, lo, lo + rates[idx]))
        ctx.eq("waiting time", dt * total, -ctx.log(rng.draws[-1]), rtol=1e-6)
        k.update(ev, dt)
        cur[idx] = 1 - cur[idx]


@harness("C01", configs=[{"n": 1}, {"n": 2}, {"n": 3}], bounds="1-3 events, all with zero rate: the step must be refused")
def nothing_can_happen(ctx, n):
    events = [make_event(ctx, i, i + 1) for i in range(n)]
    lib = event_lib(ctx, events)
    occ = ctx.ints("occ", n + 1, 0, 1)
    k = kmc(ctx, stub_model(ctx, lambda e, s, rc: 0.0), lib, occ)
    rng = set_rng(k, Rng(ctx))
    o = ctx.run(k.propose, lib.events)
    ctx.check("no event is proposed when every rate is zero", not o.ok)
