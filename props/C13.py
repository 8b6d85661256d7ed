"""Sampling: properties are evaluated exactly when due and records keep the newest samples."""
from .common import *
from .C11 import tracker


def _tracker(ctx, plan=None, default=None, st=None):
    st = st or state(ctx, [0, 1])
    return tracker(ctx, simstruct(ctx, chain_structure(2)), st, property_plan=plan, default_property_interval=default), st


class Due:
    """Reference schedule."""

    def __init__(self, interval, time_interval):
        self.i, self.t, self.last = interval, time_interval, None

    def __call__(self, step, time):
        due = self.i is not None and step > 0 and step % self.i == 0
        if self.t is not None and not due:
            ref = 0 if self.last is None else self.last
            due = bool(time - ref >= self.t)
        if due:
            self.last = time
        return due


OPTS = [(None, None), (2, None), (3, None), (None, "t"), (3, "t")]


@harness(
    "C13",
    configs=[{"n": 4, "g": g} for g in range(5)],
    thorough=[{"n": 6, "g": g} for g in range(5)],
    bounds="4 (thorough 6) consecutive samples from any step 0..3 with arbitrary increasing times; global and own schedules of steps, time, "
    "both or neither with arbitrary positive time intervals: callbacks and built-in rows occur exactly when due",
)
def schedule(ctx, n, g):
    own = ctx.choice("own", OPTS)
    gi, gt = OPTS[g]
    gt = ctx.real("gt", 0, 3, lo_open=True) if gt else None
    oi, ot = own
    ot = ctx.real("ot", 0, 3, lo_open=True) if ot else None
    t, st = _tracker(ctx)
    t.set_global_property_frequency(interval=gi, time_interval=gt)
    calls, quiet = [], []
    t.attach(lambda s, step, time: calls.append((s, step, time)) or step * 10, interval=oi, time_interval=ot, name="p")
    t.attach(lambda s, step, time: quiet.append(step), interval=oi, time_interval=ot, name="unstored", store=False)
    due_g = Due(gi, gt)
    due_p = Due(oi if oi is not None else gi, ot if ot is not None else gt)
    step = ctx.choice("s0", [0, 1, 3])
    time = 0
    want, rows = [], []
    for k in range(n):
        step += 1 if k else 0
        time = time + ctx.real(f"dt{k}", 0, 2)
        if due_g(step, time):
            rows.append(time)
        if due_p(step, time):
            want.append((step, time))
        t.sample_properties(step=step, sim_time=time)
    ctx.check("called exactly when due", [c[1] for c in calls] == [w[0] for w in want])
    ctx.check("called when due although not stored", quiet == [w[0] for w in want] and t.get_property_records("unstored") == [])
    ctx.check("called with the state", all(c[0] is st for c in calls))
    rec = t.get_property_records("p")
    ctx.check("one record per call", [(r["step"], r["value"], r["name"]) for r in rec] == [(w[0], w[0] * 10, "p") for w in want])
    for r, c, w in zip(rec, calls, want):
        ctx.eq("record time", r["time"], w[1])
        ctx.eq("call time", c[2], w[1])
    ctx.eq_all("built-in rows follow the global schedule", t.results["time"], rows)
    ctx.check("all columns have one entry per row", all(len(v) == len(rows) for v in t.results.values()))


@harness("C13", configs=[{"n": 4}], thorough=[{"n": 7}], bounds="any cap 1..5 (or none) on stored records, 4 (thorough 7) samples: the newest ones are kept in order; with storing off nothing is kept")
def record_cap(ctx, n):
    cap = ctx.choice("cap", [None, 1, 2, 3, 5])
    store = ctx.choice("store", [True, False])
    vals = ctx.reals("v", n, -5, 5)
    t, _ = _tracker(ctx)
    t.set_global_property_frequency(interval=1)
    seen = []
    t.attach(lambda s, step, time: seen.append(step) or vals[step - 1], name="p", max_records=cap, store=store)
    t.attach(lambda s, step, time: step, name="q")
    for k in range(n):
        t.sample_properties(step=k + 1, sim_time=0.5 * k)
        rec = t.get_property_records("p")
        lo = max(0, k + 1 - cap) if cap else 0
        want = list(range(lo, k + 1)) if store else []
        ctx.check("kept steps", [r["step"] for r in rec] == [i + 1 for i in want])
        for r, i in zip(rec, want):
            ctx.eq("kept values", r["value"], vals[i])
    ctx.check("the callback still runs every time", seen == list(range(1, n + 1)))
    ctx.check("other properties keep all records", [r["value"] for r in t.get_property_records("q")] == list(range(1, n + 1)))
    ctx.check("all records by name", sorted(t.get_property_records()) == ["p", "q"])
    for k in ("p", "q"):
        ctx.check("no alias of the store", t.get_property_records(k) == t.get_property_records(k))
        if t.get_property_records(k):
            t.get_property_records(k)[0]["step"] = -1
            ctx.check("changing a returned record changes nothing", t.get_property_records(k)[0]["step"] != -1)


@harness("C13", configs=[{}], bounds="step intervals, time intervals and caps of any value in -2..3: accepted exactly when positive, everywhere they can be set, and a refused setting changes nothing")
def settings(ctx):
    P = ctx.mod("kmcpy.simulator.property")
    i, ti, cap = ctx.int("i", -2, 3), ctx.real("t", -2, 3), ctx.int("cap", -2, 3)
    which = ctx.choice("which", ["interval", "time_interval", "max_records"])
    val = {"interval": i, "time_interval": ti, "max_records": cap}[which]
    t, _ = _tracker(ctx)
    plan = P.PropertyPlan(interval=2)
    for name, f in (("plan", plan.attach), ("tracker", t.attach)):
        o = ctx.run(f, lambda s, a, b: 0, name="x", **{which: val})
        ctx.check(f"{name}.attach", iff(o.ok, val > 0))
    if which == "max_records":
        return
    for name, f in (("plan", plan.set_frequency), ("tracker", t.set_global_property_frequency), ("new plan", P.PropertyPlan)):
        o = ctx.run(f, **{which: val})
        ctx.check(name, iff(o.ok, val > 0))
        if name == "plan" and not o.ok:
            ctx.check("refused setting leaves the plan alone", plan.global_interval == 2 and plan.global_time_interval is None)


@harness(
    "C13",
    configs=[{}],
    bounds="a plan's global schedule (any of steps, time, both, neither) on a tracker with default interval 3: the plan wins, the "
    "default applies only when the plan has none; callbacks of the plan start fresh on each tracker",
)
def plan_on_tracker(ctx):
    P = ctx.mod("kmcpy.simulator.property")
    gi, gt = ctx.choice("g", OPTS)
    gt = ctx.real("gt", 0, 3, lo_open=True) if gt else None
    plan = P.PropertyPlan(interval=gi, time_interval=gt, builtin_enabled={"msd": False})
    on = ctx.choice("on", [True, False])
    calls = []
    plan.attach(lambda s, a, b: calls.append(a), name="p", enabled=on, time_interval=1.5)
    for rnd in range(2):
        calls.clear()
        t, _ = _tracker(ctx, plan=plan, default=3)
        due_g = Due(gi if (gi or gt is not None) else 3, gt)
        due_p = Due(due_g.i, 1.5)
        rows, want, time = [], [], 0
        for step in range(1, 5):
            time = time + (0.75 if rnd else ctx.real(f"dt{step}", 0, 2))
            if due_g(step, time):
                rows.append(step)
            if due_p(step, time):
                want.append(step)
            t.sample_properties(step=step, sim_time=time)
        ctx.check("built-in rows", len(t.results["time"]) == len(rows))
        ctx.check("callback", calls == (want if on else []))
        ctx.check("disabled built-in stays undefined", all(ctx.isnan(x) for x in t.results["msd"]))


@harness(
    "C13",
    configs=[{"via": v} for v in ("tracker", "plan", "kmc")],
    bounds="a callback without a schedule of its own, and one with, attached before or after the global schedule is changed (from steps or both to any of steps, time, both): the callback without "
    "one follows the schedule in force, the other keeps its own",
)
def global_change(ctx, via):
    P = ctx.mod("kmcpy.simulator.property")
    opts = [(1, None), (2, None), (None, 0.75), (3, 1.25)]
    old = ctx.choice("old", [opts[1], opts[3]])
    new = ctx.choice("new", opts)
    late = ctx.choice("late", [False, True])
    kind = ctx.choice("own", [(2, None), (None, 1.0)])
    calls = {"p": [], "q": []}
    if via == "tracker":
        t, _ = _tracker(ctx)
        obj, freq = t, t.set_global_property_frequency
    elif via == "plan":
        obj = P.PropertyPlan()
        freq = obj.set_frequency
    else:
        from .C15 import Seeded, quiet, sim

        ctx.install_rng(Seeded(ctx))
        quiet(ctx)
        obj = sim(ctx, [1.0, 2.0], kmc_passes=1, random_seed=3)
        freq = obj.set_property_frequency
    if late:
        freq(interval=old[0], time_interval=old[1])
        freq(interval=new[0], time_interval=new[1])
    else:
        freq(interval=old[0], time_interval=old[1])
    obj.attach(lambda s, step, time: calls["p"].append(step), name="p")
    obj.attach(lambda s, step, time: calls["q"].append(step), name="q", interval=kind[0], time_interval=kind[1])
    times = []
    obj.attach(lambda s, step, time: times.append(time), name="all", interval=1)
    if not late:
        freq(interval=new[0], time_interval=new[1])
    if via == "kmc":
        t = obj.run()
    else:
        if via == "plan":
            t, _ = _tracker(ctx, plan=obj, default=5)
        time = 0
        for step in range(1, 5):
            time = time + ctx.real(f"dt{step}", 0, 1)
            t.sample_properties(step=step, sim_time=time)
    dp = Due(*new)
    dq = Due(kind[0] if kind[0] is not None else new[0], kind[1] if kind[1] is not None else new[1])
    dg = Due(*new)
    wp, wq, rows = [], [], []
    for step, time in enumerate(times, 1):
        if dp(step, time):
            wp.append(step)
        if dq(step, time):
            wq.append(step)
        if dg(step, time):
            rows.append(time)
    ctx.check("every step seen", len(times) == (3 if via == "kmc" else 4))
    ctx.check("follows the schedule in force", calls["p"] == wp)
    ctx.check("keeps its own", calls["q"] == wq)
    ctx.eq_all("rows", t.results["time"], rows)
