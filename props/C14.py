"""Property callbacks: failures follow the declared policy; attach, detach and enable take effect at once."""
from .common import *
from .C13 import _tracker


@harness(
    "C14",
    configs=[{"n": 3}],
    thorough=[{"n": 5}],
    bounds="3 (thorough 5) samples with any pattern of callback failures, with no handler or a handler that continues, stops or fails "
    "itself at any sample; a second callback before and after",
)
def failures(ctx, n):
    T = ctx.mod("kmcpy.simulator.tracker")
    t, st = _tracker(ctx)
    t.set_global_property_frequency(interval=1)
    fail = [ctx.choice(f"f{k}", [False, True]) for k in range(n)]
    policy = ctx.choice("policy", ["none", "go", "stop", "broken", "truthy"])
    boom = ValueError("boom")
    handled = []

    def cb(s, step, time):
        if fail[step - 1]:
            raise boom
        return step

    def handler(exc, s, step, time):
        handled.append((exc, s, step))
        if policy == "broken":
            raise KeyError("handler")
        return {"go": True, "stop": False, "truthy": 1}[policy]

    t.attach(lambda s, a, b: a, name="first")
    t.attach(cb, name="p", on_error=None if policy == "none" else handler)
    t.attach(lambda s, a, b: a, name="last")
    good, stopped = [], None
    for k in range(n):
        o = ctx.run(t.sample_properties, step=k + 1, sim_time=float(k))
        if fail[k] and policy in ("none", "stop", "broken"):
            ctx.check("the failure stops the run", isinstance(o.exc, T.CallbackExecutionError))
            if policy != "broken":
                ctx.check("the cause is kept", getattr(o.exc, "__cause__", None) is boom)
            stopped = k
            break
        ctx.check("no error otherwise", o.ok)
        if not fail[k]:
            good.append(k + 1)
    ctx.check("only successful samples are stored", [r["value"] for r in t.get_property_records("p")] == good)
    done = n if stopped is None else stopped + 1
    ctx.check("earlier callback sampled every time", [r["step"] for r in t.get_property_records("first")] == list(range(1, done + 1)))
    done = n if stopped is None else stopped
    ctx.check("later callback sampled unless stopped", [r["step"] for r in t.get_property_records("last")] == list(range(1, done + 1)))
    bad = [k + 1 for k in range(n if stopped is None else stopped + 1) if fail[k]]
    ctx.check("handler told of each failure", [h[2] for h in handled] == (bad if policy != "none" else []) and all(h[0] is boom and h[1] is st for h in handled))


@harness(
    "C14",
    configs=[{}],
    bounds="time-based sampling with arbitrary times and tolerated failures at any sample: a failed sample counts as sampled for the schedule",
)
def failure_schedule(ctx):
    t, _ = _tracker(ctx)
    t.set_global_property_frequency(interval=None, time_interval=100.0)
    fail = [ctx.choice(f"f{k}", [False, True]) for k in range(4)]
    calls = []

    def cb(s, step, time):
        calls.append(step)
        if fail[step]:
            raise ValueError

    t.attach(cb, time_interval=1.0, name="p", on_error=lambda *a: True)
    time, last, want = 0, 0, []
    for k in range(4):
        time = time + ctx.real(f"dt{k}", 0, 1.5)
        if bool(time - last >= 1.0):
            want.append(k)
            last = time
        t.sample_properties(step=k, sim_time=time)
    ctx.check("called exactly when due", calls == want)


@harness(
    "C14",
    configs=[{"n": 3, "via": v} for v in ("tracker", "plan")],
    thorough=[{"n": 4, "via": v} for v in ("tracker", "plan")],
    bounds="any sequence of 3 (thorough 4) attach / detach / enable / disable / clear operations on two names, on a tracker or a plan: "
    "attachments, refusals, and what is sampled afterwards",
)
def management(ctx, n, via):
    P = ctx.mod("kmcpy.simulator.property")
    if via == "tracker":
        obj, _ = _tracker(ctx)
    else:
        obj = P.PropertyPlan(interval=1)
    model = {}
    for k in range(n):
        op = ctx.choice(f"op{k}", ["attach", "detach", "on", "off", "clear"])
        name = ctx.choice(f"nm{k}", ["p", "q"]) if op != "clear" else None
        if op == "attach":
            o = ctx.run(obj.attach, lambda s, a, b, nm=name: nm, name=name)
            ctx.check("attach refused exactly for a taken name", o.ok == (name not in model))
            if o.ok:
                ctx.check("attach returns the name", o.value == name)
                model[name] = True
        elif op == "detach":
            o = ctx.run(obj.detach, name)
            ctx.check("detach refused exactly for an unknown name", o.ok == (name in model))
            model.pop(name, None)
        elif op == "clear":
            obj.clear_attachments()
            model = {}
        else:
            o = ctx.run(obj.set_property_enabled, name, op == "on")
            ctx.check("switch refused exactly for an unknown name", o.ok == (name in model))
            if name in model:
                model[name] = op == "on"
    ctx.check("attachments in order", obj.list_attachments() == list(model))
    d = obj.list_property_calculations()
    ctx.check("listing", d["attached_enabled"] == [m for m in model if model[m]] and d["attached_disabled"] == [m for m in model if not model[m]])
    t = obj if via == "tracker" else _tracker(ctx, plan=obj)[0]
    t.set_global_property_frequency(interval=1)
    t.sample_properties(step=1, sim_time=0.0)
    t.sample_properties(step=2, sim_time=0.0)
    for nm in ("p", "q"):
        if nm in model:
            ctx.check("sampled exactly when attached and enabled", [r["value"] for r in t.get_property_records(nm)] == ([nm, nm] if model[nm] else []))
        else:
            ctx.raises("no records of what is not attached", t.get_property_records, nm, exc=ValueError)


@harness(
    "C14",
    configs=[{"n": 4}],
    thorough=[{"n": 6}],
    bounds="4 (thorough 6) samples at arbitrary times, the callback switched on or off before any of them: sampled exactly when enabled "
    "and its own time interval since its last sample has passed",
)
def switched_schedule(ctx, n):
    t, _ = _tracker(ctx)
    t.set_global_property_frequency(interval=None, time_interval=100.0)
    t.attach(lambda s, step, time: step, name="p", time_interval=1.0)
    t.attach(lambda s, step, time: step, name="q", time_interval=1.0)
    time, lp, lq, wp, wq, on = 0, 0, 0, [], [], True
    for k in range(n):
        op = ctx.choice(f"op{k}", ["keep", "on", "off"])
        if op != "keep":
            on = op == "on"
            t.set_property_enabled("p", on)
        time = time + ctx.real(f"dt{k}", 0, 1.5)
        if on and bool(time - lp >= 1.0):
            wp.append(k)
            lp = time
        if bool(time - lq >= 1.0):
            wq.append(k)
            lq = time
        t.sample_properties(step=k, sim_time=time)
    ctx.check("switched callback", [r["value"] for r in t.get_property_records("p")] == wp)
    ctx.check("other callback", [r["value"] for r in t.get_property_records("q")] == wq)


@harness("C14", configs=[{}], bounds="built-in fields: any switched off and on again; reserved, missing and default callback names")
def builtin_switches(ctx):
    P = ctx.mod("kmcpy.simulator.property")
    name = ctx.choice("b", list(P.BUILTIN_PROPERTY_FIELDS))
    x = ctx.real("x", 0, 1)
    t, _ = _tracker(ctx)
    ctx.raises("reserved name", t.attach, lambda s, a, b: 0, name=name, exc=ValueError)
    ctx.raises("plan: reserved name", P.PropertyPlan().attach, lambda s, a, b: 0, name=name, exc=ValueError)
    ctx.raises("not callable", t.attach, 3, name="z", exc=TypeError)
    ctx.raises("unknown name", t.set_property_enabled, "nothing", True, exc=ValueError)

    def own(s, a, b):
        return 0

    own.__name__ = name
    ctx.raises("reserved function name", t.attach, own, exc=ValueError)
    ctx.raises("plan: reserved function name", P.PropertyPlan().attach, own, exc=ValueError)

    def occupied(s, a, b):
        return x

    ctx.check("default name is the function's", t.attach(occupied) == "occupied")
    t.set_property_enabled(name, False)
    d = t.list_property_calculations()
    ctx.check("listed as disabled", d["built_in_disabled"] == [name] and name not in d["built_in_enabled"] and len(d["built_in_enabled"]) == 5)
    t.set_property_enabled(name, True)
    ctx.check("listed as enabled again", t.list_property_calculations()["built_in_disabled"] == [])


@harness(
    "C14",
    configs=[{"via": v} for v in ("tracker", "kmc")],
    bounds="three callbacks, any one of which detaches, disables or replaces any of them, clears all or attaches a new one while it is being sampled, at the first or second of 3 samples: "
    "the change takes effect at once, the other callbacks go on, and nothing is recorded for what is no longer attached",
)
def from_within(ctx, via):
    from .C15 import Seeded, quiet, sim

    names = ["p", "q", "r"]
    who = ctx.choice("who", names)
    op = ctx.choice("op", ["detach", "disable", "clear", "attach", "replace"])
    target = ctx.choice("target", names) if op in ("detach", "disable", "replace") else None
    when = ctx.choice("when", [1, 2])
    calls = []
    x = ctx.real("x", -1, 1)
    if via == "tracker":
        obj, _ = _tracker(ctx)
        obj.set_global_property_frequency(interval=1)
    else:
        ctx.install_rng(Seeded(ctx))
        quiet(ctx)
        obj = sim(ctx, [1.0, 2.0], kmc_passes=1, random_seed=3)
        obj.set_property_frequency(interval=1)

    def cb(name):
        def f(s, step, time):
            calls.append((step, name))
            if name == who and step == when:
                if op == "detach":
                    obj.detach(target)
                elif op == "disable":
                    obj.set_property_enabled(target, False)
                elif op == "clear":
                    obj.clear_attachments()
                elif op == "attach":
                    obj.attach(cb("new"), name="new")
                else:
                    obj.detach(target)
                    obj.attach(cb(target + "2"), name=target)
            return (step, name, x)

        return f

    for n in names:
        obj.attach(cb(n), name=n)
    if via == "tracker":
        t = obj
        for step in (1, 2, 3):
            o = ctx.run(t.sample_properties, step=step, sim_time=0.5 * step)
            ctx.check("sampling goes on", o.ok)
            if not o.ok:
                return
    else:
        o = ctx.run(obj.run)
        ctx.check("the run goes on", o.ok)
        if not o.ok:
            return
        t = o.value
    live = {n: (n, True, []) for n in names}  # name -> (callback, enabled, recorded steps)
    want = []
    for step in (1, 2, 3):
        for n, entry in list(live.items()):
            if live.get(n) is not entry and not (n in live and live[n][0] == entry[0]):
                continue
            c, on, rec = live[n]
            if not on:
                continue
            want.append((step, c))
            if c == who and step == when:
                if op == "detach":
                    del live[target]
                elif op == "disable":
                    live[target] = (live[target][0], False, live[target][2])
                elif op == "clear":
                    live = {}
                elif op == "attach":
                    live["new"] = ("new", True, [])
                else:
                    del live[target]
                    live[target] = (target + "2", True, [])
            if n in live and live[n][0] == c:
                rec.append(step)
    ctx.check("called", calls == want)
    ctx.check("attached", obj.list_attachments() == list(live) and t.list_attachments() == list(live))
    for n in names + ["new"]:
        if n not in live:
            ctx.raises("no records of what is not attached", t.get_property_records, n, exc=ValueError)
            continue
        rec = t.get_property_records(n)
        ctx.check("records", [(r["step"], r["value"][1]) for r in rec] == [(k, live[n][0]) for k in live[n][2]])
        for r in rec:
            ctx.eq("value", r["value"][2], x)
