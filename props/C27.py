"""Written result files carry exactly what was tracked and sampled."""
import glob
import os

import numpy as np

from .C11 import ENDS, build, tracker
from .common import *


def one(ctx, d, pattern):
    f = sorted(os.path.basename(x) for x in glob.glob(os.path.join(d, pattern)))
    ctx.check(f"one file {pattern}", len(f) == 1)
    return os.path.join(d, f[0])


def values(ctx, label, path, want, rtol=1e-6):
    rows = ctx.read_table(path)
    flat = [x for r in rows for x in r]
    exp = [x for r in want for x in r]
    ctx.check(f"{label}: shape", [len(r) for r in rows] == [len(r) for r in want])
    for a, b in zip(flat, exp):
        if isinstance(b, float) and b != b:
            ctx.check(f"{label}: undefined value", isinstance(a, float) and a != a)
        else:
            ctx.eq(label, a, b, rtol=rtol)


@harness(
    "C27",
    configs=[{"ions": 2, "label": "job"}, {"ions": 1, "label": None}, {"ions": 3, "label": "a b"}],
    thorough=[{"ions": 2, "label": "job", "hops": 3}],
    bounds="4 sites with 1-3 ions at arbitrary coordinates (two free), up to 2 (thorough 3) hops of arbitrary duration (later ones possibly zero), rows and property samples at arbitrary times with scalar, nested and array "
    "values: every file written equals what the tracker holds, whatever the label and pass, also over files of an earlier run",
)
def files(ctx, ions, label, hops=2):
    frac = [[0.1, 0.0, 0.0], [ctx.real("x1", 0.2, 0.45), 0.0, 0.0], [0.6, ctx.real("y2", 0.05, 0.3), 0.0], [0.8, 0.0, 0.2]]
    full = [i < ions for i in range(4)]
    st = state(ctx, [0 if f else 1 for f in full])
    lib = event_lib(ctx, [make_event(ctx, *e) for e in ENDS])
    t = tracker(ctx, build(ctx, frac, "cubic"), st)
    t.set_global_property_frequency(interval=1)
    sampled = []

    def prop(s, step, time):
        v = {"n": step, "x": [time, {"deep": (ctx_value, None, "s", True)}]}
        sampled.append((step, time, v))
        return v

    ctx_value = ctx.real("v", -1e6, 1e6)
    t.attach(prop, name="mine")
    t.attach(lambda s, step, time: step * 2.5, name="other", interval=2)
    t.attach(lambda s, step, time: {"a": np.array([[1.5, 2.0], [3.0, -4.0]]), "i": np.int64(4), "f": np.float64(0.5), 7: {1, 1}}, name="third", interval=2)
    t.attach(lambda s, step, time: 1, name="unstored", store=False)
    p = ctx.choice("pass", [0, 3, 120])
    time, at = 0, {i: n for n, i in enumerate(range(ions))}
    for s in range(hops):
        ok = [e for e in range(3) if (ENDS[e][0] in at) != (ENDS[e][1] in at)]
        i = ctx.choice(f"e{s}", ok)
        a, b = ENDS[i]
        src, dst = (a, b) if a in at else (b, a)
        at[dst] = at.pop(src)
        dt = 0.0 if s and ctx.choice(f"z{s}", [False, True]) else ctx.real(f"dt{s}", 0.01, 50)
        t.update(lib.events[i], dt)
        st.apply_event(lib.events[i], dt)
        time = time + dt
        t.sample_properties(step=s + 1, sim_time=time)
    t.update_current_pass(p)
    d = ctx.tmp()
    ctx.chdir(d)
    for _ in range(2 if hops == 2 else 1):  # files of an earlier run are replaced
        if label is None:
            t.write_results()
        else:
            t.write_results(label)
    pre = f"{label}_" if label else ""
    suf = f"_{label}" if label else ""
    want = {f"results{suf}.csv.gz", f"results_units{suf}.json.gz", f"properties{suf}.json.gz"} | {f"{x}_{pre}{p}.csv.gz" for x in ("displacement", "hop_counter", "current_occ")}
    ctx.check("files written", set(os.listdir(d)) == want)
    values(ctx, "displacement", one(ctx, d, "displacement_*"), [[x for x in r] for r in t.displacement])
    values(ctx, "hop counts", one(ctx, d, "hop_counter_*"), [[x] for x in t.hop_counter])
    values(ctx, "occupations", one(ctx, d, "current_occ_*"), [[x] for x in st.occupations])
    rows = ctx.read_table(os.path.join(d, f"results{suf}.csv.gz"))
    head = rows[0]
    ctx.check("columns", sorted(head) == sorted(t.results) and len(rows) == hops + 1)
    for k, name in enumerate(head):
        for r, v in zip(rows[1:], t.results[name]):
            if isinstance(v, float) and v != v:
                ctx.check("undefined", isinstance(r[k], float) and r[k] != r[k])
            else:
                ctx.eq(f"row value {name}", r[k], v, rtol=1e-6)
    units = ctx.read_json(os.path.join(d, f"results_units{suf}.json.gz"))
    ctx.check("units", units == dict(t.result_units) and set(units) == set(head))
    rec = ctx.read_json(os.path.join(d, f"properties{suf}.json.gz"))
    exp = [("mine", s, tm, v) for s, tm, v in sampled] + [("other", s, tm, s * 2.5) for s, tm, _ in sampled if s % 2 == 0] + [("third", s, tm, None) for s, tm, _ in sampled if s % 2 == 0]
    ctx.check("samples", [(r["name"], int(r["step"])) for r in rec] == [(e[0], e[1]) for e in exp])
    for r, e in zip(rec, exp):
        ctx.eq("sample time", r["time"], e[2])
        if e[0] == "other":
            ctx.eq("sample value", r["value"], e[3])
            continue
        v = r["value"]
        if e[0] == "third":
            ctx.check("array value", [[float(y) for y in x] for x in v["a"]] == [[1.5, 2.0], [3.0, -4.0]] and v["i"] == 4 and v["f"] == 0.5 and "7" in v)
            continue
        ctx.check("sample structure", v["n"] == e[1] and v["x"][1]["deep"][1:] == [None, "s", True])
        ctx.eq("nested value", v["x"][0], e[3]["x"][0])
        ctx.eq("deep value", v["x"][1]["deep"][0], ctx_value)


@harness(
    "C27",
    configs=[{"name": "runA"}, {"name": None}],
    bounds="a whole run of 1 pass (3 steps) on a 3-site chain with arbitrary rates and draws: files of the run equal the returned tracker; nothing sampled, no sample file",
)
def whole_run(ctx, name):
    from .C15 import Seeded, sim

    T = ctx.mod("kmcpy.simulator.tracker").Tracker
    ctx.patch(T, "show_current_info", lambda self: None)
    rates = ctx.reals("k", 2, 0.5, 4)
    ctx.install_rng(Seeded(ctx))
    d = ctx.tmp()
    ctx.chdir(d)
    kw = {"name": name} if name else {}
    k = sim(ctx, rates, equilibration_passes=0, kmc_passes=1, random_seed=7, **kw)
    t = k.run()
    ctx.check("no sample file without samples", not glob.glob(os.path.join(d, "properties*")))
    values(ctx, "displacement", one(ctx, d, "displacement_*"), [list(r) for r in t.displacement])
    values(ctx, "hop counts", one(ctx, d, "hop_counter_*"), [[x] for x in t.hop_counter])
    values(ctx, "occupations", one(ctx, d, "current_occ_*"), [[x] for x in k.simulation_state.occupations])
    rows = ctx.read_table(one(ctx, d, "results*csv.gz"))
    ctx.check("one row", len(rows) == 2)
    ctx.eq("time", rows[1][rows[0].index("time")], k.simulation_state.time)


@harness(
    "C27",
    configs=[{"scale": x} for x in (1.0e-12, 1.0, 1.0e9)],
    bounds="times and sampled values of any 3 decimal multiples at scales 1e-12, 1 and 1e9: written with at least 12 significant digits",
)
def precision(ctx, scale):
    frac = [[0.1, 0.0, 0.0], [0.2 + 1.0 / 7.0, 0.0, 0.0], [0.6, 0.0, 0.0], [0.8, 0.0, 0.2]]
    st = state(ctx, [0, 1, 1, 1])
    lib = event_lib(ctx, [make_event(ctx, *e) for e in ENDS])
    t = tracker(ctx, build(ctx, frac, "cubic"), st)
    t.set_global_property_frequency(interval=1)
    dt = ctx.choice("dt", [1.0 / 3.0, 2.0 / 7.0, 1.23456789012345]) * scale
    v = ctx.choice("v", [1.0 / 3.0, -5.0 / 7.0, 9.87654321098765]) * scale
    t.attach(lambda s, step, time: v, name="p")
    t.update(lib.events[0], dt)
    st.apply_event(lib.events[0], dt)
    t.sample_properties(step=1, sim_time=st.time)
    d = ctx.tmp()
    ctx.chdir(d)
    t.write_results("x")
    close = lambda a, b: abs(a - b) <= 1e-12 * abs(b)
    r = ctx.read_json(one(ctx, d, "properties*"))[0]
    ctx.check("sample time", close(r["time"], dt))
    ctx.check("sample value", close(r["value"], v))
    rows = ctx.read_table(one(ctx, d, "results_x.csv.gz"))
    row = dict(zip(rows[0], rows[1]))
    for k in t.results:
        ctx.check(f"row value {k}", close(row[k], t.results[k][0]))
    got = ctx.read_table(one(ctx, d, "displacement_*"))
    for a, b in zip(got[0], t.displacement[0]):
        ctx.check("displacement", abs(a - b) <= 1e-12 * (1 + abs(b)))
