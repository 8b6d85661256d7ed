"""Running a simulation: passes, equilibration, seeding, sampling during the run."""
from .common import *

ENDS = [(0, 1), (1, 2)]


def quiet(ctx):
    """No result files, no summary table: only record what would be written."""
    T = ctx.mod("kmcpy.simulator.tracker").Tracker
    out = []
    ctx.patch(T, "write_results", lambda self, label=None: out.append(label))
    ctx.patch(T, "show_current_info", lambda self: None)
    return out


def sim(ctx, rates, occ=(0, 1, 1), species="Na", st=None, **cfg):
    lib = event_lib(ctx, [make_event(ctx, *e) for e in ENDS])

    def rate(event, s, rc):
        i = next(k for k, e in enumerate(lib.events) if e is event)
        a, b = event.mobile_ion_indices
        o = s.occupations
        return rates[i] if bool(o[a] != o[b]) else 0.0

    struct = structure(species if isinstance(species, list) else [species] * 3, [[0.1, 0, 0], [0.4, 0, 0], [0.7, 0, 0]])
    return kmc(ctx, stub_model(ctx, rate), lib, st or list(occ), config=make_config(ctx, **cfg), struct=struct)


class Seeded:
    """One stream of draws per seed; every unseeded generator is a stream of its own."""

    def __init__(self, ctx, zeros=0):
        self.ctx, self.zeros = ctx, zeros
        self.draws = {}
        self.seeds = []
        self.anon = 0

    def __call__(self, seed=None):
        self.seeds.append(seed)
        if seed is None:
            self.anon += 1
            seed = f"anon{self.anon}"
        pool = self.draws.setdefault(str(seed), [])
        outer = self

        class Stream(Rng):
            def __init__(s):
                super().__init__(outer.ctx, f"u{seed}", zeros=outer.zeros)
                s.pos = 0

            def _one(s):
                if s.pos >= len(pool):
                    pool.append(super()._one())
                s.pos += 1
                return pool[s.pos - 1]

        return Stream()


@harness(
    "C15",
    configs=[{"eq": 0, "n": 1}, {"eq": 1, "n": 1}, {"eq": 0, "n": 2}],
    thorough=[{"eq": 1, "n": 2}, {"eq": 2, "n": 1}],
    bounds="3-site chain, one ion, 2 events with arbitrary positive rates, every value of the random draws; 0-2 equilibration and 1-2 "
    "production passes of 3 steps",
)
def passes(ctx, eq, n):
    rates = ctx.reals("k", 2, 0.5, 4)
    rng = Seeded(ctx)
    ctx.install_rng(rng)
    out = quiet(ctx)
    k = sim(ctx, rates, equilibration_passes=eq, kmc_passes=n, random_seed=7, name="Job_A")
    seen = []
    k.attach(lambda s, step, time: seen.append((s.step, time, list(s.occupations))), interval=1, name="w", store=False)
    label = ctx.choice("label", [None, "Mine.2"])
    t = k.run(**({"label": label} if label else {}))
    u = rng.draws.get("7", [])
    ctx.check("two draws per step", len(u) == 2 * 3 * (eq + n))
    # reference walk
    pos, time, hops, x = 0, 0, 0, 0.0
    coords = [1.0, 4.0, 7.0]
    want = []
    for s in range(3 * (eq + n)):
        if pos == 1:
            go_left = u[2 * s] * (rates[0] + rates[1]) < rates[0]
            total = rates[0] + rates[1]
            ctx.assume(lor(u[2 * s] * total <= rates[0] - 0.001, u[2 * s] * total >= rates[0] + 0.001))
            new = 0 if bool(go_left) else 2
        else:
            new, total = 1, rates[0 if pos == 0 else 1]
        if s >= 3 * eq:
            time = time - ctx.log(u[2 * s + 1]) / total
            hops += 1
            x += coords[new] - coords[pos]
            want.append((time, new))
        pos = new
    ctx.check("state holds the ion where the walk ended", [int(o) for o in k.simulation_state.occupations] == [0 if i == pos else 1 for i in range(3)])
    ctx.eq("simulation time counts production only", k.simulation_state.time, time)
    ctx.check("every production step is sampled", len(seen) == len(want))
    for a, b in zip(seen, want):
        ctx.eq("sampled time", a[1], b[0])
        ctx.check("sampled after the step", [int(o) for o in a[2]] == [0 if i == b[1] else 1 for i in range(3)])
    ctx.check("hops counted in production only", int(t.hop_counter[0]) == hops)
    ctx.eq("displacement of production only", t.displacement[0][0], x, atol=1e-9)
    ctx.check("results written once under the label", out == [label or "Job_A"])
    ctx.check("a row per pass", len(t.results["time"]) == n)


@harness(
    "C15",
    configs=[{"seed": 3}, {"seed": 0}, {"seed": None}],
    bounds="two simulations from equal settings, any rates, every value of the random draws: same seed gives the same history, and "
    "repeating a run restarts the seeded stream; without a seed streams are not shared",
)
def reproducible(ctx, seed):
    rates = ctx.reals("k", 2, 0.5, 4)
    rng = Seeded(ctx)
    ctx.install_rng(rng)
    quiet(ctx)
    runs = []
    for i in range(2):
        k = sim(ctx, rates, occ=(1, 0, 1), random_seed=seed, kmc_passes=1)
        hist = []
        k.attach(lambda s, step, time: hist.append((time, [int(o) for o in s.occupations])), interval=1, name="w")
        k.run()
        runs.append(hist)
    if seed is None:
        ctx.check("unseeded generators", all(s is None for s in rng.seeds))
        ctx.check("a generator of its own for each run", rng.anon >= 2)
        return
    ctx.check("the configured seed is used", all(s == seed for s in rng.seeds))
    ctx.check("same events", [h[1] for h in runs[0]] == [h[1] for h in runs[1]])
    for a, b in zip(*runs):
        ctx.eq("same times", a[0], b[0])


@harness(
    "C15",
    configs=[{}],
    bounds="any mix of mobile and other species on 3 sites: a pass has as many steps as the structure has mobile-ion sites, and gives one row",
)
def pass_length(ctx):
    ctx.install_rng(Seeded(ctx))
    out = quiet(ctx)
    sp = [ctx.choice(f"s{i}", ["Na", "K"]) for i in range(3)]
    n = ctx.choice("n", [1, 2])
    k = sim(ctx, [1.0, 2.0], species=sp, kmc_passes=n, mobile_ion_specie="Na")
    steps = []
    k.attach(lambda s, step, time: steps.append(step), interval=1, name="w")
    t = k.run()
    m = sum(x == "Na" for x in sp)
    ctx.check("steps", len(steps) == n * m)
    ctx.check("one row per pass", len(t.results["time"]) == (n if m else 0))
    ctx.check("step numbers", steps == list(range(1, len(steps) + 1)))


@harness(
    "C15",
    configs=[{}],
    bounds="settings given in the configuration: global interval or time interval, disabled built-in, any rates and draws: the run samples accordingly",
)
def configured_sampling(ctx):
    rng = Seeded(ctx)
    ctx.install_rng(rng)
    quiet(ctx)
    gi = ctx.choice("gi", [None, 1, 2])
    gt = ctx.real("gt", 0.1, 3) if ctx.choice("has", [False, True]) else None
    off = ctx.choice("off", ["msd", "conductivity"])
    k = sim(ctx, [1.0, 1.0], occ=(0, 1, 1), kmc_passes=1, random_seed=5, property_sampling_interval=gi, property_sampling_time_interval=gt, builtin_property_enabled={off: False})
    times = []
    k.attach(lambda s, step, time: times.append(time), interval=1, name="w")
    t = k.run()
    rows, last = [], None
    for s, tm in enumerate(times):
        due = gi is not None and (s + 1) % gi == 0
        if gi is None and gt is None:
            due = (s + 1) % 3 == 0
        if gt is not None and not due:
            due = bool(tm - (last if last is not None else 0) >= gt)
        if due:
            rows.append(tm)
            last = tm
    ctx.eq_all("rows", t.results["time"], rows)
    ctx.check("disabled field undefined", all(ctx.isnan(v) for v in t.results[off]))
    ctx.check("plan applied to the simulation", off in k.list_property_calculations()["built_in_disabled"])


@harness(
    "C15",
    configs=[{"eq": 0}, {"eq": 1}],
    bounds="a second run on the same simulation, 0 or 1 equilibration passes, any draws: it continues from the reached state, time and step, equilibrates again, restarts the "
    "seeded stream, and its transport values use its own hops and elapsed time",
)
def second_run(ctx, eq):
    rng = Seeded(ctx)
    ctx.install_rng(rng)
    quiet(ctx)
    k = sim(ctx, [1.0, 1.0], occ=(0, 1, 1), kmc_passes=1, equilibration_passes=eq, random_seed=5)
    where = []
    k.attach(lambda s, step, time: where.append([int(o) for o in s.occupations].index(0)), interval=1, name="w")
    first = k.run()
    t1 = k.simulation_state.time
    ctx.check("steps of the first run", int(k.simulation_state.step) == 3 * (eq + 1))
    ctx.check("hops of the first run", int(first.hop_counter[0]) == 3)
    t = k.run()
    t2 = k.simulation_state.time
    ctx.check("the step count goes on", int(k.simulation_state.step) == 6 * (eq + 1))
    ctx.check("the seeded stream starts again", list(rng.draws) == ["5"] and len(rng.draws["5"]) == 6 * (eq + 1))
    ctx.check("hops of this run", int(t.hop_counter[0]) == 3)
    p2 = [int(o) for o in k.simulation_state.occupations].index(0)
    ctx.check("samples", len(where) == 6 and where[-1] == p2)
    # the first hop of this run ended at where[3]; from an end of the chain there is one way, from the middle the draw decides
    if eq == 0:
        p1 = where[2]
    else:
        p1 = 1 if where[3] != 1 else (0 if bool(t.displacement[0][0] > [1.0, 4.0, 7.0][p2] - 7.0 + 1.0) else 2)
    dx = [1.0, 4.0, 7.0][p2] - [1.0, 4.0, 7.0][p1]
    ctx.eq("displacement of this run", t.displacement[0][0], dx, atol=1e-9)
    ctx.eq("tracer diffusivity over this run", t.results["tracer_diffusivity"][-1] * 1e16 * (t2 - t1) * 6, dx * dx, rtol=1e-6)
    ctx.eq("time column", t.results["time"][-1], t2)
