"""Transport properties: the reported numbers are the defining formulas."""
from .common import *
from .C11 import build, tracker, ENDS, LATS, cart

NAMES = ["msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio", "correlation_factor"]
SIGMA = 1.602e11


def _fn(ctx):
    return ctx.mod("kmcpy.simulator.property").compute_transport_properties


def formulas(R, n, t, d, N, a, V, q, T):
    """Reference: dictionary of formula values (None = undefined)."""
    sq = [sum(x * x for x in r) for r in R]
    tot = [sum(r[c] for r in R) for c in range(3)]
    tot2 = sum(x * x for x in tot)
    msd = sum(sq) / N
    dj = tot2 / (2 * d * t * N) * 1e-16
    dt = msd / (2 * d * t) * 1e-16
    f = sum(ite(k == 0, 0.0, s / (ite(k == 0, 1, k) * a * a)) for s, k in zip(sq, n)) / N
    return {"msd": msd, "jump_diffusivity": dj, "tracer_diffusivity": dt, "conductivity": dj * (N / V) * q * q / (KB * T) * SIGMA, "correlation_factor": f}, tot2


@harness(
    "C12",
    configs=[{"N": 1, "free": "R"}, {"N": 2, "free": "R"}, {"N": 3, "free": "R"}, {"N": 2, "free": "t"}, {"N": 2, "free": "aV"}, {"N": 2, "free": "qT"}, {"N": 2, "free": "n"}],
    thorough=[{"N": 4, "free": "R"}, {"N": 3, "free": "n"}],
    bounds="1-2 ions with arbitrary displacements up to 1e5 Angstrom (3, thorough 4, ions with one free component each) and hop counts 0..10^6; elapsed time, volume, charge, temperature, hop "
    "distance and dimension symbolic in turn",
)
def formulas_hold(ctx, N, free):
    if free == "R":
        R = [[ctx.real(f"r{i}{c}", -1e5, 1e5) if N < 3 or c == i % 3 else 0.5 * c - i for c in range(3)] for i in range(N)]
    else:
        one = ctx.real("r", -1e4, 1e4) if free in ("n", "t") else 4.0
        R = [[1.5 * i, -2.0, 0.25 + i] for i in range(N - 1)] + [[one, 2.0, ctx.choice("rz", [-0.25, 3.0])]]
    n = [ctx.int(f"n{i}", 0, 10**6) if free == "n" or i == 0 else 2 + i for i in range(N)]
    t = ctx.real("t", 1e-12, 1e6) if free == "t" else 3.5
    a = ctx.real("a", 0.05, 100) if free == "aV" else 2.5
    V = ctx.real("V", 1, 1e7) if free == "aV" else 640.0
    q = ctx.real("q", -9, 9) if free == "qT" else 1.5
    T = ctx.real("T", 1, 1e5) if free == "qT" else 425.0
    d = ctx.choice("d", [1, 2, 3])
    got = _fn(ctx)(
        ctx.array(R, dtype=float),
        ctx.array(n, dtype=int),
        sim_time=t,
        dimension=d,
        n_mobile_ion_specie=N,
        elementary_hop_distance=a,
        volume=V,
        mobile_ion_charge=q,
        temperature=T,
    )
    want, tot2 = formulas(R, n, t, d, N, a, V, q, T)
    for k, v in want.items():
        up = 1e16 if "diffusivity" in k else 1.0
        ctx.eq(k, got[k] * up, v * up, rtol=1e-3 if k == "conductivity" else 1e-7)
    if bool(tot2 == 0):
        ctx.check("no collective motion: no Haven ratio", ctx.isnan(got["havens_ratio"]))
    elif bool(tot2 > 0.01):
        ctx.eq("havens_ratio", got["havens_ratio"] * (want["jump_diffusivity"] * 1e16), want["tracer_diffusivity"] * 1e16, rtol=1e-6)


@harness(
    "C12",
    configs=[{}],
    bounds="any on/off choice of the six fields: a disabled field is NaN and no other field changes; zero or negative elapsed time: "
    "rates undefined (NaN), MSD and correlation factor still reported",
)
def disabled_and_undefined(ctx):
    t = ctx.choice("t", [2.0, 0.0, -1.0])
    x = ctx.real("x", 1, 5)
    on = {k: ctx.choice(k, [True, False]) for k in NAMES}
    args = dict(dimension=3, n_mobile_ion_specie=1, elementary_hop_distance=2.0, volume=100.0, mobile_ion_charge=1.0, temperature=300.0)
    R, n = ctx.array([[x, 0.0, 0.0]], dtype=float), ctx.array([4], dtype=int)
    got = _fn(ctx)(R, n, sim_time=t, enabled=on, **args)
    want, _ = formulas([[x, 0.0, 0.0]], [4], t or 1.0, 3, 1, 2.0, 100.0, 1.0, 300.0)
    want["havens_ratio"] = 1.0
    for k in NAMES:
        timed = k not in ("msd", "correlation_factor")
        if not on[k] or (timed and t <= 0):
            ctx.check(f"{k} undefined", ctx.isnan(got[k]))
        else:
            up = 1e16 if "diffusivity" in k else 1.0
            ctx.eq(k, got[k] * up, want[k] * up, rtol=1e-3)


@harness(
    "C12",
    configs=[{"enc": 0}, {"enc": 1}],
    bounds="reported rows after 2 hops of any of 3 events with any waiting times, from a state that already has any simulation time and "
    "step count: rates refer to the time since tracking began, the time column is the simulation time",
)
def reported(ctx, enc):
    mob, vac = [((0, 0, 0, 0), (1, 1, 1, 1)), ((0, 1, 2, 0), (1, 0, 1, 2))][enc]
    full = ctx.choice("full", [(1, 0, 1, 0), (0, 1, 0, 1), (1, 0, 0, 1)])
    t0 = ctx.real("t0", 0, 50)
    st = state(ctx, [mob[i] if full[i] else vac[i] for i in range(4)], time=t0, step=ctx.int("s0", 0, 9))
    lib = event_lib(ctx, [make_event(ctx, *e) for e in ENDS])
    lk = lookup(ctx, mob, vac) if enc else None
    if lk:
        lk.annotate_event_lib(lib)
    frac = [[0.1, 0.0, 0.0], [0.9, 0.2, 0.0], [0.6, 0.0, 0.7], [0.3, 0.3, 0.1]]
    cfg = make_config(ctx, dimension=2, mobile_ion_charge=1.5, elementary_hop_distance=2.5, temperature=500.0)
    t = tracker(ctx, build(ctx, frac, "skew"), st, lk, config=cfg)
    where = {i: k for k, i in enumerate(i for i in range(4) if full[i])}
    R, n = [[0.0] * 3, [0.0] * 3], [0, 0]
    el = 0.0
    for s in range(2):
        i = ctx.choice(f"ev{s}", [0, 1, 2])
        a, b = ENDS[i]
        if (a in where) == (b in where):
            return
        dt = ctx.real(f"dt{s}", 0.25, 4)
        src, dst = (a, b) if a in where else (b, a)
        t.update(lib.events[i], dt)
        st.apply_event(lib.events[i], dt)
        el = el + dt
        ion = where.pop(src)
        where[dst] = ion
        f = [y - x for x, y in zip(frac[src], frac[dst])]
        f = [v - round(v) for v in f]
        R[ion] = [x + y for x, y in zip(R[ion], cart("skew", f))]
        n[ion] += 1
        t.sample_properties(step=s + 1, sim_time=t0 + el)
    vol = 210.0
    want, _ = formulas(R, n, el, 2, 2, 2.5, vol, 1.5, 500.0)
    for k, v in want.items():
        ctx.check("a row per sample", len(t.results[k]) == 2)
        up = 1e16 if "diffusivity" in k else 1.0
        ctx.eq(k, t.results[k][-1] * up, v * up, rtol=1e-3 if k == "conductivity" else 1e-6)
    ctx.eq("time column", t.results["time"][-1], t0 + el)
    info = t.return_current_info()
    ctx.eq("latest time", info[0], t0 + el)
    ctx.eq("latest msd", info[1], want["msd"], atol=1e-12)
    ctx.eq("latest jump", info[2] * 1e16, want["jump_diffusivity"] * 1e16, atol=1e-12)
    ctx.eq("latest tracer", info[3] * 1e16, want["tracer_diffusivity"] * 1e16, atol=1e-12)
    ctx.eq("latest f", info[6], want["correlation_factor"], atol=1e-12)
