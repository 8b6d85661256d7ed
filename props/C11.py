"""Trajectories: each ion's displacement is the sum of its own minimum-image hops."""
from .common import *

LATS = {
    "cubic": ((10.0, 0, 0), (0, 8.0, 0), (0, 0, 4.0)),
    "skew": ((6.0, 0, 0), (-3.0, 5.0, 0), (1.0, 2.0, 7.0)),
}


def build(ctx, frac, lat, species="Na"):
    base = structure([species] * len(frac), [[float(i) / len(frac), 0.1, 0.2] for i in range(len(frac))], LATS[lat])
    if ctx.sym:
        return SymStructure(ctx, base, frac)
    return structure([species] * len(frac), frac, LATS[lat])


def tracker(ctx, struct, st, hop_lookup=None, **kw):
    T = ctx.mod("kmcpy.simulator.tracker").Tracker
    return T(config=kw.pop("config", None) or make_config(ctx), structure=struct, initial_state=st, hop_state_lookup=hop_lookup, **kw)


def cart(lat, f):
    m = LATS[lat]
    return [sum(f[r] * m[r][c] for r in range(3)) for c in range(3)]


def min_image(ctx, fa, fb):
    out = []
    for x, y in zip(fa, fb):
        d = y - x
        k = floor(d + 0.5)
        ctx.assume(d + 0.5 - k > 0.001)  # the image of an exact half cell is ambiguous
        ctx.assume(d + 0.5 - k < 0.999)
        out.append(d - k)
    return out


ENDS = [(0, 1), (2, 1), (2, 3)]


@harness(
    "C11",
    configs=[{"lat": "cubic", "steps": 2, "enc": 0}, {"lat": "skew", "steps": 1, "enc": 1}, {"lat": "skew", "steps": 2, "enc": 1}],
    thorough=[{"lat": "skew", "steps": 3, "enc": 0}, {"lat": "cubic", "steps": 3, "enc": 1}],
    bounds="4 sites at arbitrary fractional coordinates in [-1, 2), orthogonal and skew cell, 3 events in both directions, every "
    "placement of the ions, histories of 1-2 (thorough 3) hops",
)
def displacement(ctx, lat, steps, enc):
    frac = [[ctx.real(f"x{i}{c}", -1, 2, hi_open=True) if c != 1 or i == 1 else 0.1 * i for c in range(3)] for i in range(4)]
    codes = [((0, 0, 0, 0), (1, 1, 1, 1)), ((0, 1, 2, 0), (1, 0, 1, 2))][enc]
    mob, vac = codes
    full = [ctx.choice(f"o{i}", [True, False]) for i in range(4)]
    occ = [mob[i] if full[i] else vac[i] for i in range(4)]
    st = state(ctx, list(occ))
    lib = event_lib(ctx, [make_event(ctx, *e) for e in ENDS])
    lk = None
    if enc:
        lk = lookup(ctx, mob, vac)
        lk.annotate_event_lib(lib)
    t = tracker(ctx, build(ctx, frac, lat), st, lk)
    where = {i: n for n, i in enumerate(i for i in range(4) if full[i])}  # site -> ion
    want = [[0, 0, 0] for _ in where]
    hops = [0] * len(where)
    for s in range(steps):
        i = ctx.choice(f"ev{s}", [0, 1, 2])
        a, b = ENDS[i]
        if (a in where) == (b in where):
            return
        src, dst = (a, b) if a in where else (b, a)
        t.update(lib.events[i], 0.5)
        st.apply_event(lib.events[i], 0.5)
        ion = where.pop(src)
        where[dst] = ion
        d = cart(lat, min_image(ctx, frac[src], frac[dst]))
        want[ion] = [x + y for x, y in zip(want[ion], d)]
        hops[ion] += 1
    ctx.check("one row per ion", len(t.displacement) == len(want) and len(t.hop_counter) == len(want))
    for k, row in enumerate(want):
        ctx.eq_all(f"displacement of ion {k}", t.displacement[k], row)
        ctx.check("hops counted for the ion that moved", t.hop_counter[k] == hops[k])


@harness(
    "C11",
    configs=[{"enc": 0}, {"enc": 1}],
    bounds="any occupation 0..2 of 4 sites (codes -1..2 per site): ions counted at the start, and an event that is not executable "
    "leaves every record unchanged",
)
def ions_and_refusal(ctx, enc):
    occ = ctx.ints("o", 4, 0, 2)
    mob, vac = [((0, 0, 0, 0), (1, 1, 1, 1)), ((0, -1, 2, 1), (1, 1, 0, 2))][enc]
    lib = event_lib(ctx, [make_event(ctx, *e) for e in ENDS])
    lk = lookup(ctx, mob, vac) if enc else None
    if enc:
        lk.annotate_event_lib(lib)
    st = state(ctx, list(occ))
    frac = [[0.1 + 0.2 * i, 0.0, 0.3] for i in range(4)]
    t = tracker(ctx, build(ctx, frac, "cubic"), st, lk)
    n = sum(ite(land(m >= 0, o == m), 1, 0) for o, m in zip(occ, mob))
    ctx.check("one tracked ion per site holding the mobile species", t.n_mobile_ion_specie == n)
    i = ctx.choice("ev", [0, 1, 2])
    a, b = ENDS[i]
    can = lor(land(occ[a] == mob[a], occ[b] == vac[b]), land(occ[a] == vac[a], occ[b] == mob[b]))
    t.update(lib.events[i], 0.5)
    total = sum(ctx.concrete(x) if ctx.sym else int(x) for x in t.hop_counter) if len(t.hop_counter) else 0
    ctx.check("one hop recorded exactly when the event is executable", ite(can, 1, 0) == total)
    if bool(lnot(can)):
        for k in range(len(t.hop_counter)):
            ctx.eq_all("no displacement", t.displacement[k], [0.0, 0.0, 0.0])


@harness(
    "C11",
    configs=[{}],
    bounds="any coordinates of 2 sites: hopping there and back returns the ion to zero displacement with two hops",
)
def there_and_back(ctx):
    frac = [[ctx.real(f"x{i}{c}", -1, 2, hi_open=True) for c in range(3)] for i in range(2)]
    st = state(ctx, [0, 1])
    ev = make_event(ctx, 0, 1)
    t = tracker(ctx, build(ctx, frac, "skew"), st)
    min_image(ctx, frac[0], frac[1])
    for _ in range(2):
        t.update(ev, 1.0)
        st.apply_event(ev, 1.0)
    ctx.eq_all("back at the start", t.displacement[0], [0.0, 0.0, 0.0], atol=1e-9)
    ctx.check("two hops", t.hop_counter[0] == 2)


@harness(
    "C11",
    configs=[{"n": 300}],
    thorough=[{"n": 1000}],
    bounds="an ion carried 300 (thorough 1000) hops around a periodic chain of 3 sites, another one resting; any coordinates within 0.1 of thirds of the cell: displacement is not wrapped, every "
    "hop is counted",
)
def long_walk(ctx, n):
    frac = [[i / 3.0 + ctx.real(f"x{i}", -0.06, 0.06), 0.0, 0.0] for i in range(3)] + [[0.5, 0.5, 0.5]]
    st = state(ctx, [0, 1, 1, 0])
    ev = [make_event(ctx, 0, 1), make_event(ctx, 2, 1), make_event(ctx, 2, 0)]  # the second is listed against the walk
    t = tracker(ctx, build(ctx, frac, "cubic"), st)
    for s in range(n):
        t.update(ev[s % 3], 1.0)
        st.apply_event(ev[s % 3], 1.0)
    whole = (n // 3) * 10.0
    rest = n % 3
    end = (frac[rest][0] - frac[0][0]) * 10.0 if rest else 0.0
    ctx.eq("displacement along the chain", t.displacement[0][0], whole + end, rtol=1e-9)
    ctx.eq_all("no other displacement", [t.displacement[0][1], t.displacement[0][2]], [0.0, 0.0], atol=1e-9)
    ctx.check("hops", int(t.hop_counter[0]) == n)
    ctx.eq_all("resting ion", list(t.displacement[1]) + [t.hop_counter[1]], [0.0, 0.0, 0.0, 0], atol=1e-9)
