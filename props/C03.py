"""Dependency lists contain exactly the events that share a site."""
from .common import *


def _expect(ctx, sites):
    n = len(sites)
    return [[lor(*[a == b for a in sites[i] for b in sites[j]]) for j in range(n)] for i in range(n)]


def _check(ctx, lib, sites, tag=""):
    n = len(sites)
    exp = _expect(ctx, sites)
    for i in range(n):
        deps = [int(d) for d in lib.get_dependent_events(i)]
        ctx.check(f"{tag}no duplicate or foreign entry", len(set(deps)) == len(deps) and all(0 <= d < n for d in deps))
        for j in range(n):
            ctx.check(f"{tag}event is listed exactly when it shares a site", iff(j in deps, exp[i][j]))


@harness(
    "C03",
    configs=[{"na": 1, "nb": 1, "f0": f} for f in range(4)] + [{"na": 0, "nb": 2, "f0": f} for f in range(4)],
    bounds="2 events; every site index (2 endpoints + 0-2 environment sites each) any value 0..3, any order, repeats allowed in "
    "the environment",
)
def pair(ctx, na, nb, f0):
    to0 = ctx.int("to0", 0, 3)
    f1, to1 = ctx.ints("b", 2, 0, 3)
    ea, eb = ctx.ints("ea", na, 0, 3), ctx.ints("eb", nb, 0, 3)
    ctx.assume(land(to0 != f0, f1 != to1))
    evs = [make_event(ctx, f0, to0, ea), make_event(ctx, f1, to1, eb)]
    lib = event_lib(ctx, evs)
    _check(ctx, lib, [[f0, to0] + ea, [f1, to1] + eb])


@harness(
    "C03",
    configs=[{"base": b} for b in range(4)],
    thorough=[{"base": b, "nenv": 3} for b in range(4)],
    bounds="4 events of up to 5 sites (large, unsorted indices up to 10^6); the last event's endpoints and one environment site "
    "are symbolic over 8 index values",
)
def larger(ctx, base, nenv=1):
    fixed = [
        [(700, 3, (12, 5, 9)), (40, 41, ()), (9, 100000, (3,))],
        [(0, 1, (7, 6, 5)), (5, 8, (8, 8)), (2, 3, ())],
        [(1000000, 2, (1, 0)), (4, 1000000, (9, 7, 6)), (0, 3, (4,))],
        [(5, 4, (3, 2, 1, 0)), (6, 7, (9,)), (9, 8, (6, 5, 4))],
    ][base]
    pool = sorted({s for f, t, e in fixed for s in (f, t, *e)})[:7] + [999]
    evs = [make_event(ctx, *f) for f in fixed]
    a = ctx.choice("a", pool)
    b = ctx.choice("b", [p for p in pool if p != a])
    env = [ctx.choice(f"e{i}", pool[i::nenv]) for i in range(nenv)]
    evs.append(make_event(ctx, a, b, env))
    sites = [[f, t, *e] for f, t, e in fixed] + [[a, b, *env]]
    lib = event_lib(ctx, evs)
    _check(ctx, lib, sites)


@harness(
    "C03",
    configs=[{}],
    bounds="2 events with symbolic sites 0..2 (one environment site on the second): site lookup table, reload without stored "
    "dependencies is covered by C26",
)
def site_lookup(ctx):
    f0, t0 = 0, 1
    f1, t1 = ctx.ints("b", 2, 0, 2)
    e1 = ctx.int("e", 0, 2)
    ctx.assume(f1 != t1)
    evs = [make_event(ctx, f0, t0, ()), make_event(ctx, f1, t1, (e1,))]
    lib = event_lib(ctx, evs)
    sites = [[f0, t0], [f1, t1, e1]]
    for s in range(4):
        got = set(int(x) for x in lib.get_events_involving_site(s))
        for j in range(2):
            ctx.check("site table lists exactly the events using the site", iff(j in got, lor(*[x == s for x in sites[j]])))
    ctx.check("library keeps events in order of addition", len(lib) == 2 and lib[0] is evs[0] and lib.get_event(1) is evs[1])


@harness(
    "C03",
    configs=[{"n": 1}, {"n": 2}],
    bounds="event added after dependencies were generated; dependencies regenerated: the new event (symbolic sites 0..2) is included",
)
def regenerate(ctx, n):
    evs = [make_event(ctx, 0, 1, ()), make_event(ctx, 2, 3, ())][:n]
    lib = event_lib(ctx, evs)
    a, b = ctx.ints("n", 2, 0, 2)
    ctx.assume(a != b)
    lib.add_event(make_event(ctx, a, b, ()))
    lib.clear_event_dependencies()
    ctx.check("cleared library reports no dependencies", not lib.has_event_dependencies())
    lib.generate_event_dependencies()
    sites = [[0, 1], [2, 3]][:n] + [[a, b]]
    _check(ctx, lib, sites, "after regeneration: ")


@harness(
    "C03",
    configs=[{"order": o, "n": n} for o in ("down", "up", "mixed") for n in (40, 130)],
    bounds="4 events, one of them with 40 or 130 environment sites listed in descending, ascending or mixed order; the sites of "
    "the others (one endpoint and one environment site) are chosen among the first, middle and last of those and foreign sites",
)
def wide_environment(ctx, order, n):
    env = list(range(10, 10 + n))
    if order == "down":
        env = env[::-1]
    elif order == "mixed":
        env = [env[(i * 37) % n] if n % 37 else env[i] for i in range(n)]
    pool = [0, 1, 10, 10 + n // 2, 9 + n, 5000]
    a = ctx.choice("a", pool)
    e = ctx.choice("e", pool)
    sites = [[0, 1] + env, [3, a], [4, 5, e], [6, 7] + env[::2]]
    evs = [make_event(ctx, s[0], s[1], s[2:]) for s in sites]
    _check(ctx, event_lib(ctx, evs), sites)
    for s in pool:
        got = set(int(x) for x in event_lib(ctx, evs).get_events_involving_site(s))
        ctx.check("site table lists exactly the events using the site", got == {i for i, x in enumerate(sites) if s in x})
