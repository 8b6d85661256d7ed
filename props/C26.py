"""Event libraries: what is stored is what is read, and every event stays in the index space of its structure."""
import os

from .C17 import MAPS, build
from .common import *

N = 6


def order(ctx):
    return build(ctx, ["Na", "O", "Si", "Na"], MAPS[0], (1, 1, 2))


def lib_of(ctx, evs, with_deps):
    L = ctx.mod("kmcpy.event").EventLib
    lib = L()
    for e in evs:
        lib.add_event(make_event(ctx, *e))
    if with_deps:
        lib.generate_event_dependencies()
    return lib


def sites_of(ev):
    return [ev[0], ev[1], *ev[2]]


def expect(ctx, label, lib, evs):
    ctx.check(f"{label}: number", len(lib) == len(evs))
    for i, e in enumerate(evs):
        g = lib[i]
        ctx.check(f"{label}: endpoints in order", land(len(g.mobile_ion_indices) == 2, g.mobile_ion_indices[0] == e[0], g.mobile_ion_indices[1] == e[1]))
        ctx.check(f"{label}: environment in order", land(len(g.local_env_indices) == len(e[2]), *[a == b for a, b in zip(g.local_env_indices, e[2])]))


def deps(ctx, label, lib, evs):
    for i, a in enumerate(evs):
        got = [int(x) for x in lib.get_dependent_events(i)]
        for j, b in enumerate(evs):
            ctx.check(f"{label}: dependencies", iff(j in got, lor(*[x == y for x in sites_of(a) for y in sites_of(b)])))
        ctx.check(f"{label}: nothing else", len(got) == len(set(got)) and all(0 <= x < len(evs) for x in got))


def involving(ctx, label, lib, evs):
    for s in range(N):
        got = [int(x) for x in lib.get_events_involving_site(s)]
        for j, e in enumerate(evs):
            ctx.check(f"{label}: events of a site", iff(j in got, lor(*[x == s for x in sites_of(e)])))


@harness(
    "C26",
    configs=[{"deps": d, "k": k} for d, k in ((True, 0), (False, 1), (True, 2))],
    thorough=[{"deps": d, "k": k, "nc": N} for d in (True, False) for k in (0, 1, 2)],
    bounds="libraries of 3 events over 6 active sites: all endpoints of one event and an environment site of another, stored with and without dependencies (dictionary, JSON file)",
)
def storage(ctx, deps, k, nc=3):
    E = ctx.mod("kmcpy.event")
    a = ctx.int("a", 0, N - 1)
    b = ctx.int("b", 0, N - 1)
    c = ctx.int("c", 0, nc - 1)
    ctx.assume(a != b)
    fixed = [(4, 1, (5, 0, 2)), (2, 3, ()), (0, 5, (3,))]
    evs = list(fixed)
    evs[k] = (a, b, fixed[k][2])
    evs[(k + 1) % 3] = fixed[(k + 1) % 3][:2] + ((c,) + fixed[(k + 1) % 3][2],)
    o = order(ctx)
    lib = lib_of(ctx, evs, deps)
    lib.set_index_metadata(o)
    how, oth = ctx.choice("how", [("dict", 0), ("json", 1), ("json", 2)])
    if how == "dict":
        got = E.EventLib.from_dict(lib.as_dict())
    else:
        f = os.path.join(ctx.tmp(), "e." + how)
        lib.to(f)
        got = E.EventLib.from_file(f)
    expect(ctx, "read", got, evs)
    expect(ctx, "source unchanged", lib, evs)
    if deps or how != "dict":
        globals()["deps"](ctx, "read", got, evs)
    involving(ctx, "built", lib, evs)
    involving(ctx, "read", got, evs)
    r = ctx.run(got.validate_index_metadata, o)
    ctx.check("valid for its own structure", r.ok)
    other = build(ctx, *[(["Na", "O", "Na", "Si"], MAPS[0], (1, 1, 2)), (["Na", "O", "Si", "Na"], MAPS[0], (1, 2, 1)), (["Na", "Si", "Na"], MAPS[0], (1, 1, 2))][oth])
    ctx.raises("refused for another order of the sites", got.validate_index_metadata, other, exc=ValueError)


@harness(
    "C26",
    configs=[{}],
    bounds="one site index of any event anywhere in -3..9 over 6 active sites, as start, end or environment: refused exactly when outside; without order information, "
    "in the old list form or with altered order information refused",
)
def limits(ctx):
    E = ctx.mod("kmcpy.event")
    x = ctx.int("x", -3, 9)
    where = ctx.choice("where", ["start", "end", "env"])
    ev = {"start": (x, 1, (0,)), "end": (1, x, (0,)), "env": (0, 1, (2, x, 3))}[where]
    ctx.assume(x != 1)
    o = order(ctx)
    evs = [(4, 5, (0,)), ev]
    inside = land(x >= 0, x < N)
    lib = lib_of(ctx, evs, True)
    r = ctx.run(lib.set_index_metadata, o)
    ctx.check("accepted exactly inside the index space", iff(r.ok, inside))
    good = lib_of(ctx, [(4, 5, (0,)), (2, 1, (0,))], True)
    good.set_index_metadata(o)
    d = good.as_dict()
    d["events"][1] = {"mobile_ion_indices": [ev[0], ev[1]], "local_env_indices": list(ev[2])}
    q = ctx.run(E.EventLib.from_dict, d)
    ctx.check("read exactly inside the index space", iff(q.ok, inside))
    if not q.ok:
        ctx.check("refused as an index", isinstance(q.exc, (ValueError, IndexError)))
    bare = lib_of(ctx, [(4, 5, ())], True)
    f = os.path.join(ctx.tmp(), "x.json")
    ctx.raises("not stored without order information", bare.to, f, exc=ValueError)
    ctx.check("nothing written", not os.path.exists(f))
    ctx.raises("not valid without order information", bare.validate_index_metadata, o, exc=ValueError)
    ctx.raises("not read without order information", E.EventLib.from_dict, bare.as_dict(), exc=ValueError)
    ctx.write_json(f, [{"mobile_ion_indices": [0, 1], "local_env_indices": []}])
    ctx.raises("old list form", E.EventLib.from_file, f, exc=ValueError)


@harness(
    "C26",
    configs=[{}],
    bounds="libraries grown one event at a time (2 steps, all endpoints of the added event): dependencies, once cleared and generated again, cover the added event",
)
def growth(ctx):
    a, b = ctx.int("a", 0, N - 1), ctx.int("b", 0, N - 1)
    ctx.assume(a != b)
    evs = [(0, 1, (2,)), (3, 4, ())]
    lib = lib_of(ctx, evs, True)
    globals()["deps"](ctx, "before", lib, evs)
    evs.append((a, b, (5,)))
    lib.add_event(make_event(ctx, *evs[-1]))
    lib.clear_event_dependencies()
    ctx.check("cleared", not lib.has_event_dependencies())
    lib.generate_event_dependencies()
    globals()["deps"](ctx, "after", lib, evs)
    involving(ctx, "after", lib, evs)
    i = lib.get_event_dependencies_info()
    s = lib.get_dependency_statistics()
    n = [sum(ite(lor(*[x == y for x in sites_of(p) for y in sites_of(q)]), 1, 0) for q in evs) for p in evs]
    ctx.check("statistics", land(i["num_events"] == 3, i["total_dependencies"] == sum(n), s["total_events"] == 3, s["total_dependencies"] == sum(n)))
    ctx.check("extremes", land(s["max_dependencies_per_event"] == smax(smax(n[0], n[1]), n[2]), s["min_dependencies_per_event"] == smin(smin(n[0], n[1]), n[2])))
    ctx.eq("mean", s["avg_dependencies_per_event"] * 3, sum(n))
    ctx.eq("density", s["dependency_density"] * 9, sum(n))


@harness(
    "C26",
    configs=[{}],
    bounds="order information set twice, with two of three different orders of the same number of sites: the library is valid for the second only, also after storage",
)
def rebinding(ctx):
    E = ctx.mod("kmcpy.event")
    orders = [order(ctx), build(ctx, ["Na", "O", "Na", "Si"], MAPS[0], (1, 1, 2)), build(ctx, ["Na", "O", "Si", "Na"], MAPS[0], (1, 2, 1))]
    i = ctx.choice("first", [0, 1, 2])
    j = ctx.choice("second", [x for x in range(3) if x != i])
    lib = lib_of(ctx, [(4, 1, (5, 0, 2)), (2, 3, ())], True)
    lib.set_index_metadata(orders[i])
    ctx.check("valid for the first", ctx.run(lib.validate_index_metadata, orders[i]).ok)
    lib.set_index_metadata(orders[j])
    for l in (lib, E.EventLib.from_dict(lib.as_dict())):
        for k in range(3):
            ctx.check("valid exactly for the order set last", ctx.run(l.validate_index_metadata, orders[k]).ok == (k == j))
