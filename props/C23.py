"""Fitted parameters bind to their features and survive storage."""
import os

from .common import *


def _P(ctx):
    return ctx.mod("kmcpy.models.parameters")


FIELDS = ["keci", "empty_cluster", "cluster_site_indices", "weight", "alpha", "time_stamp", "time", "rmse", "loocv", "normalize", "orbit_fingerprints", "local_environment_hash"]


def record(ctx, tag, n, full=True):
    """One fitted-parameter record with n coefficients."""
    return dict(
        keci=ctx.reals("keci" + tag, n, -900, 900),
        empty_cluster=ctx.real("e0" + tag, -900, 900),
        cluster_site_indices=[[0, 1], [2]],
        weight=ctx.reals("w" + tag, 2, 0, 50),
        alpha=ctx.real("alpha" + tag, 0, 9),
        time_stamp=ctx.real("ts" + tag, 0, 2e9),
        time="11/18/2026, 09:00:0" + (tag or "0"),
        rmse=ctx.real("rmse" + tag, 0, 99),
        loocv=ctx.real("cv" + tag, 0, 99),
        normalize=ctx.concrete(ctx.bool("norm" + tag)),
        orbit_fingerprints=[f"fp{i}{tag}" for i in range(n)] if full else None,
        local_environment_hash=("hash" + tag) if full else None,
    )


def same(a, b):
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and land(*[same(x, y) for x, y in zip(a, b)])
    if b is None or isinstance(b, str):
        return type(a) is type(b) and a == b
    if isinstance(a, float) and isinstance(b, float):  # plain run: YAML writes the last digits of a float its own way
        return abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    return a == b


def expect(ctx, label, p, want):
    for k in FIELDS:
        ctx.check(f"{label}: {k}", same(getattr(p, k), want[k]))


@harness(
    "C23",
    configs=[{"ext": e, "full": f} for e in ("json", "yaml", "h5") for f in (True, False)],
    bounds="any coefficients, constant, weights, settings and errors of a record with 3 coefficients, with and without feature identities: dictionary and file (JSON, YAML, HDF5) round trips",
)
def storage(ctx, ext, full):
    P = _P(ctx)
    want = record(ctx, "", 3, full)
    if ext == "h5":
        ctx.h5()
        want["cluster_site_indices"] = [4, 0, 2]
    p = P.LCEModelParameters(**want)
    expect(ctx, "dictionary", P.LCEModelParameters.from_dict(p.as_dict()), want)
    f = os.path.join(ctx.tmp(), "p." + ext)
    p.to(f)
    expect(ctx, "file", P.LCEModelParameters.from_file(f), want)
    expect(ctx, "source untouched", p, want)


@harness(
    "C23",
    configs=[{"ext": e, "n": n} for e, n in (("json", 3), ("yaml", 2), ("h5", 3), ("h5", 12))],
    thorough=[{"ext": "h5", "n": 101}, {"ext": "json", "n": 30}],
    bounds="histories of up to 12 (thorough 101) records with any coefficients, appended one after another and stored after each: every record in the order of the fits, in every file form",
)
def history(ctx, ext, n):
    P = _P(ctx)
    if ext == "h5":
        ctx.h5()
    f = os.path.join(ctx.tmp(), "h." + ext)
    want = []
    h = P.LCEModelParamHistory()
    short = n > 5
    for i in range(n):
        w = record(ctx, "", 2, True) if i == 0 else {**want[0], "keci": [ctx.real(f"k{i}", -900, 900), 0.5], "alpha": float(i), "time": f"t{i}", "orbit_fingerprints": [f"a{i}", "b"]}
        w["cluster_site_indices"] = [1, 2]
        want.append(w)
        h.append(P.LCEModelParameters(**w))
        if short and i < n - 1:
            continue
        h.to(f)
        h = P.LCEModelParamHistory.from_file(f)
    ctx.check("number of records", len(h.history) == n)
    for i, (p, w) in enumerate(zip(h.history, want)):
        expect(ctx, f"record {i}", p, w)
    back = P.LCEModelParamHistory.from_dict(h.as_dict())
    ctx.check("dictionary", len(back.history) == n)
    for i in (0, n - 1):
        expect(ctx, f"dictionary record {i}", back.history[i], want[i])
    legacy = P.LCEModelParamHistory.from_dict([p.as_dict() for p in h.history])
    ctx.check("list form", len(legacy.history) == n)
    expect(ctx, "list form", legacy.history[-1], want[-1])


SITES = [("Na", (0.0, 0.0, 0.0)), ("Si", (0.28, 0.0, 0.0)), ("Si", (0.0, 0.28, 0.0)), ("Na", (0.0, 0.0, 0.3))]


def built(ctx, basis="occupation", cutoff=3.2, sites=SITES, mapping=None, cuts=(6, 6, 6), center=0, **kw):
    LL = ctx.mod("kmcpy.structure.local_lattice_structure").LocalLatticeStructure
    L = ctx.mod("kmcpy.models.local_cluster_expansion").LocalClusterExpansion
    s = structure([x[0] for x in sites], [x[1] for x in sites])
    lls = LL(template_structure=s, center=center, cutoff=cutoff, site_mapping=mapping or {"Na": ["Na", "X"], "Si": ["Si", "P"]}, basis_type=basis, **kw)
    m = L()
    m.build(local_lattice_structure=lls, cutoff_cluster=list(cuts))
    return m, lls


def energies(m, ctx, occ, env):
    return m.compute(simulation_state=state(ctx, occ), event=make_event(ctx, 0, 1, env))


def corr(m, occ, env, phi=None):
    """Correlation sums from the published cluster lists (occupation basis)."""
    out = []
    for o in m.cluster_site_indices:
        t = 0
        for c in o:
            p = 1
            for i in c:
                p = p * occ[env[int(i)]]
            t = t + p
        out.append(t)
    return out


@harness(
    "C23",
    configs=[{"form": f} for f in ("dict", "object", "json", "h5")],
    bounds="a built expansion with 10 orbits over 4 sites: 9 to 11 coefficients of any value, feature identities given or not, permuted, altered, cut or extended, the "
    "environment identity given or not or foreign; any occupation of the 4 sites",
)
def binding(ctx, form):
    P = _P(ctx)
    m, lls = built(ctx)
    fps, h = list(m.get_orbit_fingerprints()), m.local_environment_hash
    n0 = len(fps)
    ctx.check("one identity per coefficient", n0 == len(m.cluster_site_indices) and len(set(fps)) == n0)
    old = [1.0 + i for i in range(n0)]
    m.set_parameters({"keci": old, "empty_cluster": -5.0, "orbit_fingerprints": fps, "local_environment_hash": h})
    n = ctx.choice("n", [n0, n0 - 1, n0 + 1])
    keci = [ctx.real(f"k{i}", -900, 900) for i in range(n)]
    e0 = ctx.real("e0", -900, 900)
    which = ctx.choice("identities", ["own", "none", "swapped", "altered", "cut", "extended", "rotated"])
    ids = {
        "own": fps, "none": None, "swapped": [fps[0], fps[2], fps[1]] + fps[3:], "altered": fps[:-1] + ["0" * 64], "cut": fps[:-1], "extended": fps + [fps[-1]],
        "rotated": fps[1:] + fps[:1],
    }[which]
    hw = ctx.choice("environment", ["own", "none", "foreign"])
    hv = {"own": h, "none": None, "foreign": h[:-1] + ("0" if h[-1] != "0" else "1")}[hw]
    rec = dict(keci=keci, empty_cluster=e0, cluster_site_indices=[], weight=[1.0], alpha=0.1, time_stamp=1.0, time="t", rmse=0.0, loocv=0.0, orbit_fingerprints=ids, local_environment_hash=hv)
    if form == "dict":
        r = ctx.run(m.set_parameters, {k: v for k, v in rec.items() if v is not None})
    elif form == "object":
        r = ctx.run(m.set_parameters, P.LCEModelParameters(**rec))
    else:
        if form == "h5":
            ctx.h5()
        f = os.path.join(ctx.tmp(), "p." + form)
        P.LCEModelParameters(**rec).to(f)
        r = ctx.run(m.load_parameters_from_file, f)
    ok = n == n0 and which in ("own", "none") and hw in ("own", "none")
    ctx.check("accepted exactly when they belong to this expansion", r.ok == ok)
    if not r.ok:
        ctx.check("ValueError", isinstance(r.exc, ValueError))
    occ = [0, 1] + [ctx.int(f"o{i}", 0, 1) for i in range(4)]
    env = (3, 2, 5, 4)
    got = energies(m, ctx, occ, env)
    k, c = (keci, e0) if r.ok else (old, -5.0)
    ctx.eq("the value uses the parameters in force", got, c + sum(x * y for x, y in zip(k, corr(m, occ, env))), rtol=1e-6)
    ctx.raises("other objects are refused", m.set_parameters, [1.0, 2.0], exc=TypeError)


@harness(
    "C23",
    configs=[{"basis": b} for b in ("occupation", "chebyshev")],
    bounds="two expansions over 4 sites differing in one cutoff, one position, one species or the site order: coefficients of one are refused by the other unless the expansions are the same; "
    "the written expansion is the same expansion, and one whose orbits were exchanged or replaced is refused",
)
def identity(ctx, basis):
    L = ctx.mod("kmcpy.models.local_cluster_expansion").LocalClusterExpansion
    a, _ = built(ctx, basis)
    how = ctx.choice("how", ["same", "cutoff", "position", "species", "mirror", "reorder"])
    kw = dict(basis=basis)
    if how == "cutoff":
        kw["cuts"] = (6, 6, 3.5)
    elif how == "position":
        kw["sites"] = SITES[:3] + [("Na", (0.0, 0.0, 0.295))]
    elif how == "species":
        kw["sites"] = SITES[:2] + [("Na", SITES[2][1]), SITES[3]]
    elif how == "mirror":
        kw["sites"] = SITES[:3] + [("Na", (0.0, 0.0, -0.3))]
    elif how == "reorder":
        kw["local_site_order"] = {"name": "z", "sort_keys": ["cartesian_z", "cartesian_y", "cartesian_x"]}
    b, _ = built(ctx, **kw)
    n = len(a.get_orbit_fingerprints())
    keci = ctx.reals("k", n, -99, 99)
    rec = {"keci": keci, "empty_cluster": 1.5, "orbit_fingerprints": a.get_orbit_fingerprints(), "local_environment_hash": a.local_environment_hash}
    r = ctx.run(b.set_parameters, rec)
    ctx.check("refused unless it is the same expansion", r.ok == (how == "same"))
    if how != "same":
        return
    f = os.path.join(ctx.tmp(), "m.json")
    a.to(f)
    c = L.from_file(f)
    ctx.check("stored expansion is the same", ctx.run(c.set_parameters, rec).ok)
    ctx.check("stored clusters", [[list(map(int, x)) for x in o] for o in c.cluster_site_indices] == [[list(map(int, x)) for x in o] for o in a.cluster_site_indices])
    a.set_parameters(rec)
    occ = [0, 1] + [ctx.concrete(ctx.int(f"o{i}", 0, 1)) for i in range(4)]
    ctx.eq("same value", energies(c, ctx, occ, (2, 3, 4, 5)), energies(a, ctx, occ, (2, 3, 4, 5)), rtol=1e-6)
    d = a.as_dict()
    bad = ctx.choice("tamper", ["none", "exchange", "replace"])
    if bad == "exchange":
        d["orbits"][2], d["orbits"][3] = d["orbits"][3], d["orbits"][2]
    elif bad == "replace":
        d["orbits"][1] = d["orbits"][0]
    q = ctx.run(L.from_dict, d)
    ctx.check("altered orbits are refused", q.ok == (bad == "none"))
