"""Simulation state in files: checkpoints restore exactly, initial states reach the right active sites."""
import os

from .common import *
from .C06 import aso


def _S(ctx):
    return ctx.mod("kmcpy.simulator.state").State


@harness(
    "C16",
    configs=[{"ext": e, "n": n} for e in (".json", ".h5") for n in (1, 4)],
    thorough=[{"ext": e, "n": 8} for e in (".json", ".h5")],
    bounds="1-4 (thorough 8) sites with any occupation 0..5, any time (to 1e6 s; separately to 1e-9 s, resolved to 1e-27 s) and step: saved, then loaded through load_checkpoint and from_file; "
    "saving does not change the state, a second save overwrites the first",
)
def checkpoint(ctx, ext, n):
    S = _S(ctx)
    ctx.h5()
    occ = ctx.ints("o", n, 0, 5)
    t, k = ctx.real("t", 0, 1.0e6) + 0.1, ctx.int("k", 0, 10**9)  # not a short binary fraction
    st = S(occupations=occ, time=t, step=k)
    p = os.path.join(ctx.tmp(), "check" + ext)
    S(occupations=[7] * (n + 2), time=-1.0, step=-1).save_checkpoint(p)
    st.save_checkpoint(p)
    u = ctx.real("u", 0, 1.0e-9)
    q = os.path.join(ctx.tmp(), "short" + ext)
    S(occupations=[0, 1], time=u, step=1).save_checkpoint(q)
    for name, f in (("load_checkpoint", S.load_checkpoint), ("from_file", S.from_file)):
        r = f(p)
        ctx.check(f"{name}: type", isinstance(r, S))
        ctx.eq_all(f"{name}: occupations", r.occupations, occ)
        ctx.eq(f"{name}: time", r.time, t, rtol=0, atol=0)
        ctx.eq(f"{name}: step", r.step, k)
        ctx.eq(f"{name}: short times", f(q).time * 1.0e18, u * 1.0e18)
    ctx.eq_all("saving changes nothing", st.occupations, occ)
    ctx.eq("time unchanged", st.time, t)
    d = S.from_dict(st.as_dict())
    ctx.eq_all("dictionary round trip", d.occupations, occ)
    ctx.eq("dictionary time", d.time, t, rtol=0, atol=0)
    ctx.eq("dictionary step", d.step, k)


@harness(
    "C16",
    configs=[{"ext": ".json"}, {"ext": ".h5"}],
    bounds="3 sites, a checkpoint between two hops of any of 2 events with any waiting times: the resumed history equals the uninterrupted one; "
    "the restored state, a copy and the dictionary are independent of the running state",
)
def resume(ctx, ext):
    S = _S(ctx)
    ctx.h5()
    occ = [ctx.choice(f"o{i}", [0, 1]) for i in range(3)]
    t, k = ctx.real("t", 0, 100), ctx.int("k", 0, 50)
    ev = [make_event(ctx, 0, 1), make_event(ctx, 2, 1)]
    seq = [ctx.choice(f"e{i}", [0, 1]) for i in range(2)]
    dt = ctx.reals("dt", 2, 0, 5)
    a = S(occupations=list(occ), time=t, step=k)
    o = ctx.run(a.apply_event, ev[seq[0]], dt[0])
    if not o.ok:
        return
    p = os.path.join(ctx.tmp(), "c" + ext)
    a.save_checkpoint(p)
    snap, cp, dd = list(a.occupations), a.copy(), a.as_dict()
    o1 = ctx.run(a.apply_event, ev[seq[1]], dt[1])
    b = S.load_checkpoint(p)
    ctx.eq_all("checkpoint holds the state at saving", b.occupations, snap)
    ctx.eq_all("copy is independent", cp.occupations, snap)
    ctx.eq_all("dictionary is independent", dd["occupations"], snap)
    ctx.eq("copy keeps time", cp.time, t + dt[0])
    ctx.eq("copy keeps step", cp.step, k + 1)
    o2 = ctx.run(b.apply_event, ev[seq[1]], dt[1])
    ctx.check("same outcome", o1.ok == o2.ok)
    ctx.eq_all("same occupations", b.occupations, a.occupations)
    ctx.eq("same time", b.time, a.time)
    ctx.eq("same step", b.step, a.step)


ORD = {"allowed": [("Na", "X"), ("O",), ("Si", "P"), ("K",)], "active": (0, 2)}


def order(ctx, shape):
    """4 primitive sites (two active), site-major supercell."""
    A = ctx.mod("kmcpy.structure.active_site_order").ActiveSiteOrder
    s = structure(["Na", "O", "Si", "K"], [[0.1, 0, 0], [0.3, 0.2, 0], [0.6, 0, 0.5], [0.9, 0.4, 0.1]])
    return A.from_structure_and_mapping(s, {"Na": ["Na", "X"], "O": ["O"], "Si": ["Si", "P"], "K": ["K"]}, supercell_shape=shape)


@harness(
    "C16",
    configs=[{"shape": s, "key": k} for s in ((1, 1, 1), (2, 1, 1), (1, 2, 3)) for k in ("occupation", "occupations")],
    thorough=[{"shape": (2, 2, 2), "key": "occupation"}, {"shape": (3, 1, 2), "key": "occupations"}],
    bounds="4 primitive sites (2 active), supercells up to 1x2x3 (thorough 2x2x2), arbitrary symbolic occupations of the full or the active "
    "sites: initial-state files, checkpoints and in-memory occupations all give each active site its own value",
)
def initial_state(ctx, shape, key):
    S = _S(ctx)
    o = order(ctx, shape)
    m = shape[0] * shape[1] * shape[2]
    full = ctx.ints("o", 4 * m, 0, 9)
    want = full[0:m] + full[2 * m : 3 * m]
    d = ctx.tmp()
    p = os.path.join(d, "i.json")
    t, k = ctx.real("t", 0, 10), ctx.int("k", 0, 10)
    pay = {key: full}
    if key == "occupations":
        pay.update(time=t, step=k)
    ctx.write_json(p, pay)
    kw = {} if key == "occupations" else {"time": t, "step": k}
    sts = [("file, full sites", S.from_file(p, active_site_order=o, **kw))]
    ctx.write_json(p, {**pay, key: want})
    sts.append(("file, active sites", S.from_file(p, active_site_order=o, **kw)))
    sts.append(("memory, full sites", S.from_occupations(full, active_site_order=o, time=t, step=k)))
    sts.append(("memory, active sites", S.from_occupations(want, active_site_order=o, time=t, step=k)))
    if key == "occupation":
        ctx.write_json(p, pay)
        sts.append(("file, selected sites", S.from_file(p, supercell_shape=shape, select_sites=[0, 2], **kw)))
        rev = S.from_file(p, supercell_shape=list(shape), select_sites=(2, 0), **kw)
        ctx.eq_all("selection order is kept", rev.occupations, full[2 * m : 3 * m] + full[0:m])
    for name, st in sts:
        ctx.eq_all(name, st.occupations, want)
        ctx.eq(name + ": time", st.time, t)
        ctx.eq(name + ": step", st.step, k)


@harness(
    "C16",
    configs=[{}],
    bounds="any number of values 0..14 for 12 sites (6 active) or for a 1x2x3 selection, missing selection or shape, wrong shape "
    "length, other suffixes, other payloads: refused, never padded or cut",
)
def refusals(ctx):
    S = _S(ctx)
    o = order(ctx, (1, 3, 1))
    n = ctx.concrete(ctx.int("n", 0, 14))
    vals = ctx.ints("v", n, 0, 3)
    p = os.path.join(ctx.tmp(), "i.json")
    for key in ("occupation", "occupations"):
        ctx.write_json(p, {key: vals})
        r = ctx.run(S.from_file, p, active_site_order=o)
        ctx.check(f"{key}: accepted exactly for the active or the full number of sites", r.ok == (n in (6, 12)))
        if not r.ok:
            ctx.check("refused with ValueError", isinstance(r.exc, ValueError))
    r = ctx.run(S.from_occupations, vals, active_site_order=o)
    ctx.check("memory: accepted exactly for the active or the full number of sites", r.ok == (n in (6, 12)))
    ctx.write_json(p, {"occupation": vals})
    r = ctx.run(S.from_file, p, supercell_shape=(1, 2, 3), select_sites=[0])
    ctx.check("selection: accepted exactly for whole multiples of the supercell", r.ok == (n in (6, 12)))
    ctx.raises("no selection", S.from_file, p, exc=ValueError)
    ctx.raises("no shape", S.from_file, p, select_sites=[0], exc=ValueError)
    ctx.raises("shape of two numbers", S.from_file, p, select_sites=[0], supercell_shape=(1, 2), exc=ValueError)
    ctx.write_json(p, {"other": vals})
    ctx.raises("neither key", S.from_file, p, active_site_order=o, exc=ValueError)
    ctx.write_json(p, vals)
    ctx.raises("a list", S.from_file, p, active_site_order=o, exc=ValueError)
    st = S(occupations=vals)
    for bad in ("x.yaml", "x", "x.json.gz"):
        q = os.path.join(os.path.dirname(p), bad)
        ctx.raises("save suffix", st.save_checkpoint, q, exc=ValueError)
        ctx.raises("load suffix", S.load_checkpoint, q, exc=ValueError)
