"""A simulation built from a configuration is the one its files and settings describe."""
import os

from .C18 import cif
from .C28 import lce_pair
from .C23 import corr
from .common import *

ABC = (6.0, 7.0, 8.0)
SITES = [("Na1", "Na", (0.1, 0.0, 0.0)), ("Na2", "Na", (0.6, 0.0, 0.5)), ("Mg1", "Mg", (0.4, 0.5, 0.5)), ("Si1", "Si", (0.5, 0.5, 0.1))]
MAPPING = {"Na": ["Na", "X"], "Mg": ["Mg"], "Si": ["Si", "P"]}
ENDS = [(0, 2), (3, 1), (0, 1)]
ENVS = [(4, 5, 3, 1), (5, 2, 4, 0), (4, 2, 5, 3)]


def files(ctx, shape=(2, 1, 1), model=True):
    """The input files of a 2x1x1 simulation (6 active sites), and the models they hold."""
    d = ctx.tmp()
    p = {k: os.path.join(d, v) for k, v in (("structure_file", "s.cif"), ("event_file", "e.json"), ("model_file", "m.json"))}
    cif(p["structure_file"], ABC, SITES)
    A = ctx.mod("kmcpy.structure.active_site_order").ActiveSiteOrder
    full = ctx.mod("kmcpy.io.cif").load_labeled_structure_from_cif(p["structure_file"], primitive=False)
    order = A.from_structure_and_mapping(full, MAPPING, supercell_shape=shape)
    E = ctx.mod("kmcpy.event")
    lib = E.EventLib()
    for (i, j), env in zip(ENDS, ENVS):
        lib.add_event(E.Event(mobile_ion_indices=(i, j), local_env_indices=env))
    lib.generate_event_dependencies()
    lib.set_index_metadata(order)
    lib.to(p["event_file"])
    return d, p, order


@harness(
    "C30",
    configs=[{"start": s, "site": t} for s, t in (("active", True), ("full", False), ("file", True), ("checkpoint", False))],
    bounds="a 2x1x1 simulation of 6 active and 2 fixed sites with 3 events from CIF, event, model and state files: any occupation, coefficients (8 free), attempt frequency and either of two "
    "temperatures give every event the rate of its own endpoints and environment, on the structure and state described",
    max_paths=4000,
)
def wiring(ctx, start, site):
    K = ctx.mod("kmcpy.simulator.kmc").KMC
    C = ctx.mod("kmcpy.models.composite_lce_model").CompositeLCEModel
    d, p, order = files(ctx)
    (ka, kk, ke), (sb, sk, se) = lce_pair(ctx)
    C(kra_model=ka, site_model=sb if site else None).to(p["model_file"])
    occ = ctx.ints("o", 6, 0, 1)
    T = ctx.choice("T", [300.0, 1000.0])
    v = ctx.real("v", 1e9, 1e14)
    # per primitive site, cell by cell
    full = occ[0:4] + [0, 0] + occ[4:6]
    kw = {}
    if start == "active":
        kw["initial_occupations"] = occ
    elif start == "full":
        kw["initial_occupations"] = full
    else:
        f = os.path.join(d, "i.json")
        ctx.write_json(f, {"occupation": full} if start == "file" else {"occupations": occ, "time": 2.5, "step": 7})
        kw["initial_state_file"] = f
    cfg = make_config(ctx, site_mapping=MAPPING, supercell_shape=[2, 1, 1], temperature=T, attempt_frequency=v, convert_to_primitive_cell=False, **p, **kw)
    k = K.from_config(cfg)
    ctx.eq_all("occupations", list(k.simulation_state.occupations), occ)
    ctx.check("time and step", (float(k.simulation_state.time), int(k.simulation_state.step)) == ((2.5, 7) if start == "checkpoint" else (0.0, 0)))
    s = k.structure
    want = [("Na", (0.05, 0, 0)), ("Na", (0.55, 0, 0)), ("Na", (0.3, 0, 0.5)), ("Na", (0.8, 0, 0.5)), ("Si", (0.25, 0.5, 0.1)), ("Si", (0.75, 0.5, 0.1))]
    ctx.check("active structure", len(s) == 6 and all(a.specie.symbol == b and max(abs(x - y) for x, y in zip(a.frac_coords, c)) < 1e-6 for a, (b, c) in zip(s, want)))
    ctx.check("cell", [round(float(x), 6) for x in s.lattice.abc] == [12.0, 7.0, 8.0])
    ctx.check("events", [tuple(int(x) for x in e.mobile_ion_indices) for e in k.event_lib.events] == ENDS)
    ctx.check("one rate per event", len(k.prob_list) == 3)
    for n, ((i, j), env) in enumerate(zip(ENDS, ENVS)):
        a, b = occ[i], occ[j]
        ek = ke + sum(x * y for x, y in zip(kk, corr(ka, occ, env)))
        es = se + sum(x * y for x, y in zip(sk, corr(sb, occ, env))) if site else 0
        if bool(a == b):
            ctx.check("no rate where nothing can hop", k.prob_list[n] == 0)
            continue
        # from the first site to the second: the ion (0) leaves it
        way = 1 if bool(a == 0) else -1
        ctx.eq("rate", k.prob_list[n] / 1e9, v / 1e9 * ctx.exp(-(ek + way * es / 2) / (KB * T)), rtol=1e-6)
    ctx.eq_all("cumulative rates", list(k.prob_cum_list), [sum(k.prob_list[: n + 1]) for n in range(3)], rtol=1e-9)


@harness(
    "C30",
    configs=[{}],
    bounds="events of another supercell or mapping, occupations of any wrong length, missing mapping or initial state, unreadable callback references: refused; sampling settings reach the run",
)
def settings(ctx):
    K = ctx.mod("kmcpy.simulator.kmc").KMC
    C = ctx.mod("kmcpy.models.composite_lce_model").CompositeLCEModel
    wrong = ctx.choice("wrong", [None, "cell", "mapping", "length", "no mapping", "no state", "callback"])
    d, p, order = files(ctx, (1, 2, 1) if wrong == "cell" else (2, 1, 1))
    (ka, kk, ke), _ = lce_pair(ctx)
    C(kra_model=ka).to(p["model_file"])
    kw = {"site_mapping": MAPPING, "initial_occupations": [0, 1, 0, 1, 0, 0]}
    if wrong == "mapping":
        kw["site_mapping"] = {"Na": ["Na", "X"], "Mg": ["Mg", "Al"], "Si": ["Si"]}
    elif wrong == "length":
        n = ctx.choice("n", [0, 1, 5, 7, 9])
        kw["initial_occupations"] = [0] * n
    elif wrong == "no mapping":
        kw["site_mapping"] = None
    elif wrong == "no state":
        kw["initial_occupations"] = None
    every = ctx.int("every", 1, 50)
    on = ctx.bool("msd")
    kw["property_callbacks"] = [{"callable": "math:floor" if wrong != "callback" else ctx.choice("ref", ["math:nothing", "nothing_at_all:f", "floor", "math:pi"]), "name": "mine", "interval": every}]
    kw["builtin_property_enabled"] = {"msd": on}
    c = ctx.run(make_config, ctx, supercell_shape=[2, 1, 1], convert_to_primitive_cell=False, **p, **kw)
    r = ctx.run(K.from_config, c.value) if c.ok else c
    ctx.check("built exactly when consistent", r.ok == (wrong is None))
    if not r.ok:
        return
    k = r.value
    ctx.check("callback attached", k.list_attachments() == ["mine"])
    l = k.list_property_calculations()
    names = {a: [str(x) for x in b] for a, b in l.items()}
    ctx.check("built-in switched", any("msd" in b for a, b in names.items() if "enabled" in a) == bool(on) and any("msd" in b for a, b in names.items() if "disabled" in a) == (not bool(on)))


CALLS = []


def probe(state, step, time):
    CALLS.append(int(step))
    return int(step) * 10


def other(state, step, time):
    return -1


class Fixed:
    """A generator whose draws do not matter."""

    def __init__(self):
        self.n = 0

    def random(self, size=None):
        self.n += 1
        return (0.1, 0.5, 0.9, 0.3)[self.n % 4]


class Nested:
    call = staticmethod(probe)


@harness(
    "C30",
    configs=[{"ref": r} for r in ("props.C30:probe", "props.C30.probe", "props.C30:Nested.call")],
    bounds="a 6-step run with one callback and built-in quantities from the configuration, any step intervals 1..4 (own, global or both), cap 1..3 or none, stored or not, enabled or not: "
    "sampled at exactly its steps, newest records kept",
)
def sampling(ctx, ref):
    from .C15 import quiet, sim

    quiet(ctx)
    del CALLS[:]
    ctx.install_rng(lambda seed=None: Fixed())
    own = ctx.concrete(ctx.int("own", 0, 4)) or None
    common = ctx.concrete(ctx.int("common", 0, 4)) or None
    cap = ctx.concrete(ctx.int("cap", 0, 3)) or None
    store, enabled = ctx.bool("store"), ctx.bool("enabled")
    spec = {"callable": ref, "name": "mine"}
    for k, v in (("interval", own), ("max_records", cap)):
        if v is not None:
            spec[k] = v
    if not bool(store):
        spec["store"] = False
    if not bool(enabled):
        spec["enabled"] = False
    kw = {} if common is None else {"property_sampling_interval": common}
    k = sim(ctx, [1.0, 2.0], kmc_passes=2, property_callbacks=[spec, {"callable": "props.C30:other", "name": "its"}], **kw)
    t = k.run()
    every = own or common or 3
    steps = [s for s in range(1, 7) if s % every == 0] if bool(enabled) else []
    ctx.check("called at its steps", CALLS == steps)
    keep = (steps if cap is None else steps[-cap:]) if bool(store) else []
    got = t.get_property_records("mine")
    ctx.check("records", [(int(r["step"]), int(r["value"])) for r in got] == [(s, 10 * s) for s in keep])
    ctx.check("the other callback on its own", [int(r["step"]) for r in t.get_property_records("its")] == [s for s in range(1, 7) if s % (common or 3) == 0])
