"""Shared harness pieces (used unchanged in symbolic and replay mode)."""
import types

from sx.ctx import harness  # noqa: F401
from sx.logic import *  # noqa: F401,F403
from sx.logic import floor, iff, implies, ite, land, lnot, lor, rint, select, smax, smin  # noqa: F401


class Rng:
    """Nondeterministic uniform source on [0, 1)."""

    def __init__(self, ctx, name="u", zeros=3):
        self.ctx = ctx
        self.zeros = zeros  # how many draws may be exactly zero
        self.name = name
        self.draws = []

    def _one(self):
        # a bounded number of exact zeros keeps rejection loops bounded
        v = self.ctx.real(self.name, 0, 1, hi_open=True, lo_open=len(self.draws) >= self.zeros)
        self.draws.append(v)
        return v

    def random(self, size=None, dtype=None, out=None):
        if size is None:
            return self._one()
        n = size if isinstance(size, int) else int(size[0])
        return self.ctx.array([self._one() for _ in range(n)], dtype=float)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            return low + (high - low) * self._one()
        return self.ctx.array([low + (high - low) * self._one() for _ in range(size)], dtype=float)

    random_sample = random


def set_rng(k, r):
    """Give the simulation a random source, whatever the attribute holding it is called."""
    cls = type(k)

    def missing(self, name):
        low = name.lower()
        if any(w in low for w in ("rng", "rand", "generator")):
            return r
        raise AttributeError(f"{cls.__name__!r} object has no attribute {name!r}")

    k.rng = r
    k.__class__ = type(cls.__name__, (cls,), {"__getattr__": missing, "__module__": cls.__module__})
    return r


def make_config(ctx, **kw):
    C = ctx.mod("kmcpy.simulator.config")
    base = dict(
        structure_file="s.cif",
        event_file="e.json",
        model_file="m.json",
        mobile_ion_specie="Na",
        temperature=300.0,
        attempt_frequency=1.0e13,
        equilibration_passes=0,
        kmc_passes=1,
        random_seed=1,
    )
    base.update(kw)
    return C.Configuration(**base)


_STRUCTS = {}


def structure(species, coords, lattice=((10.0, 0, 0), (0, 10.0, 0), (0, 0, 10.0)), **kw):
    """Real pymatgen structure (concrete)."""
    from pymatgen.core import Lattice, Structure

    return Structure(Lattice([list(r) for r in lattice]), list(species), [list(c) for c in coords], **kw)


def make_event(ctx, a, b, env=()):
    E = ctx.mod("kmcpy.event")
    return E.Event(mobile_ion_indices=(a, b), local_env_indices=tuple(env))


def event_lib(ctx, events, deps=True):
    E = ctx.mod("kmcpy.event")
    lib = E.EventLib()
    for e in events:
        lib.add_event(e)
    if deps:
        lib.generate_event_dependencies()
    return lib


def state(ctx, occ, **kw):
    S = ctx.mod("kmcpy.simulator.state")
    return S.State(occupations=occ, **kw)


def stub_model(ctx, fn, base=None):
    """A KMC rate model whose rates are given by fn(event, state, runtime_config)."""
    B = ctx.mod("kmcpy.models.base").BaseModel

    class StubModel(B):
        def __init__(self):
            super().__init__(name="stub")
            self.calls = 0

        def compute_probability(self, event=None, runtime_config=None, simulation_state=None, **k):
            self.calls += 1
            return fn(event, simulation_state, runtime_config)

        def as_dict(self):
            return {}

        @classmethod
        def from_dict(cls, d):
            return cls()

    return StubModel()


def chain_structure(n, specie="Na"):
    return structure([specie] * n, [[(i + 0.5) / n, 0.0, 0.0] for i in range(n)])


class SymStructure:
    """Stand-in for a pymatgen Structure with symbolic fractional coordinates."""

    def __init__(self, ctx, real, frac=None):
        frac = real.frac_coords.tolist() if frac is None else frac
        self.real = real
        self.species = real.species
        self.lattice = real.lattice
        self.volume = real.volume
        self.frac_coords = ctx.array(frac, dtype=float)
        self._m = [[float(x) for x in r] for r in real.lattice.matrix]
        ctx_array = ctx.array

        class L:
            matrix = ctx_array(self._m, dtype=float)

            @staticmethod
            def get_cartesian_coords(f):
                return f @ L.matrix

        self.lattice = L

    @property
    def cart_coords(self):
        return self.frac_coords @ self.lattice.matrix

    @property
    def num_sites(self):
        return len(self.species)

    def __len__(self):
        return len(self.species)

    def __getitem__(self, i):
        return self.real[i]

    def __iter__(self):
        return iter(self.real)

    def __getattr__(self, k):
        return getattr(self.real, k)


def simstruct(ctx, real):
    return SymStructure(ctx, real) if ctx.sym else real


def kmc(ctx, model, lib, occ, config=None, struct=None, hop_lookup=None, n_sites=None, **kw):
    K = ctx.mod("kmcpy.simulator.kmc")
    config = config or make_config(ctx)
    st = occ if hasattr(occ, "occupations") else state(ctx, occ)
    struct = struct if struct is not None else chain_structure(n_sites or len(st.occupations))
    return K.KMC(
        structure=simstruct(ctx, struct) if not isinstance(struct, SymStructure) else struct,
        model=model,
        event_lib=lib,
        config=config,
        simulation_state=st,
        hop_state_lookup=hop_lookup,
        **kw,
    )


def lookup(ctx, mobile, vacancy):
    E = ctx.mod("kmcpy.event")
    return E.HopStateLookup(
        mobile_state_by_site=ctx.array(mobile, dtype=int),
        vacancy_state_by_site=ctx.array(vacancy, dtype=int),
    )


def interval(u, total, lo, hi):
    """u falls into [lo, hi)/total up to float rounding of the boundaries."""
    slack = total * 1e-9
    return land(u * total >= lo - slack, u * total <= hi + slack)


def lce(ctx, clusters, keci, empty, basis=None, site_values=None):
    """A LocalClusterExpansion built from its serialised form."""
    L = ctx.mod("kmcpy.models.local_cluster_expansion").LocalClusterExpansion
    d = {"name": "lce", "cluster_site_indices": clusters}
    if basis is None:
        d["basis"] = {"@module": "kmcpy.structure.basis", "@class": "OccupationBasis", "name": "occupation"}
    else:
        d["basis"] = {"@module": "kmcpy.structure.basis", "@class": "ChebyshevBasis", "name": "chebyshev", "max_states": 3}
        d["correlation_basis_indices"] = basis
        d["site_basis_values"] = site_values
    m = L.from_dict(d)
    m.set_parameters({"keci": list(keci), "empty_cluster": empty})
    return m


KB = 8.617333262145e-2  # meV/K


class RC:
    """Runtime settings a rate model reads."""

    def __init__(self, temperature, attempt_frequency):
        self.temperature = temperature
        self.attempt_frequency = attempt_frequency
