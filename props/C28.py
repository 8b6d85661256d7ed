"""Model files: a stored model is the same model, and damaged or foreign files are refused."""
import os

from .C23 import built, corr
from .common import *

RC_ = dict(temperature=500.0, attempt_frequency=1e12)


def lce_pair(ctx):
    """Two different expansions with arbitrary coefficients."""
    a, _ = built(ctx, "occupation")
    b, _ = built(ctx, "occupation", cuts=(6, 3.0, 1.0))
    out = []
    for m, t in ((a, "a"), (b, "b")):
        n = len(m.cluster_site_indices)
        k = [ctx.real(f"{t}{i}", -50, 50) if i < 4 else 0.25 * i for i in range(n)]
        e = ctx.real(f"{t}e", -50, 50)
        m.set_parameters({"keci": k, "empty_cluster": e, "orbit_fingerprints": m.get_orbit_fingerprints(), "local_environment_hash": m.local_environment_hash})
        out.append((m, k, e))
    return out


def configuration(ctx, f, model_type=None):
    kw = {"model_file": f}
    if model_type:
        kw["model_type"] = model_type
    return make_config(ctx, **kw)


@harness(
    "C28",
    configs=[{"site": s, "via": v} for s, v in (("lce", "dict"), ("lce", "file"), (None, "config"), ("lce", "config"), (None, "file"))],
    bounds="a barrier expansion (10 features) with and without a site-energy expansion, 4 arbitrary coefficients and constant each: stored and read (dictionary, file, configuration), "
    "every occupation of the 4 sites and both hop directions give the same energies and rate; the parts are not exchanged",
)
def composite(ctx, site, via):
    C = ctx.mod("kmcpy.models.composite_lce_model").CompositeLCEModel
    B = ctx.mod("kmcpy.models.base").BaseModel
    (ka, kk, ke), (sb, sk, se) = lce_pair(ctx)
    meta = {"time_stamp": 12.5, "time": "now"}
    m = C(kra_model=ka, site_model=sb if site else None, kra_fit_metadata=meta)
    if via == "dict":
        r = C.from_dict(m.as_dict())
    else:
        f = os.path.join(ctx.tmp(), "m.json")
        m.to(f)
        r = C.from_file(f) if via == "file" else B.from_config(configuration(ctx, f))
    ctx.check("type", isinstance(r, C))
    ctx.check("with a site part exactly when stored with one", (r.site_model is not None) == bool(site))
    ctx.check("origin of the fit kept", r.kra_fit_metadata == meta)
    occ = [ctx.choice("dir", [0, 1])]
    occ += [1 - occ[0]] + [ctx.int(f"o{i}", 0, 1) for i in range(4)]
    env = (3, 2, 5, 4)
    st, ev = state(ctx, occ), make_event(ctx, 0, 1, env)
    c = lambda x: x.compute(simulation_state=st, event=ev)
    ekra = ke + sum(x * y for x, y in zip(kk, corr(ka, occ, env)))
    ctx.eq("barrier", c(r.kra_model), ekra, rtol=1e-6)
    if site:
        ctx.eq("site energy", c(r.site_model), se + sum(x * y for x, y in zip(sk, corr(sb, occ, env))), rtol=1e-6)
    rc = ctx.mod("kmcpy.simulator.config").RuntimeConfig(**RC_)
    ctx.eq("rate", r.compute_probability(event=ev, runtime_config=rc, simulation_state=st) / 1e12, m.compute_probability(event=ev, runtime_config=rc, simulation_state=st) / 1e12, rtol=1e-6)


DAMAGE = {
    "none": lambda d: d,
    "filetype": lambda d: d.update(filetype="kmcpy.other"),
    "no filetype": lambda d: d.pop("filetype"),
    "type": lambda d: d.update(model_type="local_barrier"),
    "no type": lambda d: d.pop("model_type"),
    "no kra": lambda d: d.pop("kra"),
    "kra list": lambda d: d.update(kra=[1]),
    "no lce": lambda d: d["kra"].pop("lce"),
    "no parameters": lambda d: d["kra"].pop("parameters"),
    "no keci": lambda d: d["kra"]["parameters"].pop("keci"),
    "no constant": lambda d: d["kra"]["parameters"].pop("empty_cluster"),
    "short keci": lambda d: d["kra"]["parameters"]["keci"].pop(),
    "swapped features": lambda d: d["kra"]["parameters"]["orbit_fingerprints"].reverse(),
    "foreign environment": lambda d: d["kra"]["parameters"].update(local_environment_hash="0" * 64),
    "site without parts": lambda d: d.update(site={"fit_metadata": {}}),
    "site without parameters": lambda d: d["site"].pop("parameters"),
    "exchanged parameters": lambda d: (lambda a, b: (d["kra"].update(parameters=b), d["site"].update(parameters=a)))(d["kra"]["parameters"], d["site"]["parameters"]),
    "site not an object": lambda d: d.update(site=3),
}


@harness(
    "C28",
    configs=[{}],
    bounds="a composite file (arbitrary coefficients) altered in any of 17 ways, read as dictionary, file or through the configuration: refused, the unaltered one accepted; the same for files of no known type",
)
def damaged(ctx):
    import copy

    C = ctx.mod("kmcpy.models.composite_lce_model").CompositeLCEModel
    B = ctx.mod("kmcpy.models.base").BaseModel
    (ka, kk, ke), (sb, sk, se) = lce_pair(ctx)
    d = copy.deepcopy(C(kra_model=ka, site_model=sb).as_dict())
    how = ctx.choice("how", list(DAMAGE))
    for p in (d["kra"]["parameters"], d["site"]["parameters"]):
        p["keci"], p["orbit_fingerprints"] = list(p["keci"]), list(p["orbit_fingerprints"])
    DAMAGE[how](d)
    r = ctx.run(C.from_dict, d)
    ctx.check("refused exactly when altered", r.ok == (how == "none"))
    if how == "no lce" and not r.ok:
        ctx.check("ValueError", isinstance(r.exc, ValueError))
    f = os.path.join(ctx.tmp(), "m.json")
    ctx.write_json(f, d)
    ctx.check("file", ctx.run(C.from_file, f).ok == (how == "none"))
    q = ctx.run(B.from_config, configuration(ctx, f))
    if how == "no filetype":  # recognised by its class instead, and refused there
        ctx.check("configuration", not q.ok)
    else:
        ctx.check("configuration", q.ok == (how == "none"))
    ctx.raises("a barrier model must be an expansion", C, kra_model=object(), exc=TypeError)
    ctx.raises("a site model must compute", C, site_model=object(), kra_model=ka, exc=TypeError)
    ctx.raises("nothing to store without a barrier model", C(site_model=sb).as_dict, exc=ValueError)
    bare, _ = built(ctx, "occupation")
    ctx.raises("nothing to store without coefficients", C(kra_model=bare).as_dict, exc=ValueError)


@harness(
    "C28",
    configs=[{}],
    bounds="model files of the three storable kinds with and without a configured type (7 of them): the file decides, and an unknown type without a file is refused",
)
def dispatch(ctx):
    B = ctx.mod("kmcpy.models.base").BaseModel
    C = ctx.mod("kmcpy.models.composite_lce_model").CompositeLCEModel
    L = ctx.mod("kmcpy.models.local_cluster_expansion").LocalClusterExpansion
    LB = ctx.mod("kmcpy.models.local_barrier_model").LocalBarrierModel
    kind = ctx.choice("kind", ["composite", "lce", "barrier"])
    named = ctx.choice("named", [None, "composite_lce", "lce", "local_barrier", "local_cluster_expansion", "site_energy", "nonsense"])
    f = os.path.join(ctx.tmp(), "m.json")
    v = ctx.real("v", 1, 900)
    if kind == "barrier":
        m = LB()
        m.build(default_barrier=v)
    else:
        (m, _, _), _ = lce_pair(ctx)
        if kind == "composite":
            m = C(kra_model=m)
    m.to(f)
    r = ctx.run(B.from_config, configuration(ctx, f, named))
    ctx.check("the file decides", r.ok and type(r.value) is {"composite": C, "lce": L, "barrier": LB}[kind])
    if kind == "barrier" and r.ok:
        st, ev = state(ctx, [0, 1]), make_event(ctx, 0, 1, ())
        ctx.eq("barrier", r.value.compute(event=ev, simulation_state=st), v)
    ctx.write_json(f, {"filetype": "kmcpy.model_file", "model_type": ctx.choice("t", ["nonsense", "", None, 3])})
    ctx.raises("unknown type", B.from_config, configuration(ctx, f, named), exc=ValueError)
    if named == "nonsense":
        ctx.raises("unknown configured type", B.from_config, configuration(ctx, "", named), exc=ValueError)
