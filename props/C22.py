"""Configurations keep every setting under its own name, validate it, and survive storage."""
import os

from .common import *

SYS = ["structure_file", "supercell_shape", "dimension", "mobile_ion_specie", "mobile_ion_charge", "elementary_hop_distance", "model_type", "model_file", "event_file",
       "site_mapping", "convert_to_primitive_cell", "initial_state_file", "initial_occupations"]
RUN = ["temperature", "attempt_frequency", "equilibration_passes", "kmc_passes", "random_seed", "name", "property_sampling_interval", "property_sampling_time_interval",
       "builtin_property_enabled", "property_callbacks"]
PATHS = ["structure_file", "model_file", "event_file", "initial_state_file"]


def _C(ctx):
    return ctx.mod("kmcpy.simulator.config")


def values(ctx, tag=""):
    return dict(
        structure_file="s.cif" + tag,
        supercell_shape=(ctx.int("sx" + tag, 1, 9), ctx.int("sy" + tag, 1, 9), 2),
        dimension=ctx.int("dim" + tag, 1, 3),
        mobile_ion_specie="Na" + tag,
        mobile_ion_charge=ctx.real("q" + tag, -3, 3),
        elementary_hop_distance=ctx.real("a" + tag, 0, 10),
        model_type="composite_lce" + tag,
        model_file="m.json" + tag,
        event_file="e.json" + tag,
        site_mapping={"Na": ["Na", "X" + tag]},
        convert_to_primitive_cell=ctx.bool("prim" + tag),
        initial_state_file="i.json" + tag,
        initial_occupations=[ctx.int("o0" + tag, 0, 5), ctx.int("o1" + tag, 0, 5)],
        temperature=ctx.real("T" + tag, 1, 5000),
        attempt_frequency=ctx.real("v" + tag, 1, 1e15),
        equilibration_passes=ctx.int("eq" + tag, 0, 10**6),
        kmc_passes=ctx.int("n" + tag, 1, 10**6),
        random_seed=ctx.int("seed" + tag, 0, 10**6),
        name="run" + tag,
        property_sampling_interval=ctx.int("pi" + tag, 1, 1000),
        property_sampling_time_interval=ctx.real("pt" + tag, 1e-3, 1000),
        builtin_property_enabled={"msd": ctx.bool("b" + tag)},
        property_callbacks=[{"callable": "m:f" + tag, "interval": ctx.int("ci" + tag, 1, 99)}],
    )


def same(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and land(*[same(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and land(*[same(a[k], b[k]) for k in a])
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    if isinstance(a, float) and isinstance(b, float):  # plain run: YAML writes the last digits of a float its own way
        return abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    return a == b


def expect(ctx, label, cfg, want):
    for k in SYS:
        ctx.check(f"{label}: {k}", land(same(getattr(cfg.system_config, k), want[k]), same(getattr(cfg, k), want[k])))
    for k in RUN:
        ctx.check(f"{label}: {k}", land(same(getattr(cfg.runtime_config, k), want[k]), same(getattr(cfg, k), want[k])))


SUBSETS = [[], ["temperature"], ["supercell_shape", "kmc_passes", "dimension"], RUN, SYS, SYS + RUN, ["random_seed", "initial_occupations", "builtin_property_enabled"]]
DEFAULTS = dict(
    structure_file="", supercell_shape=(1, 1, 1), dimension=3, mobile_ion_specie="Li", mobile_ion_charge=1.0, elementary_hop_distance=1.0, model_type="composite_lce",
    model_file="", event_file="", site_mapping=None, convert_to_primitive_cell=False, initial_state_file=None, initial_occupations=None, temperature=300.0,
    attempt_frequency=1e13, equilibration_passes=1000, kmc_passes=10000, random_seed=None, name="DefaultSimulation", property_sampling_interval=None,
    property_sampling_time_interval=None, builtin_property_enabled={}, property_callbacks=[],
)


@harness(
    "C22",
    configs=[{"k": k, "base": b} for k in range(len(SUBSETS)) for b in ("direct", "parts", "changes")],
    bounds="all 23 settings with symbolic numeric values; 7 subsets of them overridden at construction, on top of existing parts, or by with_*_changes: every setting "
    "reads back under its own name, the others keep their values, and the source configuration stays as it was",
)
def routing(ctx, k, base):
    M = _C(ctx)
    old, new = values(ctx), values(ctx, "2")
    over = {x: new[x] for x in SUBSETS[k]}
    if base == "direct":
        if not over:
            ctx.raises("nothing given", M.Configuration, exc=ValueError)
            over = {"temperature": new["temperature"]}
        cfg = M.Configuration(**over)
        expect(ctx, "defaults elsewhere", cfg, {**DEFAULTS, **over})
        return
    src = M.Configuration(**old)
    s = M.SystemConfig(**{x: old[x] for x in SYS})
    r = M.RuntimeConfig(**{x: old[x] for x in RUN})
    if base == "parts":
        which = ctx.choice("which", ["both", "system", "runtime"])
        kw = {}
        want = dict(DEFAULTS)
        if which != "runtime":
            kw["system_config"] = s
            want.update({x: old[x] for x in SYS})
        if which != "system":
            kw["runtime_config"] = r
            want.update({x: old[x] for x in RUN})
        cfg = M.Configuration(**kw, **over)
        expect(ctx, "parts", cfg, {**want, **over})
        for x in SYS:
            ctx.check(f"part untouched: {x}", same(getattr(s, x), old[x]))
        for x in RUN:
            ctx.check(f"part untouched: {x}", same(getattr(r, x), old[x]))
        return
    so = {x: v for x, v in over.items() if x in SYS}
    ro = {x: v for x, v in over.items() if x in RUN}
    a = src.with_system_changes(**so)
    expect(ctx, "system changes", a, {**old, **so})
    b = a.with_runtime_changes(**ro)
    expect(ctx, "both changes", b, {**old, **over})
    expect(ctx, "source untouched", src, old)


@harness(
    "C22",
    configs=[{"via": v} for v in ("constructor", "changes", "dict", "file")],
    bounds="any value of each validated setting around its limits, one setting at a time, through the constructor, with_*_changes, a dictionary and a file: refused exactly outside the "
    "documented limits; unknown names are always refused",
)
def validation(ctx, via):
    M = _C(ctx)
    what = ctx.choice("what", ["temperature", "attempt_frequency", "equilibration_passes", "kmc_passes", "dimension", "supercell_shape", "property_sampling_interval",
                               "property_sampling_time_interval", "builtin", "cb_interval", "cb_time", "cb_max", "cb_key", "unknown"])
    n = ctx.int("n", -3, 6)
    x = ctx.real("x", -2, 2)
    cb = {"callable": "m:f"}
    field, val, ok = {
        "temperature": ("temperature", x, x > 0),
        "attempt_frequency": ("attempt_frequency", x, x > 0),
        "equilibration_passes": ("equilibration_passes", n, n >= 0),
        "kmc_passes": ("kmc_passes", n, n > 0),
        "dimension": ("dimension", n, land(n >= 1, n <= 3)),
        "property_sampling_interval": ("property_sampling_interval", n, n > 0),
        "property_sampling_time_interval": ("property_sampling_time_interval", x, x > 0),
        "cb_interval": ("property_callbacks", [cb, {**cb, "interval": n}], n > 0),
        "cb_time": ("property_callbacks", [{**cb, "time_interval": x}], x > 0),
        "cb_max": ("property_callbacks", [{**cb, "max_records": n}], n > 0),
    }.get(what, (None, None, None))
    if what == "supercell_shape":
        k = ctx.concrete(ctx.int("k", 0, 5))
        field, val, ok = "supercell_shape", [1] * k, k == 3
    elif what == "builtin":
        name = ctx.choice("name", ["msd", "conductivity", "havens_ratio", "MSD", "volume"])
        flag = ctx.choice("flag", [True, False, 1, "yes", None])
        field, val, ok = "builtin_property_enabled", {name: flag}, name in ("msd", "conductivity", "havens_ratio") and isinstance(flag, bool)
    elif what == "cb_key":
        spec = ctx.choice("spec", [{}, {"callable": ""}, {"callable": "  "}, {"callable": 3}, {"callable": "m:f", "every": 2}, {"callable": "m:f", "store": 1}, {"callable": "m:f", "enabled": "no"},
                                   {"callable": "m:f", "store": False, "enabled": True, "name": "a"}, "m:f"])
        field, val, ok = "property_callbacks", [spec], isinstance(spec, dict) and spec.get("name") == "a"
    elif what == "unknown":
        field, val, ok = ctx.choice("field", ["temprature", "Temperature", "T", "supercell", "nsteps"]), 1, False
    if via == "constructor":
        r = ctx.run(M.Configuration, **{field: val})
    elif via == "dict":
        r = ctx.run(M.Configuration.from_dict, {"name": "a", field: val, "@module": "x", "@class": "y"})
    elif via == "changes":
        c = M.Configuration(name="a")
        r = ctx.run(c.with_system_changes if field in SYS else c.with_runtime_changes, **{field: val})
    else:
        p = os.path.join(ctx.tmp(), "c.json")
        ctx.write_json(p, {"name": "a", field: val})
        r = ctx.run(M.Configuration.from_file, p)
    ctx.check("accepted exactly when valid", iff(r.ok, ok))
    if r.ok:
        ctx.check("value", same(getattr(r.value, field), val))
    else:
        ctx.check("error", isinstance(r.exc, (ValueError, TypeError)))


@harness(
    "C22",
    configs=[{"ext": e, "section": s} for e in ("json", "yaml", "yml") for s in (None, "kmc", "other") if not (s and e == "json")],
    bounds="all 23 settings with symbolic numeric values written as an input file (JSON, YAML, a section of a YAML workflow file with other sections and task types) and read back; "
    "record form without the file paths; wrong suffix, section and task type refused",
)
def storage(ctx, ext, section):
    M = _C(ctx)
    val = values(ctx)
    cfg = M.Configuration(**val)
    d = ctx.tmp()
    p = os.path.join(d, "c." + ext)
    back = M.Configuration.from_dict(cfg.as_input_dict())
    expect(ctx, "dictionary", back, val)
    rec = M.Configuration.from_dict(cfg.as_record_dict())
    expect(ctx, "record", rec, {**val, "structure_file": "", "model_file": "", "event_file": "", "initial_state_file": None})
    ctx.check("record has no paths", not set(PATHS) & set(cfg.as_record_dict()))
    as_d = cfg.as_input_dict()
    as_d["initial_occupations"].append(9)
    as_d["property_callbacks"][0]["interval"] = -1
    as_d["builtin_property_enabled"]["x"] = 1
    expect(ctx, "the dictionary is a copy", cfg, val)
    if section is None:
        cfg.to(p, include_loader_paths=True)
        expect(ctx, "file", M.Configuration.from_file(p), val)
        cfg.to(p)  # replaces the file
        expect(ctx, "record file", M.Configuration.from_file(p), {**val, "structure_file": "", "model_file": "", "event_file": "", "initial_state_file": None})
    else:
        two = M.Configuration(**values(ctx, "2"))
        cfg.to(p, include_loader_paths=True, section="first", task_type="t1")
        two.to(p, include_loader_paths=True, section=section, task_type="t2")
        expect(ctx, "section", M.Configuration.from_file(p, section=section), {k: getattr(two, k) for k in SYS + RUN})
        expect(ctx, "earlier section kept", M.Configuration.from_file(p, section="first"), val)
        if section == "kmc":
            expect(ctx, "default section", M.Configuration.from_file(p), {k: getattr(two, k) for k in SYS + RUN})
        ctx.raises("missing section", M.Configuration.from_file, p, section="none", exc=ValueError)
        ctx.raises("missing task type", M.Configuration.from_file, p, section=section, task_type="t1", exc=ValueError)
    bad = os.path.join(d, "c.txt")
    ctx.raises("suffix (write)", cfg.to, bad, exc=ValueError)
    open(bad, "w").write("{}")
    ctx.raises("suffix (read)", M.Configuration.from_file, bad, exc=ValueError)
    if ext == "json":
        ctx.raises("section in JSON", cfg.to, p, section="a", exc=ValueError)
