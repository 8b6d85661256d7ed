"""Explore harnesses symbolically, replay on the untouched code, write evidence."""
from __future__ import annotations

import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


# ------------------------------------------------------------------ interface drift


def interface_gone(e):
    """The harness itself names something the code no longer offers under that name or with those arguments.

    Only for errors raised at the harness's own call (innermost frame in props/): the lookup of a module-level name,
    or the binding of a call's arguments.  Such a harness has nothing to judge; it is reported as skipped.
    """
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is None or os.path.dirname(tb.tb_frame.f_code.co_filename) != os.path.join(VERIF, "props"):
        return False
    if isinstance(e, AttributeError):
        import types

        return isinstance(getattr(e, "obj", None), (types.ModuleType, type))
    if isinstance(e, TypeError):
        import re

        return bool(re.search(r"got an unexpected keyword argument|missing \d+ required|takes .*positional argument", str(e)))
    return False


# ------------------------------------------------------------------ replay server


def concrete_run(h, cfg, values):
    """Run one harness concretely on the plain modules."""
    from .ctx import ConcreteCtx, Invalid

    ctx = ConcreteCtx(values)
    res = {"failures": [], "exc": None, "invalid": False}
    cwd = os.getcwd()
    tmp = tempfile.mkdtemp(prefix="sx-replay-")
    os.chdir(tmp)
    try:
        h.fn(ctx, **cfg)
    except Invalid:
        res["invalid"] = True
    except Exception as e:
        res["skipped"] = interface_gone(e)
        res["exc"] = None if res["skipped"] else f"{type(e).__name__}: {e}"
        res["exc_type"] = type(e).__name__
        res["tb"] = traceback.format_exc()[-2500:]
    finally:
        ctx.undo()
        os.chdir(cwd)
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)
    res["failures"] = ctx.failures
    res["labels"] = [l for l in ctx.labels]
    res["missing"] = ctx.missing
    return res


def load_props(prop):
    import importlib

    sys.path.insert(0, VERIF)
    importlib.import_module(f"props.{prop}")
    from .ctx import REGISTRY

    return REGISTRY[prop]


def server_main(prop, addr):
    """Plain-import process; forks one child per connection."""
    import signal

    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    from . import load

    load.plain_import_setup()
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    preload()
    hs = {h.name: h for h in load_props(prop)}
    lst = mpc.Listener(addr, "AF_UNIX", backlog=64)
    parent = os.getppid()
    while True:
        conn = lst.accept()
        pid = os.fork()
        if pid == 0:
            try:
                while True:
                    msg = conn.recv()
                    if msg is None:
                        break
                    name, cfg, values = msg
                    try:
                        conn.send(concrete_run(hs[name], cfg, values))
                    except BaseException as e:  # noqa
                        conn.send({"failures": [], "exc": None, "invalid": True, "labels": [], "note": repr(e)})
            except EOFError:
                pass
            os._exit(0)
        conn.close()


def preload():
    """Import what the harnesses use (the importer in force decides how)."""
    import importlib

    for m in (
        "kmcpy",
        "kmcpy.simulator.kmc",
        "kmcpy.simulator.state",
        "kmcpy.simulator.tracker",
        "kmcpy.models.composite_lce_model",
        "kmcpy.models.local_barrier_model",
        "kmcpy.models.site_energy",
        "kmcpy.models.fitting.fitter",
        "kmcpy.event.generators",
        "kmcpy.structure.local_environment_enumerator",
        "kmcpy.structure.active_site_order",
    ):
        try:
            importlib.import_module(m)
        except ModuleNotFoundError:
            pass


class Replayer:
    def __init__(self, addr):
        self.addr = addr
        self.conn = None

    def run(self, name, cfg, values, timeout=120):
        for attempt in range(2):
            if self.conn is None:
                t0 = time.time()
                while True:
                    try:
                        self.conn = mpc.Client(self.addr, "AF_UNIX")
                        break
                    except (FileNotFoundError, ConnectionRefusedError):
                        if time.time() - t0 > 90:
                            return None
                        time.sleep(0.1)
            try:
                self.conn.send((name, cfg, values))
                if self.conn.poll(timeout):
                    return self.conn.recv()
                self.conn.close()
                self.conn = None
                return {"failures": [], "exc": None, "invalid": True, "labels": [], "note": "timeout"}
            except (EOFError, BrokenPipeError, ConnectionResetError, OSError):
                self.conn = None
        return None


# ------------------------------------------------------------------ exploration

STOP = None  # shared absolute time at which every exploration ends
LIMIT = {"quick": 640, "thorough": 6 * 3600}


def explore(h, cfg, tier, addr, deadline_s):
    from . import core
    from .ctx import SymCtx

    eng = core.Engine()
    core.ENGINE = eng
    t0 = time.time()
    eng.deadline = t0 + deadline_s
    eng.stop_at = STOP
    stack = [[]]
    rep = Replayer(addr)
    out = {
        "harness": h.name,
        "config": cfg,
        "violations": [],
        "spurious": [],
        "validated": 0,
        "replays": 0,
        "mismatch": [],
        "complete": True,
        "labels": {},
        "sample": None,
        "engine_errors": [],
        "functions": [],
        "skipped": [],
    }
    funcs = set()
    _monitor(funcs)
    max_paths = h.max_paths or 4000
    max_replay = 60 if tier == "quick" else 400
    seen_viol = set()
    tries = {}
    tmp = tempfile.mkdtemp(prefix="sx-sym-")
    cwd = os.getcwd()
    os.chdir(tmp)
    npath = 0
    try:
        while stack:
            prefix = stack.pop()
            if npath >= max_paths or eng.out_of_time():
                out["complete"] = False
                break
            npath += 1
            eng.reset(prefix)
            ctx = SymCtx(eng)
            status, exc = "ok", None
            try:
                h.fn(ctx, **cfg)
            except core.PathEnd:
                status = "end"
            except core.Unsupported as e:
                status, exc = "unsupported", e
            except core.BudgetExceeded:
                out["complete"] = False
                status = "budget"
            except Exception as e:
                status, exc = "exc", e
                tb = traceback.format_exc()
                if interface_gone(e):
                    status = "skipped"
                    out["skipped"].append(str(e)[:200])
            finally:
                ctx.undo()
                from . import arr

                arr.RNG_FACTORY[0] = None
            stack.extend(eng.pending)
            st = eng.stats
            for kind, l in ctx.labels:
                out["labels"][l] = out["labels"].get(l, 0) + 1
            if status == "budget":
                break
            if status == "end":
                st.infeasible += 1
            else:
                st.paths += 1
            cands = list(ctx.candidates)
            try:
                if status == "exc":
                    vals = ctx.values()
                    if vals is not None:
                        cands.append((f"unexpected-exception:{type(exc).__name__}", vals))
                elif status == "unsupported":
                    st.unsupported += 1
                    st.note(f"unsupported: {exc}")
                    vals = ctx.values()
                    if vals is not None:
                        r = rep.run(h.name, cfg, vals)
                        out["replays"] += 1
                        _concrete_verdict(out, h, cfg, vals, r, seen_viol)
            except core.BudgetExceeded:
                out["complete"] = False
                break
            for label, vals in cands:
                if label in seen_viol or tries.get(label, 0) >= 12:
                    continue
                tries[label] = tries.get(label, 0) + 1
                r = rep.run(h.name, cfg, vals)
                out["replays"] += 1
                if r is None:
                    out["engine_errors"].append("replay server unavailable")
                    continue
                if (r["failures"] or r["exc"]) and not r["invalid"]:
                    seen_viol.add(label)
                    out["violations"].append(
                        {"label": label, "values": vals, "replay": {k: r.get(k) for k in ("failures", "exc", "tb")}}
                    )
                else:
                    out["spurious"].append({"label": label, "values": vals, "exc": (tb[-1500:] if status == "exc" else None)})
                    st.undecided += 1
                    if status == "exc":
                        st.errors += 1
                        out["engine_errors"].append(tb[-1500:])
            if status in ("ok",) and not cands and out["replays"] < max_replay:
                try:
                    vals = ctx.values()
                except core.BudgetExceeded:
                    out["complete"] = False
                    break
                if vals is not None:
                    r = rep.run(h.name, cfg, vals)
                    out["replays"] += 1
                    if r is not None and not r["invalid"]:
                        ok = not r["failures"] and not r["exc"]
                        if ok and [tuple(x) for x in r["labels"]] == [tuple(x) for x in ctx.labels]:
                            out["validated"] += 1
                        elif ok:
                            out["mismatch"].append({"values": vals})
                        else:
                            _concrete_verdict(out, h, cfg, vals, r, seen_viol)
                        if out["sample"] is None:
                            out["sample"] = {"harness": h.name, "config": _js(cfg), "inputs": vals}
            if len(seen_viol) >= 3:
                break
    except core.BudgetExceeded:
        out["complete"] = False
    finally:
        os.chdir(cwd)
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)
        _unmonitor()
        core.ENGINE = None
    if stack:
        out["complete"] = out["complete"] and bool(seen_viol)
    out["stats"] = eng.stats
    out["wall"] = time.time() - t0
    out["functions"] = sorted(funcs)
    return out


def _concrete_verdict(out, h, cfg, vals, r, seen):
    """A real run of the real code failed although symbolically it passed."""
    if r is None or r["invalid"]:
        return
    if r["failures"] or r["exc"]:
        label = (r["failures"] or [f"unexpected-exception:{r.get('exc_type')}"])[0]
        if label in seen:
            return
        seen.add(label)
        out["violations"].append(
            {"label": label, "values": vals, "concrete_only": True,
             "replay": {k: r.get(k) for k in ("failures", "exc", "tb")}}
        )


def _js(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        return repr(x)


TOOL = 4


def _monitor(funcs):
    from . import load

    mon = sys.monitoring
    pre = os.path.join(load.REPO, "kmcpy")

    def start(code, off):
        if code.co_filename.startswith(pre):
            funcs.add(f"{os.path.relpath(code.co_filename, load.REPO)}:{code.co_qualname}")
        return mon.DISABLE

    try:
        mon.use_tool_id(TOOL, "sx")
    except ValueError:
        pass
    mon.register_callback(TOOL, mon.events.PY_START, start)
    mon.set_events(TOOL, mon.events.PY_START)
    mon.restart_events()


def _unmonitor():
    mon = sys.monitoring
    mon.set_events(TOOL, 0)


def _task(args):
    prop, hname, cfg, tier, addr, dl = args
    from .ctx import REGISTRY

    h = next(x for x in REGISTRY[prop] if x.name == hname)
    try:
        return explore(h, cfg, tier, addr, dl)
    except BaseException as e:  # engine bug: never an alarm, but recorded
        return {"harness": hname, "config": cfg, "fatal": f"{type(e).__name__}: {e}\n{traceback.format_exc()[-2000:]}"}


# ------------------------------------------------------------------ known findings


def known_findings(prop):
    """finding: property=C01 harness=<h> label=<l> :: text"""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding:") and f"property={prop} " in line:
                head, _, text = line.partition("::")
                d = dict(kv.split("=", 1) for kv in head.split()[1:] if "=" in kv)
                d["text"] = text.strip()
                res.append(d)
    return res


# ------------------------------------------------------------------ main


def main(prop, tier, only=None, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.environ.setdefault("PYTHONHASHSEED", "0")
    os.environ["NUMBA_DISABLE_JIT"] = "1"
    os.environ.setdefault("MPLBACKEND", "Agg")
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
        os.environ.setdefault(v, "1")
    sockdir = tempfile.mkdtemp(prefix="sx-sock-")
    addr = os.path.join(sockdir, "s")
    srv = subprocess.Popen(
        [PY, os.path.join(VERIF, "check.py"), "--server", prop, addr],
        stdout=subprocess.DEVNULL,
        stderr=None if verbose else subprocess.DEVNULL,
        cwd=sockdir,
    )
    try:
        from . import load

        load.install()
        import logging
        import warnings

        warnings.simplefilter("ignore")
        logging.disable(logging.CRITICAL)
        import_error = None
        try:
            preload()
        except Exception:
            import_error = traceback.format_exc()
        hs = load_props(prop)
        budget = 240 if tier == "quick" else 1500
        tasks = []
        for h in hs:
            if only and h.name != only:
                continue
            for cfg in h.tier_configs(tier):
                tasks.append((prop, h.name, cfg, tier, addr, min(h.deadline or budget, budget)))
        nproc = min(8, max(1, len(tasks)))
        results = []
        global STOP
        STOP = mp.get_context("fork").Value("d", t0 + LIMIT[tier], lock=False)
        if nproc == 1 or verbose:
            for t in tasks:
                r = _task(t)
                results.append(r)
                if verbose:
                    _verbose(r)
        else:
            known = {(k.get("harness"), k.get("label")) for k in known_findings(prop)}
            with mp.get_context("fork").Pool(nproc, maxtasksperchild=8) as pool:
                it = pool.imap_unordered(_task, tasks, chunksize=1)
                while len(results) < len(tasks):
                    try:
                        r = it.next(timeout=max(1.0, STOP.value + 90 - time.time()))
                    except mp.TimeoutError:
                        done = {(r["harness"], repr(r["config"])) for r in results}
                        for t in tasks:  # code that never comes back: no verdict, the other results stand
                            if (t[1], repr(t[2])) not in done:
                                results.append({"harness": t[1], "config": t[2], "fatal": "did not finish in time"})
                        pool.terminate()
                        break
                    results.append(r)
                    if tier == "quick" and any((r["harness"], v["label"]) not in known for v in r.get("violations", ())):
                        STOP.value = min(STOP.value, time.time() + 45)  # a violation is reported soon
    finally:
        srv.kill()
        import shutil

        shutil.rmtree(sockdir, ignore_errors=True)
    return report(prop, tier, seed, hs, results, time.time() - t0, import_error)


def _verbose(r):
    if "fatal" in r:
        print("FATAL", r["harness"], r["config"], r["fatal"])
        return
    s = r["stats"]
    print(
        f"{r['harness']} {r['config']} paths={s.paths} inf={s.infeasible} q={s.queries} unk={s.q_unknown} "
        f"obl={s.obligations} dis={s.discharged} und={s.undecided} unsup={s.unsupported} pins={s.pins} "
        f"err={s.errors} solver={s.solver_s:.1f}s wall={r['wall']:.1f}s complete={r['complete']} "
        f"replays={r['replays']} valid={r['validated']} mism={len(r['mismatch'])} "
        f"viol={[v['label'] for v in r['violations']]} spur={[v['label'] for v in r['spurious']]} notes={s.notes}"
    )
    for e in r["engine_errors"][:3]:
        print("   ENGINE", e)
    for v in r["violations"][:3]:
        print("   VIOL", json.dumps(v, default=str)[:3000])
    for v in r["spurious"][:3]:
        print("   SPUR", json.dumps(v, default=str)[:1500])
    for v in r["mismatch"][:2]:
        print("   MISM", json.dumps(v, default=str)[:600])
    sys.stdout.flush()


def report(prop, tier, seed, hs, results, wall, import_error):
    from .core import Stats

    tot = Stats()
    funcs, labels = set(), {}
    violations, samples, incomplete, problems = [], [], [], []
    validated = replays = mism = spur = 0
    per = []
    for r in results:
        if "fatal" in r:
            problems.append(f"{r['harness']} {r['config']}: {r['fatal'][:600]}")
            continue
        tot.merge(r["stats"])
        funcs.update(r["functions"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for v in r["violations"]:
            violations.append((r["harness"], r["config"], v))
        if r["sample"]:
            samples.append(r["sample"])
        if not r["complete"]:
            incomplete.append(f"{r['harness']} {r['config']}")
        validated += r["validated"]
        replays += r["replays"]
        mism += len(r["mismatch"])
        spur += len(r["spurious"])
        problems.extend(f"{r['harness']}: {e[-400:]}" for e in r["engine_errors"][:2])
        problems.extend(f"{r['harness']}: not applicable to this tree: {e}" for e in r["skipped"][:1])
        s = r["stats"]
        per.append(
            {
                "harness": r["harness"],
                "config": _js(r["config"]),
                "paths": s.paths,
                "queries": s.queries,
                "obligations": s.obligations,
                "discharged": s.discharged,
                "undecided": s.undecided,
                "solver_s": round(s.solver_s, 2),
                "complete": r["complete"],
            }
        )
    kf = known_findings(prop)
    known_hit, fresh = {}, []
    for hn, cfg, v in violations:
        m = next((k for k in kf if k.get("harness") == hn and k.get("label") == v["label"]), None)
        if m is not None:
            known_hit[m["text"]] = m
        else:
            fresh.append((hn, cfg, v))
    lines = []
    for text in known_hit:
        lines.append(f"KNOWN-FINDING: property={prop} {text}")
    rdir = os.path.join(VERIF, "evidence", "replay")
    for hn, cfg, v in fresh:
        os.makedirs(rdir, exist_ok=True)
        safe = "".join(c if c.isalnum() or c in "-_." else "_" for c in f"{prop}-{hn}-{v['label']}")[:120]
        path = os.path.join(rdir, safe + ".json")
        with open(path, "w") as f:
            json.dump(
                {"property": prop, "harness": hn, "config": cfg, "label": v["label"], "values": v["values"],
                 "observed": v["replay"],
                 "replay_cmd": f"{PY} {VERIF}/check.py --replay {path}"},
                f, indent=1, default=str)
        lines.append(f"VIOLATION property={prop} replay={path}")
    if import_error and not results:
        problems.append(import_error[-800:])
    cov = {
        "states": tot.paths,
        "transitions": tot.queries,
        "traces_validated_against_impl": validated,
        "samples": samples[:4],
        "exhaustive": bool(not incomplete and not problems and tot.undecided == 0 and tot.unsupported == 0 and tot.pins == 0),
        "explanation": "states = feasible symbolic paths of the real code; transitions = solver queries "
                       "(branch feasibility, value enumeration, negated assertions); each assertion is decided by "
                       "z3 over all values of the path within the bounds",
        "functions_encoded": sorted(funcs),
        "bounds": {h.name: h.bounds for h in hs},
        "paths": tot.paths,
        "infeasible_paths": tot.infeasible,
        "branch_points_forked": tot.branches,
        "queries": {"total": tot.queries, "sat": tot.q_sat, "unsat": tot.q_unsat, "unknown": tot.q_unknown},
        "solver_s": round(tot.solver_s, 2),
        "obligations": tot.obligations,
        "discharged": tot.discharged,
        "undecided": tot.undecided,
        "unsupported_paths": tot.unsupported,
        "pinned_terms": tot.pins,
        "concrete_replays": replays,
        "label_mismatches": mism,
        "spurious_counterexamples": spur,
        "incomplete": incomplete,
        "engine_problems": problems[:10],
        "notes": tot.notes,
        "reached_labels": labels,
        "per_harness": per,
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": [
            "floats are modelled as exact real numbers and integers as unbounded integers; counterexamples are replayed in IEEE doubles",
            "exp/log/sqrt are variables constrained by axioms true of the real functions (sign, monotonicity, tangent bound, congruence)",
            "numba-compiled functions are executed from their Python source; njit semantics are assumed equal",
            "numpy calls are replaced by an elementwise model (sx/arr.py), cross-validated by replaying one model of each path on the untouched code",
        ],
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for l in lines:
        print(l)
    print(
        f"{prop} {tier}: paths={tot.paths} queries={tot.queries} obligations={tot.obligations} "
        f"discharged={tot.discharged} undecided={tot.undecided} unsupported={tot.unsupported} pins={tot.pins} "
        f"validated={validated}/{replays} spurious={spur} incomplete={len(incomplete)} problems={len(problems)} "
        f"solver={tot.solver_s:.1f}s wall={wall:.1f}s"
    )
    return 1 if fresh else 0
