"""Fitting: coefficients solve the weighted Lasso problem of the data, and are stored with it."""
import itertools
import math
import os

from .common import *

XS = {
    # three features, one of them constant
    "constant": [[1.0, 0.0, 2.0], [3.0, 1.0, 2.0], [2.0, 4.0, 2.0], [-1.0, 2.0, 2.0]],
    "plain": [[1.0, 0.0], [3.0, 1.0], [2.0, 4.0], [-1.0, 2.0]],
    # the first feature is constant once row 2 is left out
    "loo": [[1.0, 0.0], [1.0, 1.0], [3.0, 4.0], [1.0, -2.0]],
    # a feature that hardly varies
    "small": [[0.5001, 0.0], [0.5003, 1.0], [0.5002, 4.0], [0.4999, 2.0]],
}


def offsets(X, y, w):
    n, m = len(X), len(X[0])
    tot = sum(w)
    return [sum(w[i] * X[i][j] for i in range(n)) / tot for j in range(m)], sum(w[i] * y[i] for i in range(n)) / tot


def scales(X, w):
    n, m = len(X), len(X[0])
    o, _ = offsets(X, [0.0] * n, w)
    s = [math.sqrt(sum((X[i][j] - o[j]) ** 2 for i in range(n))) for j in range(m)]
    return [v if v > 1e-12 else 1.0 for v in s]


def solve(ctx, X, y, w, alpha, pen, intercept, name):
    """The minimiser of 1/(2 sum w) sum w (y - e - X k)^2 + alpha sum pen |k| (e = 0 without intercept)."""
    n, m = len(X), len(X[0])
    tot = sum(w)
    if intercept:
        xo, yo = offsets(X, y, w)
    else:
        xo, yo = [0.0] * m, 0
    Z = [[float(X[i][j]) - xo[j] for j in range(m)] for i in range(n)]
    z = [y[i] - yo for i in range(n)]
    A = [[sum(w[i] * Z[i][a] * Z[i][b] for i in range(n)) / tot for b in range(m)] for a in range(m)]
    A = [[0.0 if abs(v) < 1e-12 else v for v in r] for r in A]
    g = [sum(w[i] * Z[i][a] * z[i] for i in range(n)) / tot for a in range(m)]
    live = [a for a in range(m) if A[a][a] > 1e-12]
    import numpy as np

    def candidate(sg):
        """Coefficients of one pattern of signs, and how far each optimality condition is from failing."""
        on = [a for a, t in zip(live, sg) if t]
        k = [0.0] * m
        if on:
            inv = np.linalg.inv([[A[a][b] for b in on] for a in on]).tolist()
            rhs = [g[a] - alpha * pen[a] * t for a, t in zip(live, sg) if t]
            for a, row in zip(on, inv):
                k[a] = sum(u * v for u, v in zip(row, rhs))
        room = []
        for a, t in zip(live, sg):
            r = g[a] - sum(A[a][b] * k[b] for b in live)
            room += [t * k[a]] if t else [alpha * pen[a] - r, alpha * pen[a] + r]
        return k, room

    best = None
    for sg in itertools.product((0, 1, -1), repeat=len(live)):
        k, room = candidate(sg)
        if ctx.sym:
            if bool(land(*[v >= -1e-12 for v in room])):
                break
        elif best is None or min(room, default=0) > best[0]:
            best = (min(room, default=0), k)
    else:
        if ctx.sym:
            ctx.assume(False)
        k = best[1]
    e = yo - sum(xo[j] * k[j] for j in range(m)) if intercept else 0.0
    return k, e


def install(ctx, calls):
    """A Lasso that solves its problem exactly, in place of scikit-learn's iteration."""
    import sklearn.linear_model as lm
    import sklearn.metrics as sm

    class Lasso:
        def __init__(self, alpha=1.0, *, fit_intercept=True, max_iter=1000, **kw):
            self.alpha, self.fit_intercept, self.kw = alpha, fit_intercept, kw

        def fit(self, X, y, sample_weight=None):
            rows = [[float(v) for v in r] for r in X.tolist()]
            ys = list(y.tolist()) if hasattr(y, "tolist") else list(y)
            w = [1.0] * len(ys) if sample_weight is None else [float(v) for v in sample_weight]
            calls.append((len(rows), sample_weight is not None))
            k, e = solve(ctx, rows, ys, w, self.alpha, [1.0] * len(rows[0]), self.fit_intercept, f"s{len(calls)}")
            self.coef_, self.intercept_ = ctx.array(k, dtype=float), e
            return self

        def predict(self, X):
            return ctx.array([sum(a * b for a, b in zip(r, self.coef_)) + self.intercept_ for r in X.tolist()], dtype=float)

    def rmse(a, b, **kw):
        """Stand-in: a new value, remembered with what it is the error of."""
        r = ctx.real(f"rmse{len(errors)}", 0, 500) if ctx.sym else float(real(a, b, **kw))
        errors.append((r, list(a), list(b)))
        return r

    errors = []
    real = sm.root_mean_squared_error
    here = ctx.mod("kmcpy.models.fitting.fitter")
    for name, home, new in (("Lasso", lm, Lasso), ("root_mean_squared_error", sm, rmse)):
        ctx.patch(home, name, new)
        if hasattr(here, name):
            ctx.patch(here, name, new)
    return errors


def data(ctx, case, free, weighted):
    X = XS[case]
    base = [12.0, -3.0, 25.0, 40.0]
    y = [ctx.real(f"y{i}", -80, 80) if i in free else base[i] for i in range(4)]
    w = [1.0, 2.0, 0.5, 4.0] if weighted else [1.0] * 4
    d = ctx.tmp()
    ctx.chdir(d)
    ctx.write_table("e_kra.txt", [[v] for v in y])
    ctx.write_table("weight.txt", [[v] for v in w])
    ctx.write_table("correlation_matrix.txt", X)
    return X, y, w, d


def predict(X, k, e):
    return [sum(a * b for a, b in zip(r, k)) + e for r in X]


@harness(
    "C24",
    configs=[{"case": c, "norm": n, "weighted": w} for c, n, w in (("plain", True, True), ("plain", False, True), ("constant", True, False), ("plain", True, False), ("loo", True, True), ("small", True, True))],
    bounds="4 samples (2 of arbitrary energy) of 2 or 3 features, one of them constant, nearly constant or constant once a sample is left out, weighted or not, any penalty 0.05..5 (nearly constant: one arbitrary energy, penalties 0.05 and 2), with and without normalisation: "
    "coefficients and constant solve the weighted problem of the data given, predictions and error follow from them",
    max_paths=2000,
)
def solution(ctx, case, norm, weighted):
    F = ctx.mod("kmcpy.models.fitting.fitter").LCEFitter
    calls = []
    errors = install(ctx, calls)
    X, y, w, d = data(ctx, case, (0, 2) if case != "small" else (2,), weighted)
    alpha = ctx.real("alpha", 0.05, 5) if case != "small" else ctx.choice("alpha", [0.05, 2.0])
    ctx.patch(F, "_leave_one_out_rmse", classmethod(lambda cls, *a, **kw: 1.5)) if hasattr(F, "_leave_one_out_rmse") else None
    f = F()
    p, y_pred, y_true = f.fit(alpha=alpha, normalize=norm, lce_params_history_fname=None)
    k, e = solve(ctx, X, y, w, alpha, scales(X, w) if norm else [1.0] * len(X[0]), True, "o")
    big = 1.0 if case != "small" else 1.0e-4
    ctx.eq_all("coefficients", [v * big for v in p.keci], [v * big for v in k], rtol=1e-5, atol=1e-6)
    ctx.eq("constant", p.empty_cluster, e, rtol=1e-5, atol=1e-6)
    ctx.eq_all("predictions", list(y_pred), predict(X, k, e), rtol=1e-5, atol=1e-6)
    ctx.eq_all("given energies", list(y_true), y)
    want = predict(X, p.keci, p.empty_cluster)
    if errors:
        r, a, b = errors[-1]
        ctx.check("error reported", p.rmse == r)
        ctx.eq_all("error of the fit", [(u - v) * (1 if bool(a[0] == y[0]) else -1) for u, v in zip(a, b)], [u - v for u, v in zip(y, want)], rtol=1e-5, atol=1e-6)
    else:
        ctx.eq("error", p.rmse * p.rmse * 4, sum((a - b) * (a - b) for a, b in zip(y, want)), rtol=1e-5, atol=1e-6)
    ctx.check("settings kept", land(p.alpha == alpha, bool(p.normalize) == norm, len(p.weight) == 4, *[a == b for a, b in zip(p.weight, w)]))
    ctx.check("held by the fitter", f.model_parameters is p)


@harness(
    "C24",
    configs=[{"case": c, "norm": n, "alpha": a, "free": f} for c, n, a, f in (("plain", True, 1.0, 0), ("plain", False, 1.0, 2), ("loo", True, 0.3, 2), ("constant", False, 0.3, 1))],
    bounds="4 samples (1 of arbitrary energy) with unequal weights, fixed penalty: the leave-one-out error is that of predicting each sample from the unweighted fit of the other three",
    max_paths=2000,
)
def left_out(ctx, case, norm, alpha, free):
    F = ctx.mod("kmcpy.models.fitting.fitter").LCEFitter
    install(ctx, [])
    X, y, w, d = data(ctx, case, (free,), True)
    p, _, _ = F().fit(alpha=alpha, normalize=norm, lce_params_history_fname=None)
    total = 0
    for i in range(4):
        Xi, yi = [r for j, r in enumerate(X) if j != i], [v for j, v in enumerate(y) if j != i]
        one = [1.0] * 3
        k, e = solve(ctx, Xi, yi, one, alpha, scales(Xi, one) if norm else one, True, f"o{i}")
        u = y[i] - predict([X[i]], k, e)[0]
        total = total + u * u
    ctx.check("not negative", p.loocv >= 0)
    ctx.eq("leave-one-out error", p.loocv * p.loocv * 4, total, rtol=1e-5, atol=1e-5)


SAME = ("keci", "empty_cluster", "weight", "alpha", "time_stamp", "time", "rmse", "loocv", "normalize", "orbit_fingerprints", "local_environment_hash")


def alike(ctx, label, a, b):
    for n in SAME:
        u, v = getattr(a, n), getattr(b, n)
        if isinstance(u, (list, tuple)):
            ctx.check(f"{label}: {n} length", len(u) == len(v))
            pairs = list(zip(u, v))
        else:
            pairs = [(u, v)]
        for x, y in pairs:
            if isinstance(x, str) or x is None or isinstance(x, bool):
                ctx.check(f"{label}: {n}", x == y)
            else:
                ctx.eq(f"{label}: {n}", x, y, rtol=1e-9, atol=1e-9)


@harness(
    "C24",
    configs=[{"skip": s, "ext": e} for s, e in ((None, "json"), (None, "h5"), ("params", "json"), ("history", "json"), ("both", "json"))],
    bounds="two fits of one expansion (2 features, 4 samples, 1 arbitrary energy each) and a repetition of the second: coefficients, parameter and history files hold the fits, in order; files that were not asked for are not written; "
    "the fit is accepted by the expansion and gives its energies for every occupation of 4 sites",
    max_paths=2000,
)
def stored(ctx, skip, ext):
    from .C23 import built, corr, energies

    P = ctx.mod("kmcpy.models.parameters")
    install(ctx, [])
    if ext == "h5":
        ctx.h5()
    F = ctx.mod("kmcpy.models.fitting.fitter").LCEFitter
    m, _ = built(ctx, "occupation", cuts=(1, 1, 1))
    fits = []
    loo = ctx.reals("loo", 2, 0, 500)
    if hasattr(F, "_leave_one_out_rmse"):
        ctx.patch(F, "_leave_one_out_rmse", classmethod(lambda cls, *a, **kw: loo[min(len(fits), 1)]))
    kw = {
        "lce_params_fname": None if skip in ("params", "both") else f"p.{ext}",
        "lce_params_history_fname": None if skip in ("history", "both") else f"h.{ext}",
    }
    d = None
    free = [ctx.real(f"y{t}", -80, 80) for t in range(2)]
    for t in (0, 1, 1):  # the last one repeats the second
        X = XS["plain"]
        y = [12.0, -3.0, 25.0, 40.0]
        y[t] = free[t]
        w = [[1.0, 2.0, 0.5, 4.0], [1.0] * 4][t]
        if d is None:
            d = ctx.tmp()
            ctx.chdir(d)
        ctx.write_table("e_kra.txt", [[v] for v in y])
        ctx.write_table("weight.txt", [[v] for v in w])
        ctx.write_table("correlation_matrix.txt", X)
        p, _, _ = m.fit(alpha=[0.3, 2.0][t], normalize=t == 1, **kw)
        fits.append(p)
        ctx.eq_all("coefficient file", [v for r in ctx.read_table("keci.txt", None) for v in r], p.keci, rtol=0, atol=2e-8)
        ctx.check("penalty kept", p.alpha == [0.3, 2.0][t])
        ctx.check("weights kept", list(p.weight) == w)
        ctx.check("fingerprints kept", list(p.orbit_fingerprints) == list(m.get_orbit_fingerprints()))
        ctx.check("environment kept", p.local_environment_hash == m.local_environment_hash)
    made = sorted(set(os.listdir(d)) - {"e_kra.txt", "weight.txt", "correlation_matrix.txt", "keci.txt"})
    ctx.check("files written", made == sorted(v for v in kw.values() if v))
    if kw["lce_params_fname"]:
        alike(ctx, "parameter file", P.LCEModelParameters.from_file(kw["lce_params_fname"]), fits[-1])
    if kw["lce_params_history_fname"]:
        h = P.LCEModelParamHistory.from_file(kw["lce_params_history_fname"]).history
        ctx.check("history length", len(h) == 3)
        for t, (a, b) in enumerate(zip(h, fits)):
            alike(ctx, f"history {t}", a, b)
    m.set_parameters(fits[-1])
    occ = ctx.ints("o", 6, 0, 1)
    env = [2, 3, 4, 5]
    want = fits[-1].empty_cluster + sum(a * b for a, b in zip(fits[-1].keci, corr(m, occ, env)))
    ctx.eq("energy of the fit", energies(m, ctx, occ, env), want, rtol=1e-9, atol=1e-9)


@harness("C24", configs=[{"n": 1}, {"n": 3}, {"n": 0}], bounds="fingerprints of 0, 1 or 3 features for fits of 2 (1 arbitrary energy): refused, and no file is written or changed", max_paths=500)
def refused(ctx, n):
    F = ctx.mod("kmcpy.models.fitting.fitter").LCEFitter
    install(ctx, [])
    X, y, w, d = data(ctx, "plain", (0,), True)
    for f in ("keci.txt", "lce_params.json", "lce_params_history.json"):
        open(f, "w").write("old")
    f = F()
    before = f.model_parameters
    ctx.raises("refused", lambda: f.fit(alpha=1.0, orbit_fingerprints=["a", "b", "c"][:n]))
    ctx.check("files untouched", all(open(g).read() == "old" for g in ("keci.txt", "lce_params.json", "lce_params_history.json")))
    ctx.check("no further file", len(os.listdir(d)) == 6)
    ctx.check("parameters kept", f.model_parameters is before)


@harness(
    "C24",
    configs=[{"basis": "chebyshev", "how": "all", "weight": "list"}, {"basis": "occupation", "how": "each", "weight": "scalar"}, {"basis": "chebyshev", "how": "build", "weight": None}],
    bounds="3 structures of any 2 of 4 configurations (a vacancy, a substitution), arbitrary energies and weights: row k of features, energies and weights is that of structure k, in memory, "
    "in the JSON file and in the files the fit reads; mismatched lengths refused",
)
def inputs(ctx, basis, how, weight):
    from .C23 import SITES, built

    N = ctx.mod("kmcpy.io.neb.data")
    m, lls = built(ctx, basis, cuts=(3, 1, 1))
    shapes = [{}, {1: "P"}, {3: None}, {2: "P", 3: None}]
    picks = [ctx.choice(f"s{i}", [0, 1, 2, 3]) for i in range(2)] + [3]
    structs, occs = [], []
    for p in picks:
        rows = [(shapes[p].get(i, s), c) for i, (s, c) in enumerate(SITES)]
        same = picks.index(p)  # the same structure given twice is the same object
        structs.append(structs[same] if same < len(structs) else structure([s for s, _ in rows if s], [c for s, c in rows if s]))
        state = [1 if i in shapes[p] else 0 for i in range(4)]
        occs.append([1 - v if basis == "occupation" else v for v in state])
    y = ctx.reals("y", 3, -500, 500)
    w = ctx.reals("w", 3, 0.1, 10)
    if how == "all":
        L = N.NEBDataLoader(model=m, reference_local_lattice_structure=lls)
        L.add_structures(structs, y, metadata=[{"k": i} for i in range(3)])
    elif how == "each":
        L = N.NEBDataLoader()
        for i in range(3):
            L.add(N.NEBEntry.from_structure(structs[i], y[i], metadata={"k": i}), model=m)
    else:
        L = N.NEBDataLoader.from_structures(structs, y, m, metadata=[{"k": i} for i in range(3)])
    alone = [m.get_corr_from_structure(s) for s in structs]
    ctx.check("one entry each", len(L) == 3)
    d = ctx.tmp()
    given = {"list": w, "scalar": w[0], None: 1.0}[weight]
    wt = {"list": w, "scalar": [w[0]] * 3, None: [1.0] * 3}[weight]
    files = L.write_fitting_inputs(output_dir=d, **({} if weight is None else {"weight": given}))
    j = ctx.read_json(L.to(output_dir=d, prefix="data"))
    table = ctx.read_table(files["corr_fname"], None)
    ctx.check("structures counted", j["n_structures"] == 3 and len(table) == 3)
    for i in range(3):
        for name, got in (("matrix", L.get_correlation_matrix()[i]), ("file", table[i]), ("json", j["correlation_matrix"][i])):
            ctx.eq_all(f"features {name}", list(got), list(alone[i]), rtol=1e-12, atol=1e-12)
        ctx.check("occupation", [int(v) for v in L.get_occupation_matrix()[i]] == [int(v) for v in j["occupation_matrix"][i]] == occs[i])
        ctx.eq("energy", L.get_properties()[i], y[i])
        ctx.eq("energy stored", j["properties"][i], y[i])
        ctx.check("metadata", j["metadata"][i]["k"] == i)
    ctx.eq_all("energies file", [r[0] for r in ctx.read_table(files["ekra_fname"], None)], y, rtol=1e-12)
    ctx.eq_all("weights file", [r[0] for r in ctx.read_table(files["weight_fname"], None)], wt, rtol=1e-12)
    ctx.raises("fewer energies", L.add_structures, structs, y[:2])
    ctx.raises("fewer metadata", L.add_structures, structs, y, metadata=[{}])
    ctx.raises("wrong weights", L.write_fitting_inputs, output_dir=d, weight=[1.0, 2.0])
    ctx.raises("no entries", N.NEBDataLoader(model=m).write_fitting_inputs, output_dir=d)
    ctx.raises("no model", N.NEBDataLoader().add_structure, structs[0], 1.0)
    ctx.check("entries kept", len(L) == 3)


@harness(
    "C24",
    configs=[{"how": h} for h in ("dict", "file", "records")],
    bounds="any 3 coefficients and constant, settings and errors: a fitter's dictionary and file give back the fit; of a file of up to 12 numbered fits in any of 3 orders the one of highest number is taken",
)
def fitter_file(ctx, how):
    M = ctx.mod("kmcpy.models.fitting.fitter")
    P = ctx.mod("kmcpy.models.parameters").LCEModelParameters

    def params(tag):
        return P(
            keci=ctx.reals(f"k{tag}", 3, -500, 500), empty_cluster=ctx.real(f"e{tag}", -500, 500), cluster_site_indices=[], weight=ctx.reals(f"w{tag}", 2, 0.1, 5), alpha=ctx.real(f"a{tag}", 0, 5),
            time_stamp=1000.0 + tag, time=f"t{tag}", rmse=ctx.real(f"r{tag}", 0, 9), loocv=ctx.real(f"l{tag}", 0, 9), normalize=ctx.choice(f"n{tag}", [True, False]),
            orbit_fingerprints=["x", "y", f"z{tag}"], local_environment_hash=f"h{tag}",
        )  # fmt: skip

    f = M.LCEFitter()
    f.model_parameters = want = params(0)
    if how == "dict":
        alike(ctx, "dictionary", M.LCEFitter.from_dict(f.as_dict()).model_parameters, want)
        return
    p = os.path.join(ctx.tmp(), "fit.json")
    if how == "file":
        f.to(p)
        alike(ctx, "file", M.LCEFitter.from_file(p).model_parameters, want)
        return
    other = params(1)
    n = ctx.choice("n", [2, 3, 12])
    order = {"up": list(range(n)), "down": list(range(n))[::-1], "mixed": list(range(1, n, 2)) + list(range(0, n, 2))}[ctx.choice("order", ["up", "down", "mixed"])]
    g = M.LCEFitter()
    g.model_parameters = other
    rec = {k: v for k, v in f.as_dict().items() if not k.startswith("@")}
    old = {k: v for k, v in g.as_dict().items() if not k.startswith("@")}
    ctx.write_json(p, {str(i): rec if i == n - 1 else old for i in order})
    alike(ctx, "newest record", M.LCEFitter.from_file(p).model_parameters, want)
