"""Harness-facing API, identical in symbolic and in concrete (replay) mode."""
from __future__ import annotations

import importlib
import math
from fractions import Fraction

REGISTRY: dict = {}  # property id -> list[Harness]


class Harness:
    def __init__(self, prop, name, fn, configs, bounds, thorough=None, deadline=None, max_paths=None):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.configs = configs
        self.thorough = thorough
        self.bounds = bounds
        self.deadline = deadline
        self.max_paths = max_paths

    def tier_configs(self, tier):
        if tier == "thorough" and self.thorough is not None:
            return list(self.configs) + list(self.thorough)
        return list(self.configs)


def harness(prop, configs=({},), bounds="", thorough=None, deadline=None, max_paths=None, name=None):
    def deco(fn):
        h = Harness(prop, name or fn.__name__, fn, list(configs), bounds, thorough, deadline, max_paths)
        REGISTRY.setdefault(prop, []).append(h)
        return fn

    return deco


class Invalid(BaseException):
    """Concrete replay left the assumed input space (rounding)."""


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None


class BaseCtx:
    sym = False

    def __init__(self):
        self._names = {}
        self.labels = []
        self._clean = []

    def _uniq(self, name):
        n = self._names.get(name, 0)
        self._names[name] = n + 1
        return name if n == 0 else f"{name}#{n}"

    def mod(self, name):
        return importlib.import_module(name)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[int(i.__index__())]

    def concrete(self, x):
        """Fork over the feasible values of an integer."""
        if isinstance(x, float):  # a whole number computed in floats
            return int(round(x))
        return x.__int__()

    def run(self, fn, *a, **k):
        try:
            return Outcome(value=fn(*a, **k))
        except Exception as e:  # engine signals are BaseException
            return Outcome(exc=e)

    def raises(self, label, fn, *a, exc=Exception, **k):
        o = self.run(fn, *a, **k)
        self.check(label, (not o.ok) and isinstance(o.exc, exc))
        return o

    def ints(self, name, n, lo, hi):
        return [self.int(f"{name}[{i}]", lo, hi) for i in range(n)]

    def reals(self, name, n, lo=None, hi=None, **kw):
        return [self.real(f"{name}[{i}]", lo, hi, **kw) for i in range(n)]

    def eq_all(self, label, a, b, **kw):
        a, b = list(a), list(b)
        self.check(label + ":len", len(a) == len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            self.eq(f"{label}[{i}]", x, y, **kw)

    def tmp(self):
        """Scratch directory, removed afterwards."""
        import shutil
        import tempfile

        d = tempfile.mkdtemp(prefix="sx_")
        self._clean.append(lambda: shutil.rmtree(d, ignore_errors=True))
        return d

    def chdir(self, d):
        import os

        old = os.getcwd()
        os.chdir(d)
        self._clean.append(lambda: os.chdir(old))

    def read_json(self, path):
        import gzip
        import json

        from . import files

        with (gzip.open if str(path).endswith(".gz") else open)(path, "rt") as f:
            return files.decode(json.load(f))

    def write_json(self, path, data):
        import json

        from . import files

        with open(path, "w") as f:
            json.dump(files.encode(data) if self.sym else data, f)

    def h5(self):
        """Make h5py importable: the stand-in of sx.files when it is not installed."""
        if self.sym:
            return
        import importlib.util
        import sys

        if "h5py" not in sys.modules and importlib.util.find_spec("h5py") is None:
            from . import files

            files.reset()
            sys.modules["h5py"] = files.H5Shim()
            self._clean.append(lambda: sys.modules.pop("h5py", None))

    def read_table(self, path, delimiter=","):
        from . import files

        return files.read_table(path, delimiter)

    def write_table(self, path, rows, delimiter=" "):
        from . import files

        files.write_table(path, rows, delimiter)

    def reach(self, label):
        """Vacuity witness: this point is reachable."""
        self.labels.append(("reach", label))


class ConcreteCtx(BaseCtx):
    sym = False

    def __init__(self, values):
        super().__init__()
        self.values = values
        self.failures = []
        self.missing = []
        self._undo = []

    def _get(self, name, default):
        name = self._uniq(name)
        if name in self.values:
            return self.values[name]
        self.missing.append(name)
        return default

    def int(self, name, lo, hi):
        v = int(self._get(name, lo))
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        d = lo if lo is not None else (hi if hi is not None else 0)
        v = self._get(name, d)
        v = float(Fraction(v))
        # float rounding must not leave the open interval
        if lo is not None and (v < lo or (lo_open and v <= lo)):
            v = math.nextafter(float(lo), math.inf) if lo_open else float(lo)
        if hi is not None and (v > hi or (hi_open and v >= hi)):
            v = math.nextafter(float(hi), -math.inf) if hi_open else float(hi)
        return v

    def bool(self, name):
        return bool(self._get(name, False))

    def assume(self, c):
        if not c:
            raise Invalid()

    def check(self, label, cond):
        self.labels.append(("check", label))
        if not bool(cond):
            self.failures.append(label)

    def eq(self, label, a, b, rtol=1e-7, atol=1e-12):
        self.labels.append(("check", label))
        if not close(a, b, rtol, atol):
            self.failures.append(label)

    def fail(self, label):
        self.labels.append(("check", label))
        self.failures.append(label)

    def patch(self, obj, attr, value):
        old = obj.__dict__.get(attr, _MISSING) if isinstance(obj, type) else getattr(obj, attr, _MISSING)
        self._undo.append((obj, attr, old))
        setattr(obj, attr, value)

    def undo(self):
        for obj, attr, old in reversed(self._undo):
            if old is _MISSING:
                delattr(obj, attr)
            else:
                setattr(obj, attr, old)
        self._undo = []
        for f in reversed(self._clean):
            f()
        self._clean = []

    def install_rng(self, factory):
        import numpy as np

        self.patch(np.random, "default_rng", lambda seed=None, *a, **k: factory(seed))

    def array(self, data, dtype=None):
        import numpy as np

        return np.array(data, dtype=dtype)

    def exp(self, x):
        try:
            return math.exp(x)
        except OverflowError:
            return math.inf

    def log(self, x):
        return math.log(x) if x > 0 else -math.inf

    def sqrt(self, x):
        return math.sqrt(x)

    def exp_products(self):
        pass

    def isnan(self, x):
        return isinstance(x, float) and math.isnan(float(x)) or (hasattr(x, "item") and math.isnan(float(x)))


_MISSING = object()


def close(a, b, rtol, atol):
    try:
        a, b = float(a), float(b)
    except TypeError:
        return a == b
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= max(rtol * max(abs(a), abs(b)), atol)


class SymCtx(BaseCtx):
    sym = True

    def __init__(self, eng):
        super().__init__()
        from . import files

        files.reset()
        self.eng = eng
        self.candidates = []  # (label, values)
        self._undo = []

    # ---- inputs
    def int(self, name, lo, hi):
        from .core import SymNum, z3

        name = self._uniq(name)
        if lo == hi:
            return lo
        v = z3.Int(name)
        self.eng.inputs[name] = ("int", v)
        self.eng.add(z3.And(v >= lo, v <= hi))
        return SymNum(v, True)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        from .core import SymNum, rat, z3

        name = self._uniq(name)
        v = z3.Real(name)
        self.eng.inputs[name] = ("real", v)
        if lo is not None:
            self.eng.add(v > rat(lo) if lo_open else v >= rat(lo))
        if hi is not None:
            self.eng.add(v < rat(hi) if hi_open else v <= rat(hi))
        return SymNum(v, False)

    def bool(self, name):
        from .core import SymBool, z3

        name = self._uniq(name)
        v = z3.Bool(name)
        self.eng.inputs[name] = ("bool", v)
        return SymBool(v)

    def assume(self, c):
        self.eng.assume(c)

    # ---- values of a model
    def values(self, extra=()):
        """Concrete input values for path + extra, preferring dyadic reals."""
        from .core import z3, val_to_fraction

        eng = self.eng
        reals = [v for k, v in eng.inputs.values() if k == "real"]
        m = None
        if reals:
            for scale, lim in ((4, 64), (1024, None)):
                nice = []
                for i, v in enumerate(reals):
                    k = z3.Int(f"nice!{i}")
                    nice.append(v * scale == z3.ToReal(k))
                    if lim:
                        nice.append(z3.And(v <= lim, v >= -lim))
                if eng.check(*extra, *nice, timeout=1500) == "sat":
                    m = eng.model()
                    break
        if m is None:
            if eng.check(*extra) != "sat":
                return None
            m = eng.model()
        out = {}
        for name, (kind, v) in eng.inputs.items():
            val = m.eval(v, model_completion=True)
            if kind == "int":
                out[name] = val.as_long()
            elif kind == "bool":
                out[name] = bool(z3.is_true(val))
            else:
                out[name] = str(val_to_fraction(val))
        return out

    # ---- obligations
    def check(self, label, cond):
        from .core import PathEnd, SymBool, SymNum, unnp, z3

        self.labels.append(("check", label))
        st = self.eng.stats
        st.obligations += 1
        cond = unnp(cond)
        if isinstance(cond, SymNum):
            cond = cond != 0
        if not isinstance(cond, SymBool):
            if bool(cond):
                st.discharged += 1
                return
            vals = self.values()
            if vals is None:
                st.undecided += 1
                raise PathEnd()
            self.candidates.append((label, vals))
            return
        neg = z3.Not(cond.e)
        r = self.eng.check(neg)
        if r == "unsat":
            st.discharged += 1
            self.eng.add(cond.e)
            return
        if r == "unknown":
            st.undecided += 1
            st.note(f"undecided: {label}")
            return
        vals = self.values((neg,))
        if vals is not None:
            self.candidates.append((label, vals))
        # go on under the assumption that it held
        if self.eng.check(cond.e) == "unsat":
            raise PathEnd()
        self.eng.add(cond.e)

    def eq(self, label, a, b, rtol=1e-7, atol=1e-12):
        from .core import SymNum, SymBool, PathEnd, is_sym, unnp, z3, rat

        a, b = unnp(a), unnp(b)
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            return self.check(label, a == b)
        if not is_sym(a) and not is_sym(b):
            return self.check(label, close(a, b, rtol, atol))
        for v in (a, b):
            if not isinstance(v, (int, float, SymNum, Fraction)) or (
                isinstance(v, float) and not math.isfinite(v)
            ):
                return self.check(label, False)
        a, b = SymNum.of(a), SymNum.of(b)
        self.labels.append(("check", label))
        st = self.eng.stats
        st.obligations += 1
        ea, eb = a.r(), b.r()
        d = z3.simplify(ea - eb, som=True)
        if z3.is_rational_value(d) and d.numerator_as_long() == 0:
            st.discharged += 1
            return
        r = self.eng.check(ea != eb)
        if r == "unsat":
            st.discharged += 1
            return
        # beyond tolerance?
        mag = z3.If(eb >= 0, eb, -eb)
        tol = rat(1e-6) * mag + rat(max(atol, 1e-9))
        far = z3.Or(ea - eb > tol, eb - ea > tol)
        r2 = self.eng.check(far)
        if r2 == "unsat":
            st.discharged += 1
            return
        if r2 == "sat":
            # ask for a big difference first: it survives float rounding and
            # reproduces even if the difference is tiny relative to inputs
            big = z3.Or(ea - eb > mag / 8 + rat(1e-6), eb - ea > mag / 8 + rat(1e-6))
            vals = self.values((big,)) or self.values((far,))
            if vals is not None:
                self.candidates.append((label, vals))
                return
        elif r == "sat":
            vals = self.values((ea != eb,))
            if vals is not None:
                self.candidates.append((label, vals))
        st.undecided += 1
        st.note(f"undecided: {label}")

    def fail(self, label):
        self.check(label, False)

    def patch(self, obj, attr, value):
        old = obj.__dict__.get(attr, _MISSING) if isinstance(obj, type) else getattr(obj, attr, _MISSING)
        self._undo.append((obj, attr, old))
        setattr(obj, attr, value)

    undo = ConcreteCtx.undo

    def install_rng(self, factory):
        from . import arr

        old = arr.RNG_FACTORY[0]

        class _U:
            pass

        arr.RNG_FACTORY[0] = factory

    def array(self, data, dtype=None):
        from . import arr

        return arr.np_array(data, dtype=dtype)

    def exp(self, x):
        from .core import SymNum, is_sym

        return x.exp() if is_sym(x) else math.exp(x)

    def log(self, x):
        from .core import is_sym

        return x.log() if is_sym(x) else (math.log(x) if x > 0 else -math.inf)

    def sqrt(self, x):
        from .core import is_sym

        return x.sqrt() if is_sym(x) else math.sqrt(x)

    def exp_products(self):
        self.eng.exp_products()

    def isnan(self, x):
        from .core import is_sym, unnp

        x = unnp(x)
        return (not is_sym(x)) and isinstance(x, float) and math.isnan(x)
