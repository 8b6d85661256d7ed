"""Import kmcpy from /repo's current source, either plainly or instrumented.

Instrumented: every kmcpy module is compiled from its current source text and
executed with its own ``__builtins__``: ``int``/``float``/``bool``/``isinstance``
understand symbolic values and ``import numpy/numba/math`` yields the symbolic
stand-ins.  The source text itself is not edited.
"""
from __future__ import annotations

import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import math
import os
import sys
import types

REPO = os.environ.get("SX_REPO", "/repo")

LOADED_FILES: dict = {}


def plain_import_setup():
    os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


# ------------------------------------------------------------ symbolic builtins


def _make_builtins():
    from . import arr, core
    from .core import SymBool, SymNum, is_sym

    b = dict(builtins.__dict__)

    def mk_int(x=0, *a, **k):
        if isinstance(x, arr.SymArray):
            x = x.item()
        if is_sym(x):
            r = core.trunc(x)
            if isinstance(r, SymNum) and r.npf:
                y = SymNum(r.e, True)
                return y
            return r
        return int(x, *a, **k)

    def mk_float(x=0.0):
        if isinstance(x, arr.SymArray):
            x = x.item()
        if isinstance(x, SymBool):
            x = x._n()
        if isinstance(x, SymNum):
            y = SymNum(x.r(), False)
            return y
        return float(x)

    def mk_bool(x=False):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, SymNum):
            return x != 0
        return bool(x)

    Int = arr.mktype(int, "i", lambda x: isinstance(x, SymNum) and x.isint and not x.npf or isinstance(x, SymBool), mk_int, "int64")
    Float = arr.mktype(float, "f", lambda x: isinstance(x, SymNum) and not x.isint, mk_float, "float64")
    Bool = arr.mktype(bool, "b", lambda x: isinstance(x, SymBool), mk_bool, "bool")

    real_isinstance = builtins.isinstance

    def sx_isinstance(x, cls):
        if is_sym(x):
            if real_isinstance(cls, tuple):
                return any(sx_isinstance(x, c) for c in cls)
            if hasattr(cls, "_symcheck"):
                return cls._symcheck(x)
            if cls is object:
                return True
            import numbers

            if cls in (numbers.Number, numbers.Real, numbers.Complex):
                return True
            if cls is numbers.Rational or cls is numbers.Integral:
                return real_isinstance(x, SymBool) or x.isint
            if real_isinstance(cls, types.UnionType):
                return any(sx_isinstance(x, c) for c in cls.__args__)
            if cls in (int, float, bool):
                return {int: Int, float: Float, bool: Bool}[cls]._symcheck(x)
            return False
        return real_isinstance(x, cls)

    def sx_round(x, n=None):
        if is_sym(x):
            return x.__round__(n)
        return round(x, n) if n is not None else round(x)

    def sx_sum(it, start=0):
        acc = start
        for v in it:
            acc = acc + v
        return acc

    def sx_any(it):
        # short-circuit semantics are kept only for concrete elements; symbolic
        # elements fork, as they would in the source loop
        for v in it:
            if v:
                return True
        return False

    real_type = builtins.type

    class _SxTypeMeta(real_type):
        def __instancecheck__(cls, x):
            return real_isinstance(x, real_type)

    def sx_repr(x):
        return repr(x)

    b["int"] = Int
    b["float"] = Float
    b["bool"] = Bool
    b["isinstance"] = sx_isinstance
    b["round"] = sx_round
    b["sum"] = sx_sum

    from . import files

    files.SYMBOLIC[0] = True
    arr.NP_FUNCS["savetxt"] = files.np_savetxt
    arr.NP_FUNCS["loadtxt"] = files.np_loadtxt
    serial = files.SerialShim()
    shims = {
        "numpy": arr.NP,
        "math": MathShim(),
        "numba": NumbaShim(),
        "json": files.JsonShim(),
        "h5py": files.H5Shim(),  # not installed in the sandbox: stand-in in both modes
        "pandas": files.PandasShim(),
    }
    real_import = builtins.__import__

    def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            if name == "monty.serialization" and fromlist:
                return serial
            top = name.split(".")[0]
            if top in shims:
                m = shims[top]
                if fromlist:
                    for part in name.split(".")[1:]:
                        m = getattr(m, part)
                return m
        return real_import(name, globals, locals, fromlist, level)

    b["__import__"] = sx_import
    return b


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, name):
        from . import arr, core
        from .core import is_sym

        real = getattr(math, name)
        if not callable(real):
            return real

        def f(*a, **k):
            if len(a) == 1 and isinstance(a[0], arr.SymArray):
                a = (a[0].item(),)
            if any(is_sym(x) for x in a) or any(arr.has_sym(x) for x in a):
                x = a[0]
                if name == "exp":
                    return x.exp()
                if name == "expm1":
                    return x.exp() - 1.0
                if name == "log" and len(a) == 1:
                    if bool(x <= 0):
                        raise ValueError("math domain error")
                    return x.log()
                if name == "sqrt":
                    if bool(x < 0):
                        raise ValueError("math domain error")
                    return x.sqrt()
                if name == "floor":
                    return core.floor_int(x)
                if name == "ceil":
                    return -core.floor_int(-x)
                if name == "trunc":
                    return core.trunc(x)
                if name == "fabs":
                    return abs(x)
                if name == "pow":
                    return x ** a[1]
                if name == "isfinite":
                    return True
                if name in ("isnan", "isinf"):
                    return False
                if name == "isclose":
                    y = a[1]
                    rt, at = k.get("rel_tol", 1e-9), k.get("abs_tol", 0.0)
                    d = abs(x - y)
                    m = arr.smax(abs(core.unnp(x)), abs(core.unnp(y)))
                    return d <= arr.smax(rt * m, at)
                if name == "copysign":
                    return core.ite(a[1] >= 0, abs(x), -abs(core.SymNum.of(x)))
                if name == "prod":
                    acc = 1
                    for v in x:
                        acc = acc * v
                    return acc
                if name == "fsum":
                    acc = 0.0
                    for v in x:
                        acc = acc + v
                    return acc
                if name == "hypot":
                    acc = 0.0
                    for v in a:
                        acc = acc + v * v
                    return acc.sqrt()
                if name == "dist":
                    acc = 0.0
                    for u, v in zip(*a):
                        acc = acc + (u - v) * (u - v)
                    return acc.sqrt()
                if name == "fmod":
                    q = core.trunc(x / a[1])
                    return x - a[1] * q
                raise core.Unsupported(f"math.{name}")
            return real(*a, **k)

        f.__name__ = name
        return f


class NumbaShim(types.ModuleType):
    """njit = identity; typed.List = list (the jitted source itself is executed)."""

    def __init__(self):
        super().__init__("numba")
        ty = types.ModuleType("numba.typed")

        class List(list):
            @classmethod
            def empty_list(cls, *a, **k):
                return cls()

        class Dict(dict):
            @classmethod
            def empty(cls, *a, **k):
                return cls()

        ty.List = List
        ty.Dict = Dict
        self.typed = ty

        def njit(*a, **k):
            if len(a) == 1 and callable(a[0]) and not k:
                return a[0]
            return lambda f: f

        self.njit = njit
        self.jit = njit
        self.vectorize = njit
        self.prange = range

    def __getattr__(self, name):
        import numba

        return getattr(numba, name)


# ------------------------------------------------------------ importer


class SxLoader(importlib.abc.Loader):
    def __init__(self, path, bdict):
        self.path = path
        self.bdict = bdict

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        LOADED_FILES[module.__name__] = self.path
        module.__file__ = self.path
        code = compile(src, self.path, "exec", dont_inherit=True)
        module.__dict__["__builtins__"] = self.bdict
        exec(code, module.__dict__)

    def get_source(self, name):
        with open(self.path, encoding="utf-8") as f:
            return f.read()


class SxFinder(importlib.abc.MetaPathFinder):
    def __init__(self):
        self.bdict = None

    def find_spec(self, fullname, path, target=None):
        if fullname != "kmcpy" and not fullname.startswith("kmcpy."):
            return None
        if self.bdict is None:
            self.bdict = _make_builtins()
        rel = fullname.split(".")
        base = os.path.join(REPO, *rel)
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=SxLoader(init, self.bdict), submodule_search_locations=[base]
            )
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, base + ".py", loader=SxLoader(base + ".py", self.bdict)
            )
        return None


def install():
    sys.dont_write_bytecode = True
    os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
    if any(isinstance(f, SxFinder) for f in sys.meta_path):
        return
    for m in [m for m in sys.modules if m == "kmcpy" or m.startswith("kmcpy.")]:
        del sys.modules[m]
    sys.meta_path.insert(0, SxFinder())
    adapt_pymatgen()


def adapt_pymatgen():
    """Let compiled pymatgen routines take shim arrays holding plain numbers."""
    import functools

    import numpy as np
    from pymatgen.core import Lattice, Structure
    from pymatgen.core.structure import IStructure

    from . import arr, core

    def conv(x):
        if isinstance(x, arr.SymArray):
            if arr.has_sym(x):
                raise core.Unsupported("symbolic coordinates in pymatgen")
            return np.array(x.tolist(), dtype=float)
        if isinstance(x, (list, tuple)) and any(isinstance(v, arr.SymArray) for v in x):
            return type(x)(conv(v) for v in x)
        return x

    def limit(r):
        """A number no smaller than the symbolic radius."""
        eng = core.engine()
        for b in (2.0, 4.0, 6.0, 8.0, 12.0, 20.0):
            if eng.check(core.z3.Not((r <= b).e) if core.is_sym(r <= b) else core.z3.BoolVal(False)) == "unsat":
                return b
        raise core.Unsupported("unbounded symbolic radius")

    def wrap(cls, name):
        f = cls.__dict__.get(name)
        if f is None or getattr(f, "_sx", False):
            return

        @functools.wraps(f)
        def g(*a, **k):
            if name in ("get_sites_in_sphere", "get_neighbors") and (len(a) > 2 or "r" in k):
                r = core.unnp(a[2] if len(a) > 2 else k["r"])
                if core.is_sym(r):
                    # everything within a bound on the radius, then the symbolic comparison
                    b = limit(r)
                    a, k = (list(a), k) if len(a) > 2 else (list(a), {**k, "r": b})
                    if len(a) > 2:
                        a[2] = b
                    found = f(*[conv(x) for x in a], **{n: conv(x) for n, x in k.items()})
                    return [n for n in found if bool(float(n.nn_distance) <= r)]
            return f(*[conv(x) for x in a], **{n: conv(x) for n, x in k.items()})

        g._sx = True
        setattr(cls, name, g)

    for name in ("get_all_distances", "get_points_in_sphere", "get_distance_and_image", "get_fractional_coords"):
        wrap(Lattice, name)
    for name in ("get_sites_in_sphere", "get_neighbors", "make_supercell", "get_distance"):
        wrap(IStructure, name)
        wrap(Structure, name)
