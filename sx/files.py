"""Files with symbolic contents.

Files are really written and read (in a scratch directory): every symbolic leaf
is stored as a token string naming its expression, everything else through the
real json / yaml / h5py / pandas / numpy writers.  Reading decodes the tokens.
"""
from __future__ import annotations

import os
import re
import types

TOK = re.compile(r"@@sx:(\d+)@@")
_REG: list = []  # (expr ast id, value)
_IDX: dict = {}
_H5: dict = {}
SYMBOLIC = [False]  # set by the instrumenting loader


def reset():
    _REG.clear()
    _IDX.clear()
    _H5.clear()


def token(x):
    """Token of a symbolic value (same expression, same token)."""
    from .core import SymBool, SymNum

    key = (x.e.get_id(), isinstance(x, SymNum) and x.isint, isinstance(x, SymBool))
    if key not in _IDX:
        _IDX[key] = len(_REG)
        _REG.append(SymNum(x.e, x.isint) if isinstance(x, SymNum) else x)
    return f"@@sx:{_IDX[key]}@@"


def value(k):
    from .core import SymNum

    v = _REG[k]
    return SymNum(v.e, v.isint) if isinstance(v, SymNum) else v


def encode(o, np_ok=True, conc_int=False):
    """Replace symbolic leaves by tokens.  np_ok: numpy values are understood by the writer."""
    from . import arr
    from .core import SymBool, SymNum

    if isinstance(o, SymNum):
        if o.npf and o.isint and not np_ok:
            raise TypeError("Object of type int64 is not JSON serializable")
        if conc_int and o.isint:
            return o.__index__()
        return token(o)
    if isinstance(o, SymBool):
        return bool(o) if conc_int else token(o)
    if isinstance(o, arr.SymArray):
        if not np_ok:
            raise TypeError("Object of type ndarray is not JSON serializable")
        dt = {"i": "int64", "f": "float64", "b": "bool"}.get(arr.arr_kind(o), "float64")
        return {"@module": "numpy", "@class": "array", "dtype": dt, "data": encode(o.tolist(), np_ok, conc_int)}
    if isinstance(o, dict):
        return {_key(k): encode(v, np_ok, conc_int) for k, v in o.items()}
    if type(o) in (list, tuple):
        return type(o)(encode(v, np_ok, conc_int) for v in o)
    if isinstance(o, list):  # numba typed lists
        return [encode(v, np_ok, conc_int) for v in o]
    if np_ok and hasattr(o, "as_dict") and not isinstance(o, type) and type(o).__module__.startswith("kmcpy"):
        d = dict(o.as_dict())
        d.setdefault("@module", type(o).__module__)
        d.setdefault("@class", type(o).__name__)
        return encode(d, np_ok, conc_int)
    return o


def _key(k):
    from .core import is_sym

    return k.__index__() if is_sym(k) else k


def decode(o):
    if isinstance(o, str):
        m = TOK.fullmatch(o)
        return value(int(m.group(1))) if m else o
    if isinstance(o, dict):
        return type(o)((k, decode(v)) for k, v in o.items()) if type(o) is dict else {k: decode(v) for k, v in o.items()}
    if isinstance(o, list):
        return [decode(v) for v in o]
    if isinstance(o, tuple):
        return tuple(decode(v) for v in o)
    return o


def has_tok(o):
    if isinstance(o, str):
        return "@@sx:" in o
    if isinstance(o, dict):
        return any(has_tok(v) for v in o.values())
    if isinstance(o, (list, tuple)):
        return any(has_tok(v) for v in o)
    return False


def monty_decode(o):
    """Like MontyDecoder.process_decoded on data that may hold tokens."""
    if not has_tok(o):
        from monty.json import MontyDecoder

        return MontyDecoder().process_decoded(o)
    if isinstance(o, dict):
        mod, cls = o.get("@module"), o.get("@class")
        if mod == "numpy":
            from . import arr

            return arr.np_array(decode(o["data"]), dtype=o.get("dtype"))
        if mod and cls and str(mod).startswith("kmcpy"):
            import importlib

            c = getattr(importlib.import_module(mod), cls, None)
            if c is not None:
                d = {k: v for k, v in o.items() if not str(k).startswith("@")}
                return c.from_dict(decode(d))
        return {k: monty_decode(v) for k, v in o.items()}
    if isinstance(o, list):
        return [monty_decode(v) for v in o]
    return decode(o)


def dumpfn(obj, fn, *a, **k):
    from monty.serialization import dumpfn as real

    return real(encode(obj), fn, *a, **k)


_SENT = object()


def loadfn(fn, *a, cls=_SENT, **k):
    from monty.serialization import loadfn as real

    if cls is None:
        return decode(real(fn, *a, cls=None, **k))
    if cls is not _SENT:
        return decode(real(fn, *a, cls=cls, **k))
    name = os.path.basename(str(fn)).lower()
    if any(e in name for e in (".yaml", ".yml", ".mpk")):
        return decode(real(fn, *a, **k))
    return monty_decode(real(fn, *a, cls=None, **k))


class JsonShim(types.ModuleType):
    def __init__(self):
        super().__init__("json")

    def dump(self, obj, fp, **k):
        import json

        return json.dump(encode(obj, np_ok=bool(k.get("cls"))), fp, **k)

    def dumps(self, obj, **k):
        import json

        return json.dumps(encode(obj, np_ok=bool(k.get("cls")), conc_int=True), **k)

    def load(self, fp, **k):
        import json

        return decode(json.load(fp, **k))

    def loads(self, s, **k):
        import json

        return decode(json.loads(s, **k))

    def __getattr__(self, name):
        import json

        return getattr(json, name)


class SerialShim(types.ModuleType):
    dumpfn = staticmethod(dumpfn)
    loadfn = staticmethod(loadfn)

    def __init__(self):
        super().__init__("monty.serialization")

    def __getattr__(self, name):
        import monty.serialization as m

        return getattr(m, name)


# ------------------------------------------------------------ hdf5


def _store(data):
    """What h5py would give back for [()] of a dataset holding data."""
    if data is None:
        raise TypeError("One of data, shape or dtype must be specified")
    if isinstance(data, dict):
        raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
    if not SYMBOLIC[0]:
        return _plain_store(data)
    from . import arr
    from .core import SymNum, is_sym, mknum

    if is_sym(data):
        return mknum(data.e, data.isint, True) if isinstance(data, SymNum) else data
    if arr.has_sym(data) or isinstance(data, arr.SymArray):
        try:
            return arr.np_array(data)
        except ValueError as e:
            raise TypeError(str(e))
    return _plain_store(data)


def _plain_store(data):
    import numpy as np

    if isinstance(data, str):
        return data.encode()
    if isinstance(data, bytes):
        return data
    if isinstance(data, (list, tuple)) and data and all(isinstance(x, str) for x in data):
        return np.array([x.encode() for x in data], dtype=object)
    if isinstance(data, (list, tuple)) and data and all(isinstance(x, bytes) for x in data):
        return np.array(data, dtype=object)
    try:
        a = np.asarray(data)
    except ValueError as e:
        raise TypeError(str(e))
    if a.dtype.kind not in "biuf":
        raise TypeError(f"No conversion path for dtype {a.dtype}")
    return a[()]


class H5Dataset:
    def __init__(self, v):
        self._v = v

    def __getitem__(self, key):
        v = self._v
        if isinstance(key, tuple) and not key or key is Ellipsis:
            return v.copy() if hasattr(v, "copy") and hasattr(v, "shape") and v.shape else v
        return v[key]

    def __array__(self, *a, **k):
        return self._v

    def asstr(self, *a, **k):
        v = self._v

        class S:
            def __getitem__(s, key):
                if isinstance(v, bytes):
                    return v.decode()
                import numpy as np

                return np.array([x.decode() for x in v], dtype=object)[key if key != () else ...]

        return S()

    @property
    def shape(self):
        return getattr(self._v, "shape", ())

    @property
    def dtype(self):
        return getattr(self._v, "dtype", None)

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self._v)


class H5Group:
    def __init__(self):
        self._d = {}
        self.attrs = {}

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        if name in self._d:
            raise ValueError("Unable to create dataset (name already exists)")
        if data is None:
            from .core import Unsupported

            raise Unsupported("h5py dataset without data")
        v = _store(data)
        if dtype is not None and not SYMBOLIC[0]:
            import numpy as np

            v = np.asarray(v).astype(dtype)[()]
        d = self._d[name] = H5Dataset(v)
        return d

    def create_group(self, name):
        if name in self._d:
            raise ValueError("Unable to create group (name already exists)")
        g = self._d[name] = H5Group()
        return g

    require_group = lambda self, name: self._d[name] if name in self._d else self.create_group(name)

    def __setitem__(self, name, v):
        self.create_dataset(name, data=v)

    def __getitem__(self, name):
        if name not in self._d:
            raise KeyError(f"Unable to open object (object '{name}' doesn't exist)")
        return self._d[name]

    def __delitem__(self, name):
        del self._d[name]

    def __contains__(self, name):
        return name in self._d

    def get(self, name, default=None):
        return self._d.get(name, default)

    def keys(self):
        return sorted(self._d)

    def values(self):
        return [self._d[k] for k in self.keys()]

    def items(self):
        return [(k, self._d[k]) for k in self.keys()]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self._d)


class H5File(H5Group):
    def __init__(self, name, mode="r", **k):
        path = os.path.abspath(os.fspath(name))
        if mode in ("r", "r+"):
            if path not in _H5:
                raise FileNotFoundError(path)
            src = _H5[path]
        elif mode == "a" and path in _H5:
            src = _H5[path]
        else:
            if mode in ("x", "w-") and path in _H5:
                raise FileExistsError(path)
            src = _H5[path] = H5Group()
            open(path, "wb").close()
        self._d, self.attrs = src._d, src.attrs
        self.filename, self.mode = path, mode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def flush(self):
        pass


class H5Shim(types.ModuleType):
    def __init__(self):
        super().__init__("h5py")
        self.File, self.Group, self.Dataset = H5File, H5Group, H5Dataset



# ------------------------------------------------------------ text tables


def fmt_value(x, fmt):
    """Value kept when x is written with a printf format."""
    from .core import SymNum, Unsupported, floor_int, trunc

    m = re.fullmatch(r"%[-+ 0#]*\d*(?:\.(\d+))?([a-zA-Z])", fmt or "%.18e")
    if not m or not isinstance(x, SymNum):
        return x
    p, c = m.group(1), m.group(2)
    if c in "di":
        return trunc(x)
    if x.isint and c in "eg" and (p is None or int(p) >= 4):
        return x
    p = 6 if p is None else int(p)
    if c in "eEgG":
        if p >= 9:
            return x
        raise Unsupported(f"format {fmt}")
    if c in "fF":
        return floor_int(x * 10**p + 0.5) / (10**p)
    if c in "sr":
        return x
    raise Unsupported(f"format {fmt}")


def np_savetxt(fname, X, fmt="%.18e", delimiter=" ", newline="\n", header="", footer="", comments="# ", encoding=None):
    import numpy as np

    from . import arr

    if not arr.has_sym(X) and not (isinstance(X, arr.SymArray) or any(isinstance(r, arr.SymArray) for r in X)):
        return np.savetxt(fname, X, fmt, delimiter, newline, header, footer, comments, encoding)
    a = arr.np_asarray(X)
    rows = a.tolist()
    if a.ndim == 1:
        rows = [[v] for v in rows]
    txt = []
    for r in rows:
        cells = []
        for v in r:
            w = fmt_value(v, fmt if isinstance(fmt, str) else fmt[0])
            from .core import is_sym

            cells.append(token(w) if is_sym(w) else (fmt if isinstance(fmt, str) else fmt[0]) % w)
        txt.append(delimiter.join(cells))
    body = "".join(t + newline for t in txt)
    if header:
        body = comments + header + newline + body
    if str(fname).endswith(".gz"):
        import gzip

        with gzip.open(fname, "wt") as f:
            f.write(body)
    elif hasattr(fname, "write"):
        fname.write(body)
    else:
        with open(fname, "w") as f:
            f.write(body)


class PandasShim(types.ModuleType):
    def __init__(self):
        super().__init__("pandas")

    def DataFrame(self, data=None, *a, **k):
        import pandas as pd

        from . import arr
        from .core import is_sym

        def cell(v):
            v2 = encode(v) if is_sym(v) else v
            return v2

        def conv(d):
            if isinstance(d, dict):
                return {x: [cell(v) for v in y] if isinstance(y, (list, tuple, arr.SymArray)) else cell(y) for x, y in d.items()}
            if isinstance(d, (list, tuple)):
                return [conv(r) if isinstance(r, (dict, list, tuple)) else cell(r) for r in d]
            if isinstance(d, arr.SymArray):
                return conv(d.tolist())
            return d

        df = pd.DataFrame(conv(data), *a, **k)
        return FrameShim(df)

    def __getattr__(self, name):
        import pandas as pd

        return getattr(pd, name)


class FrameShim:
    def __init__(self, df):
        self._df = df

    def to_csv(self, path=None, *a, **k):
        ff = k.get("float_format")
        df = self._df
        if ff:
            df = df.map(lambda v: _tokfmt(v, ff))
        return df.to_csv(path, *a, **k)

    def __getattr__(self, name):
        return getattr(self._df, name)


def _tokfmt(v, ff):
    if isinstance(v, str) and TOK.fullmatch(v):
        w = fmt_value(value(int(TOK.fullmatch(v).group(1))), ff)
        return token(w)
    return v


def np_loadtxt(fname, dtype=float, comments="#", delimiter=None, converters=None, skiprows=0, usecols=None, unpack=False, ndmin=0, **kw):
    import numpy as np

    from . import arr

    if hasattr(fname, "read") or converters or usecols is not None or unpack:
        return np.loadtxt(fname, dtype=dtype, comments=comments, delimiter=delimiter, converters=converters, skiprows=skiprows, usecols=usecols, unpack=unpack, ndmin=ndmin, **kw)
    rows = [r for r in read_table(fname, delimiter) if r][skiprows:]
    if ndmin < 2 and all(len(r) == 1 for r in rows):
        rows = [r[0] for r in rows]
        if len(rows) == 1 and ndmin == 0:
            rows = rows[0]
    elif ndmin < 2 and len(rows) == 1:
        rows = rows[0]
    return arr.np_array(rows, dtype=dtype)


def write_table(path, rows, delimiter=" "):
    """Text table; symbolic values as tokens."""
    from .core import is_sym

    with open(path, "w") as f:
        for r in rows:
            f.write(delimiter.join(token(v) if is_sym(v) else repr(float(v)) for v in r) + "\n")


def read_table(path, delimiter=","):
    """Rows of a (gzipped) csv file, tokens decoded, numbers parsed."""
    import gzip

    op = gzip.open if str(path).endswith(".gz") else open
    with op(path, "rt") as f:
        rows = [ln.rstrip("\r\n").split(delimiter) for ln in f if ln.strip()]

    def cell(c):
        m = TOK.fullmatch(c)
        if m:
            return value(int(m.group(1)))
        if c == "":
            return float("nan")
        try:
            return float(c)
        except ValueError:
            return c

    return [[cell(c) for c in r] for r in rows]
