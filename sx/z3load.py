"""Locate the z3 Python bindings (they live in the tooling venv) without
exposing anything else of that venv to the code under test."""
import importlib.util
import sys

_CANDIDATES = [
    "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/__init__.py",
]


def load():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    try:
        import z3  # type: ignore

        return z3
    except ImportError:
        pass
    for path in _CANDIDATES:
        try:
            spec = importlib.util.spec_from_file_location(
                "z3", path, submodule_search_locations=[path.rsplit("/", 1)[0]]
            )
            mod = importlib.util.module_from_spec(spec)
            sys.modules["z3"] = mod
            spec.loader.exec_module(mod)
            return mod
        except FileNotFoundError:
            sys.modules.pop("z3", None)
    raise ImportError("z3 bindings not found")


z3 = load()
