"""setup: checks that the solver and the engine load offline."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sx.z3load import z3  # noqa: E402

s = z3.Solver()
x = z3.Int("x")
s.add(x > 2, x < 4)
assert s.check() == z3.sat and s.model()[x].as_long() == 3
print("solver ok", z3.get_version_string())
