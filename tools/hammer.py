"""Developer aid (no check uses it): run every harness on the plain code with random inputs of its
declared domain, to find false alarms (float effects) before they are sampled by a replay.

usage: tools/hammer.py PROP [seconds per harness configuration] [seed]
"""
import os
import random
import sys
import time
import warnings
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
warnings.simplefilter("ignore")


def main(prop, secs, seed):
    import logging

    from sx import load

    load.plain_import_setup()
    from sx import runner

    runner.preload()
    logging.disable(logging.CRITICAL)
    from sx import ctx as C
    from sx import runner

    rnd = random.Random(seed)

    class Hammer(C.ConcreteCtx):
        def _get(self, name, default):
            return super()._get(name, default)

        def int(self, name, lo, hi):
            lo = -50 if lo is None else lo
            hi = lo + 100 if hi is None else hi
            self.values[self._peek(name)] = rnd.choice([lo, hi, rnd.randint(lo, hi)])
            return super().int(name, lo, hi)

        def bool(self, name):
            self.values[self._peek(name)] = rnd.random() < 0.5
            return super().bool(name)

        def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
            a = -1e6 if lo is None else float(lo)
            b = max(a, 1.0) * 1e6 if hi is None else float(hi)
            v = rnd.choice([a, b, (a + b) / 2, rnd.uniform(a, b), rnd.uniform(a, b), a + (b - a) * rnd.random() ** 4, 0.0 if a <= 0 <= b else a, a + (b - a) * 10 ** -rnd.uniform(3, 9)])
            self.values[self._peek(name)] = str(Fraction(v))
            return super().real(name, lo, hi, lo_open, hi_open)

        def _peek(self, name):
            saved = dict(self._names) if hasattr(self, "_names") else None
            n = self._uniq(name)
            if saved is not None:
                self._names.clear()
                self._names.update(saved)
            return n

    runner_ctx = C.ConcreteCtx
    C.ConcreteCtx = Hammer
    for h in runner.load_props(prop):
        for cfg in h.configs:
            t0, n, ok, bad = time.time(), 0, 0, {}
            while time.time() - t0 < secs:
                vals = {}
                r = runner.concrete_run(h, cfg, vals)
                n += 1
                ok += not r["invalid"]
                if not r["invalid"] and (r["failures"] or r["exc"]):
                    bad.setdefault((tuple(r["failures"][:2]), (r["exc"] or "")[:80]), vals)
            print(prop, h.name, cfg, "runs", n, "valid", ok, "BAD" if bad else "")
            for k, v in bad.items():
                print("    ", k, v)
    C.ConcreteCtx = runner_ctx


if __name__ == "__main__":
    main(sys.argv[1], float(sys.argv[2]) if len(sys.argv) > 2 else 1.0, int(sys.argv[3]) if len(sys.argv) > 3 else 0)
