"""Developer aid (no check uses it): try changes of kMCpy in scratch copies.

usage: tools/mutate.py SPEC.py [ID ...]
SPEC.py defines M = [(id, "C01[,C02..]", file, old, new) or (id, props, [(file, old, new), ...])].
For each change: the test suite runs in the copy (8 at a time), then the checks of the properties named.
Prints one line per change: tests ok/failed, and which checks reported a violation.
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get("MUTROOT", "/tmp/mut")
PY = "/opt/venv/bin/python"



def prepare(m):
    id, props = m[0], m[1]
    edits = [m[2:5]] if isinstance(m[2], str) else m[2]
    d = os.path.join(ROOT, id)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git"))
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit(f"{id}: {f}: {s.count(old)} matches of {old!r}")
        open(p, "w").write(s.replace(old, new))
    return id, props, d


def tests(d):
    env = dict(os.environ, PYTHONPATH=d, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
    r = subprocess.run(
        [PY, "-m", "pytest", "-q", "--color=no", "-p", "no:cacheprovider", "--timeout=300", "--basetemp=" + d + "_tmp", "--continue-on-collection-errors", "tests"],
        cwd=d, env=env, capture_output=True, text=True,
    )
    shutil.rmtree(d + "_tmp", ignore_errors=True)
    bad = [l for l in r.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))]
    return bad


def check(prop, d):
    w = os.path.join(ROOT, "verif")
    r = subprocess.run([PY, os.path.join(w, "check.py"), prop], env=dict(os.environ, SX_REPO=d), capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
    return r.returncode, v, r.stdout[-1500:] + r.stderr[-1500:]


def main(argv):
    g = {}
    exec(open(argv[0]).read(), g)
    ms = [m for m in g["M"] if len(argv) == 1 or m[0] in argv[1:]]
    os.makedirs(ROOT, exist_ok=True)
    w = os.path.join(ROOT, "verif")
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(VERIF, w, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
    os.makedirs(os.path.join(w, "evidence"))
    with ThreadPoolExecutor(8) as ex:
        prepared = [prepare(m) for m in ms]
        bads = list(ex.map(lambda p: tests(p[2]), prepared)) if not os.environ.get("NOTEST") else [[]] * len(prepared)
    for (id, props, d), bad in zip(prepared, bads):
        bad = [b for b in bad if b not in g.get("KNOWN", [])]
        if bad:
            print(f"{id}: TESTS FAIL {len(bad)} {bad[0][:110]}", flush=True)
        else:
            out = []
            for p in props.split(","):
                rc, v, txt = check(p, d)
                out.append(f"{p}={'caught' if rc == 1 and v else 'MISSED' if rc == 0 else 'rc%d' % rc}")
                if rc not in (0, 1):
                    print(txt)
            print(f"{id}: tests ok  {' '.join(out)}", flush=True)
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main(sys.argv[1:])
