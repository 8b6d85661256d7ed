"""mkseed.py: write seeded/<id>/ from a spec file (python dict: id, property, edits=[(file, old, new)], needs, breaks, demo)."""
import json
import os
import subprocess
import sys

S = "/verif/seeded"


def make(id, property, edits, needs, breaks, demo):
    d = os.path.join(S, id)
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(["git", "-C", "/repo", "diff", "--quiet"]).returncode == 0, "repo dirty"
    try:
        for f, old, new in edits:
            p = os.path.join("/repo", f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\nHERE=$(cd "$(dirname "$0")" && pwd)\ncd /repo\nexport PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 NUMBA_CACHE_DIR=/tmp\n'
        'exec /opt/venv/bin/python "$HERE/demo.py"\n'
    )


if __name__ == "__main__":
    for path in sys.argv[1:]:
        g = {}
        exec(open(path).read(), g)
        for spec in g["SEEDS"]:
            make(**spec)
            print("wrote", spec["id"])
