#!/opt/venv/bin/python
"""check.py <PROPERTY> [--tier quick|thorough] [--only HARNESS] [-v]
check.py --replay FILE      re-run one counterexample on the untouched code
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"


def main(argv):
    from sx import runner

    if argv[0] == "--server":
        runner.server_main(argv[1], argv[2])
        return 0
    if argv[0] == "--replay":
        import json

        from sx import load

        load.plain_import_setup()
        d = json.load(open(argv[1]))
        hs = {h.name: h for h in runner.load_props(d["property"])}
        r = runner.concrete_run(hs[d["harness"]], d["config"], d["values"])
        print(json.dumps({k: r[k] for k in ("failures", "exc", "invalid")}, indent=1))
        if r.get("tb"):
            print(r["tb"])
        bad = bool(r["failures"] or r["exc"]) and not r["invalid"]
        print("REPRODUCED" if bad else "not reproduced")
        return 1 if bad else 0
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only, verbose = None, False
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
            i += 1
        elif argv[i] == "--only":
            only = argv[i + 1]
            i += 1
        elif argv[i] == "-v":
            verbose = True
        i += 1
    return runner.main(prop, tier, only, verbose)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
