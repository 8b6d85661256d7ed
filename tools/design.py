"""Rewrite the generated parts of DESIGN.md (harness tables, seeded changes) from the harnesses and seeded/*/meta.json."""
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def bounds():
    from sx import load

    load.plain_import_setup()
    from sx import runner

    titles = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(os.path.join(HERE, "properties.jsonl"))}
    man = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}
    out = []
    for p in sorted(man):
        out.append(f"\n### {p} {titles[p]}\n")
        for h in runner.load_props(p):
            out.append(f"- `{h.name}` ({len(h.configs)} configuration{'s' if len(h.configs) != 1 else ''}): {h.bounds}.")
        out.append(f"- Limits: {man[p]['level_note']}")
    return "\n".join(out) + "\n"


def seeds():
    rows = ["| change | property | what it breaks | needs |", "|---|---|---|---|"]
    for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        m = json.load(open(f))
        rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
    return "\n".join(rows) + "\n"


p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
for name, fn in (("bounds", bounds), ("seeds", seeds)):
    t = fn()
    s = re.sub(rf"(<!-- {name} -->\n).*?(<!-- /{name} -->)", lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(p, "w").write(s)
