#!/opt/venv/bin/python
"""Writes the generated parts of DESIGN.md (between <!-- NAME --> markers): contracts per property, planted changes."""
import glob
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [ROOT, HERE]
from pvc import env  # noqa: E402

sys.path += [env.VT]
from props import PROPS  # noqa: E402
from pvc import ctx  # noqa: E402

for f in sorted(glob.glob(ROOT + "/contracts/c[0-9]*.py")):
    importlib.import_module("contracts." + os.path.basename(f)[:-3])


def contracts():
    out = []
    for p in PROPS:
        hs = [h for h in ctx.HARNESSES if h.prop == p["id"]]
        fns = sorted({f for h in hs for f in h.functions})
        out.append(f"### {p['id']} {p['title']}\n")
        out.append(f"*For* {p['for_all']}. *Tests:* {p['why']}. *Limits:* {p['note'].replace('Reals for floats; library calls by the assumed contracts listed in the evidence. ', '')}\n")
        out.append(f"Functions under contract ({len(fns)}): " + ", ".join("`" + f.split(".", 1)[1] + "`" for f in fns) + ".\n")
        for h in hs:
            kind = "concrete runs only (bounded)" if not h.sym else ("bounded: " + h.bounded if h.bounded else "proved")
            doc = re.sub(r"\s+", " ", (h.f.__doc__ or "").strip())
            out.append(f"* `{h.name}` — {doc or ', '.join(f.split('.')[-1] for f in h.functions)} [{kind}]")
        out.append("")
    return "\n".join(out)


def seeds():
    out = ["| change | property | needs | breaks |", "|---|---|---|---|"]
    for f in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
        m = json.load(open(f))
        out.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
    return "\n".join(out)


def fixes():
    out = []
    k = json.load(open(ROOT + "/known_findings.json"))
    for e in k:
        out.append(f"* {e['kind']}: {e['property']} {e.get('commit', '')} {e['what']}")
    return "\n".join(out)


p = ROOT + "/DESIGN.md"
s = open(p).read()
for name, fn in (("contracts", contracts), ("seeds", seeds), ("fixes", fixes)):
    a, b = f"<!-- {name} -->", f"<!-- /{name} -->"
    if a in s:
        s = s.split(a)[0] + a + "\n" + fn() + "\n" + b + s.split(b)[1]
open(p, "w").write(s)
