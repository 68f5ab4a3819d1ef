"""assemble /verif/DESIGN.md: hand-written text + facts from the modules"""
import importlib
import json
import os
import sys
from glob import glob

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path[:0] = [V, "/repo"]


def rd(n):
    return open(os.path.join(HERE, n)).read()


props = [json.loads(ln) for ln in open(V + "/properties.jsonl")]
per = json.loads(rd("per_property.json"))
costs = json.loads(rd("costs.json")) if os.path.exists(HERE + "/costs.json") else {}
out = [rd("head.md"), "## 3. Property by property\n"]
for p in props:
    i = p["id"]
    m = importlib.import_module("mv.props." + i.lower())
    out.append(f"### {i} — {p['title']}\n")
    out.append(f"*Deciding method:* {m.TECHNIQUE}.\n")
    out.append(per[i].strip() + "\n")
    out.append(f"*Strength and bounds:* {m.LEVEL_NOTE}\n")
    a = getattr(m, "ASSUMPTIONS", [])
    if a:
        out.append("*Assumptions:* " + "; ".join(a) + ".\n")
    c = costs.get(i)
    out.append(f"*Workloads:* {', '.join('`' + g + '`' for g in m.GROUPS)} in "
               f"`mv/props/{i.lower()}.py`"
               + (f"; cost on 8 cores: quick about {c['quick']} s, "
                  f"thorough about {c['thorough']} s" if c else "") + ".\n")
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.loads(rd("caught.json")) if os.path.exists(HERE + "/caught.json") else {}
for d in sorted(glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    b = d.split("/")[-2]
    rows.append(f"| {b} | {m['property']} | {m['needs'].replace('|', '/')} | "
                f"{caught.get(b, m['property'])} |")
tail = rd("tail.md").replace("@@SEEDED@@", "\n".join(rows))
mut = rd("mutation.md") if os.path.exists(HERE + "/mutation.md") else ""
out.append(tail.replace("@@MUTATION@@", mut))
open(V + "/DESIGN.md", "w").write("\n".join(out))
