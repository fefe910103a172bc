"""Fills the table of seeded bugs (python3 tools/design.py): prints rows for DESIGN.md."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    print(f"| `{i}` | {m['property']} | {m['what_it_breaks']} |")
