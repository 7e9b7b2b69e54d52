#!/usr/bin/env python3
"""Write DESIGN.md: head + the properties (from props.py and the checks) + tail + seeded bugs."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import meta  # noqa: E402


def text(name):
    with open(os.path.join(ROOT, 'tools', name), encoding='utf-8') as f:
        return f.read()


cost = json.loads(text('cost.json'))
out = [text('design_head.md')]
for i in sorted(meta.PROPS):
    p = meta.PROPS[i]
    m = importlib.import_module(f'mc.checks.{i.lower()}')
    c = cost.get(i, {})
    out.append(f'### {i}: {m.TITLE}\n\n'
               f'- **Quantifier:** {p["text"]}.\n- **Method** (`{m.LEVEL}`): {p["technique"]}.\n- **Enumeration and oracle:** {m.RULE}\n'
               f'- **Bounds:** quick: {m.BOUNDS["quick"]}; thorough: {m.BOUNDS["thorough"]}. {p["note"]}\n'
               f'- **Assumptions:** {" ".join(m.ASSUMPTIONS)}\n'
               f'- **Cost:** quick {c.get("quick", "?")} s, thorough {c.get("thorough", "?")} s.\n'
               f'- **Why beyond the tests:** {p["why"]}\n\n')
out.append(text('design_tail.md'))
out.append('## 5. Planted bugs\n\nAll are in `seeded/`; each was confirmed to pass the existing tests, to fail its own demonstration, and to be '
           'reported by the check of its property.\n\n| bug | caught by | needs | breaks |\n|---|---|---|---|\n')
for s in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    with open(os.path.join(ROOT, 'seeded', s, 'meta.json'), encoding='utf-8') as f:
        d = json.load(f)
    out.append(f'| {s} | {d.get("caught", d["property"])} | {d["needs"]} | {d["what_it_breaks"]} |\n'.replace('\n|', '|'))
out.append('\n' + text('design_missed.md'))
with open(os.path.join(ROOT, 'DESIGN.md'), 'w', encoding='utf-8') as f:
    f.write(''.join(out))
