#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from sa/catalog.py."""
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import catalog as C

F = ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
  for p in sorted(C.P + C.NA, key=lambda p: p['id']):
    assert len(p['title']) <= 80, p['title']
    f.write(json.dumps({k: p[k] for k in F}) + '\n')
man = dict(
    version=1, setup_cmd='python3 tools/selfcheck.py',
    checks=[dict(property=p['id'], quick_cmd=f'python3 check.py {p["id"]}',
                 thorough_cmd=f'VERIF_TIER=thorough python3 check.py {p["id"]}',
                 technique=p['technique'], level='other',
                 level_note=p['note'] or p['title'])
            for p in C.P],
    not_applicable=[dict(property=p['id'], reason=p['reason']) for p in C.NA])
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
  json.dump(man, f, indent=1)
  f.write('\n')
print(len(C.P), 'claimed', len(C.NA), 'not applicable')

# the generated parts of DESIGN.md
import glob
import re
d = os.path.join(HERE, 'DESIGN.md')
text = open(d).read()


def section(tag, body):
  global text
  text = re.sub(f'<!--{tag}-->.*?<!--/{tag}-->',
                lambda m: f'<!--{tag}-->\n{body}\n<!--/{tag}-->', text, flags=re.S)


rows = []
for p in sorted(C.P, key=lambda p: p['id']):
  rows.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n"
              f"*Quantifies over*: {p['quantifier']['text']}.\n\n"
              f"*Decided by* `{'`, `'.join(p['rules'])}`: {p['note']}.\n\n"
              f"*Why tests cannot settle it*: {p['why_tests_cant']}.\n")
if C.NA:
  rows.append('### Not applicable\n')
  for p in sorted(C.NA, key=lambda p: p['id']):
    rows.append(f"* {p['id']} {p['title']}: {p['reason']}")
section('PROPS', '\n'.join(rows))
log = os.path.join(HERE, 'tools', 'catches.json')
catches = json.load(open(log)) if os.path.exists(log) else {}
rows = ['| bug | property | what it breaks | needs | caught by |', '|-|-|-|-|-|']
for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
  b = os.path.basename(os.path.dirname(m))
  j = json.load(open(m))
  rows.append(f"| {b} | {j['property']} | {j['what_it_breaks']} | {j['needs']} | "
              f"{', '.join(catches.get(b, [])) or 'not caught'} |")
section('SEEDED', '\n'.join(rows))
open(d, 'w').write(text)
