"""DESIGN.md from meta/design_head.md, the properties, the checks' own descriptions, the claims, and seeded/*/meta.json"""
import sys, os, glob, importlib, json
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path[:0] = [here, os.path.join(root, 'analysis')]
from props import P
from claims import CHECKS, NA
from design_notes import COST, LIMITS
info = {}
for m in sorted(glob.glob(f'{root}/analysis/p_*.py')): info.update(importlib.import_module(os.path.basename(m)[:-3]).INFO)
cl = {c['property']: c for c in CHECKS}; out = [open(f'{here}/design_head.md').read()]
for p in P:
    i = p['id']
    if i not in cl: continue
    out.append(f"### {i} {p['title']}\n\n{' '.join(info[i].split())}\n\n* Technique: {cl[i]['technique']}.\n* Covers: {cl[i]['level_note']}.\n* Tests: {p['why_tests_cant']}\n" + (f"* Limits: {LIMITS[i]}\n" if i in LIMITS else '') + '\n')
rows = ['| change | property (and check that reports it) | what it breaks | needs |', '|---|---|---|---|']
for f in sorted(glob.glob(f'{root}/seeded/*/meta.json')):
    m = json.load(open(f)); rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
tail = open(f'{here}/design_tail.md').read().replace('@SEEDS@', '\n'.join(rows) + '\n\nAll of them are caught by the check of their property (`dev/seedcheck.sh`).')
open(f'{root}/DESIGN.md', 'w').write(''.join(out) + tail)
