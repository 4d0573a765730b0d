#!/usr/bin/env python3
"""DESIGN.md from tools/design.in.md, properties.jsonl, checks.py, known_findings.txt, seeded/*/meta.json and tools/seed_results.json."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
cost = json.load(open(V + '/tools/cost.json')) if os.path.exists(V + '/tools/cost.json') else {}
out = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']; c = CHECKS.get(i)
    out.append(f"### {i} {p['title']}\n")
    out.append(p['statement'] + '\n')
    if not c:
        continue
    out.append(f"* Technique: {c['technique']}.")
    out.append(f"* Enumerated: {c['rule']}.")
    out.append(f"* Oracle and bounds: {c['note']}")
    if i in cost:
        out.append(f"* Cost (quick): {cost[i]}.")
    out.append(f"* Why tests cannot settle it: {p['why_tests_cant']}")
    out.append(f"* Source: `mc/{c['src'][0]}`; anchored in " + ', '.join(f"`{f}`" for f in p['anchors']['files']) + '\n')
fixes = []
for l in open(V + '/known_findings.txt'):
    if l.startswith('fixed:'):
        w = l.split(None, 3)
        fixes.append(f"* {w[1].split('=')[1]} `{w[2]}` {w[3].strip()}")
res = json.load(open(V + '/tools/seed_results.json')) if os.path.exists(V + '/tools/seed_results.json') else {}
seeds = ["| seed | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    j = json.load(open(m)); n = os.path.basename(os.path.dirname(m))
    seeds.append(f"| {n} | {j['property']} | {j['what_it_breaks']} | {j['needs']} | {res.get(n, j['property'])} |")
t = open(V + '/tools/design.in.md').read()
t = t.replace('@@PROPS@@', '\n'.join(out)).replace('@@FIXES@@', '\n'.join(fixes) + '\n').replace('@@SEEDS@@', '\n'.join(seeds))
open(V + '/DESIGN.md', 'w').write(t)
