#!/usr/bin/env python3
"""Writes DESIGN.md. usage: design.py [analyser binary]"""
import json, os, re, subprocess, sys, glob
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(H)
sys.path.insert(0, H)
from props import PROPS, NA
KC = sys.argv[1] if len(sys.argv) > 1 else R + '/bin/kcheck'
ex = json.loads(subprocess.run([KC, '-explain'], capture_output=True, text=True).stdout)
seeds = {}
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    seeds[os.path.basename(os.path.dirname(f))] = json.load(open(f))
mut = {}
for f in glob.glob(R + '/selftest/mutants/*.txt'):
    for m in re.finditer(r'^### (\S+) (bad|ok) ', open(f).read(), re.M):
        for p in m.group(1).split(','):
            mut.setdefault(p, {'bad': 0, 'ok': 0})[m.group(2)] += 1
matrix = {}
mf = R + '/selftest/seed-matrix.txt'
if os.path.exists(mf):
    for l in open(mf):
        a = l.split()
        if a: matrix[a[0]] = a[1:]
cost = {}
for f in glob.glob(R + '/selftest/cost.txt'):
    for l in open(f):
        a = l.split(); cost[a[0]] = a[1:]
def props():
    o = []
    for p in PROPS:
        e = ex[p['id']]
        o.append('### %s  %s\n' % (p['id'], p['title']))
        o.append(p['statement'] + '\n')
        o.append('* **Decided by** (%s): %s' % (p['technique'], e['explain']))
        o.append('* **Oracle**: the rules above, stated over the source; no reference run. **Bounds**: none; %s.' % p['quantifier']['text'])
        o.append('* **Why tests cannot settle it**: ' + p['why_tests_cant'])
        if e['assume']: o.append('* **Assumes**: ' + '; '.join(e['assume']) + '.')
        o.append('* **Strength**: ' + p['note'])
        c = cost.get(p['id'])
        m = mut.get(p['id'], {'bad': 0, 'ok': 0})
        s = [i for i in seeds if seeds[i]['property'] == p['id']]
        o.append('* **Cost**: %s. **Self-test**: %d bad and %d ok changes; planted bugs: %s.\n' % (('%s s' % c[0] if c else 'seconds'), m['bad'], m['ok'], ', '.join(s) or 'none'))
    return '\n'.join(o)
def na():
    return '\n'.join('* **%s %s**: %s' % (p['id'], p['title'], p['reason']) for p in NA)
def fixes():
    o = []
    for l in open(R + '/known-findings.txt'):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
        if m: o.append('* %s (%s, `%s`)' % (m.group(3), m.group(1), m.group(2)))
    return '\n'.join(o)
def table():
    o = ['| planted bug | property | what it breaks | needs | reported by |', '|---|---|---|---|---|']
    for i, s in seeds.items():
        o.append('| %s | %s | %s | %s | %s |' % (i, s['property'], s['what_it_breaks'].replace('|', '/'), s['needs'].replace('|', '/'), ', '.join(matrix.get(i, [s['property']]))))
    return '\n'.join(o)
t = open(H + '/DESIGN.head.md').read()
for k, f in (('FIXES', fixes), ('NA', na), ('PROPS', props), ('SEEDS', table)):
    t = re.sub(r'(?m)^%s$' % k, lambda _: f(), t)
open(R + '/DESIGN.md', 'w').write(t)
