#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the modules (ORACLE, BOUNDS, ASSUMPTIONS), design_notes.py, the fixes and the planted bugs."""
import ast, json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from fixes import FIXES
from design_notes import WHY, FALSE_ALARMS
from techniques import WHAT
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]


def const(src, name):
    m = re.search(r'^%s = ' % name, src, re.M)
    tail = src[m.end():]
    end = 0
    lines = tail.split('\n')
    for n in range(1, len(lines)):
        try:
            return ast.literal_eval('\n'.join(lines[:n]).strip())
        except SyntaxError:
            pass


try:
    caught = json.load(open(os.path.join(here, 'caught.json')))
except IOError:
    caught = {}
out = [open(os.path.join(here, 'design_head.md'), encoding='utf-8').read().rstrip(), '', '## The properties, one by one', '']
for p in props:
    i = p['id']
    src = open(os.path.join(root, 'mc', 'jy', i.lower() + '.py'), encoding='utf-8').read()
    b = const(src, 'BOUNDS')
    out += ['### %s: %s' % (i, p['title']), '',
            p['statement'], '',
            '* **Enumerated:** %s. %s' % (WHAT[i][0], WHAT[i][1]),
            '* **Oracle:** %s' % const(src, 'ORACLE'),
            '* **Bounds, quick:** %s.' % b['quick'],
            '* **Bounds, thorough:** %s.' % b['thorough'],
            '* **Assumptions:** %s.' % '; '.join(const(src, 'ASSUMPTIONS')),
            '* **Beyond the tests because:** %s' % p['why_tests_cant']]
    if WHY.get(i):
        out.append('* **Note:** ' + WHY[i])
    out.append('')
out += ['## Genuine defects found and repaired', '',
        'Each is a "fix:" commit in /repo, listed in KNOWN_FINDINGS.txt; the check of the property fails again when the commit is reverted.', '']
out += ['* %s (%s): %s' % (s, ', '.join(ps.split()), w) for s, ps, w in FIXES]
out += ['', 'No defect that the checks report is left unrepaired, so KNOWN_FINDINGS.txt has no `KNOWN:` line.', '',
        '## False alarms corrected', '', 'What a check reported, and the check (or the statement) was wrong:', '']
out += ['* ' + l for l in FALSE_ALARMS]
out += ['', '## Planted bugs', '',
        'Kept in seeded/. Each is run with the quick check of its property; "first missed" ones led to the strengthening named.', '',
        '| bug | property | needs | breaks | quick check |', '|---|---|---|---|---|']
d = os.path.join(root, 'seeded')
for s in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, s, 'meta.json')))
    out.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['needs'], m['what_it_breaks'], caught.get(s, 'not run')))
open(os.path.join(root, 'DESIGN.md'), 'w', encoding='utf-8').write('\n'.join(out) + '\n')
