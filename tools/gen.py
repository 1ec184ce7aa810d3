#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the catalogue nsa/specs.py"""
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from nsa.specs import SPECS  # noqa

props, checks, na = [], [], []
for pid, s in SPECS.items():
    assert re.match(r'^[A-Z][0-9]{2,3}$', pid)
    assert len(s['title']) <= 80, (pid, len(s['title']))
    assert len(re.findall(r'[.!?](?:\s|$)', s['statement'])) <= 3, (pid, s['statement'])
    props.append({
        'id': pid, 'title': s['title'], 'statement': s['statement'],
        'quantifier': {'over': s['over'], 'text': s['text']},
        'why_tests_cant': s['why'],
        'anchors': {
            'files': s['files'],
            'mechanism': [{'name': n, 'where': w} for n, w in s['mechanism']],
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in s['state']],
            'observe_at': list(s['observe']), 'hook_needed': None}})
    if s['na']:
        na.append({'property': pid, 'reason': s['na']})
    else:
        note = s['note'] + ' ' if s['note'] else ''
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 check.py %s' % pid,
            'thorough_cmd': 'python3 check.py %s --thorough' % pid,
            'technique': s['technique'],
            'level': s['level'],
            'level_note': note + ('Static analysis of the current source; the thorough tier has larger bounds. ' if s['technique'].startswith('abstract interpretation of the compiler IR driven') else 'Static analysis of the current source, the same analysis at both tiers. ') + 'Trusts the compiler front end that '
                          'produces the IR or type errors and the analyser in nsa/. Assumes: ' + '; '.join(s['assumptions'] or ['nothing further']) + '.'})
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis only; see DESIGN.md. No hooks in /repo.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')


# --------------------------------------------------------------------------- DESIGN.md
def load(p, default):
    p = os.path.join(HERE, p)
    return json.load(open(p)) if os.path.exists(p) else default


seeds = {}
sd = os.path.join(HERE, 'seeded')
for n in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, n, 'meta.json')))
    seeds.setdefault(m['property'], []).append((n, m))
table = load('tools/seeds.json', {})
out = [open(os.path.join(HERE, 'tools', 'design.md.in')).read().rstrip('\n'), '']
groups = [('F', 'Flags'), ('D', 'Data layout'), ('P', 'Spans'), ('B', 'Bytes'), ('S', 'Scope guards'), ('U', 'UTF'), ('T', 'Type utilities and strings'), ('L', 'Cloning'),
          ('N', 'Numbers'), ('A', 'Approximate comparison'), ('V', 'Vectors'), ('K', 'Constant evaluation'), ('M', 'Matrices'), ('Q', 'Quaternions'), ('R', 'Rects and simplices'),
          ('X', 'Transforms'), ('O', 'Output'), ('G', 'Headers and all operations'), ('E', 'Exceptions'), ('C', 'Callbacks and connections')]
assert not {p[0] for p in SPECS} - {g for g, _ in groups}, {p[0] for p in SPECS} - {g for g, _ in groups}
for g, gname in groups:
    out += ['### ' + gname, '']
    for pid, s in SPECS.items():
        if pid[0] != g:
            continue
        out += ['#### %s %s' % (pid, s['title']), '', s['statement'], '']
        if s['na']:
            out += ['Not applicable: ' + s['na'], '']
            continue
        out += ['* quantifies over: %s' % s['text'], '* decided by: %s' % re.sub(r' \(flow[^)]*\)|; no execution, no solver', '', s['technique']),
                '* rule: %s' % s['rule']]
        files = ['witness/' + f for _, f in s['steps'] if f]
        if files:
            out.append('* specification: %s' % ', '.join('`%s`' % f for f in files))
        if s['assumptions']:
            out.append('* bounds and assumptions: ' + '; '.join(s['assumptions']))
        if s['note']:
            out.append('* note: ' + s['note'])
        ev = load('evidence/%s.json' % pid, None)
        if ev:
            c = ev['coverage']
            out.append('* size: %s obligations%s' % (c.get('obligations', '?'), ', %d nytl functions' % len(c['nytl_functions']) if c.get('nytl_functions') else ''))
        out.append('* beyond tests: ' + s['why'])
        if pid in seeds:
            out.append('* planted changes: ' + '; '.join('`%s` (%s)' % (n, m['needs']) for n, m in seeds[pid]))
        out.append('')
out += ['## Planted changes and the checks that catch them', '',
        'Every change builds, passes the 59 tests and has a demonstration. Each was run against the check of the property it was written for (`tools/seed.py`), which '
        'must catch it; `tools/seed.py --related` also tries the checks anchored in the changed files.', '', '| change | what it breaks | caught by |', '|---|---|---|']
for pid in SPECS:
    for n, m in seeds.get(pid, ()):
        out.append('| `%s` | %s | %s |' % (n, m['what_it_breaks'].replace('|', '/'), ', '.join(table.get(n, [pid]))  or 'MISSED'))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
