#!/usr/bin/env python3
"""writes properties.jsonl, MANIFEST.json and DESIGN.md from checks.py, design.py, design/*.md and known_findings.txt"""
import json, os, glob, re, checks, design
V = os.path.dirname(os.path.abspath(__file__))
with open(V + '/properties.jsonl', 'w') as f:
    for pid, c in checks.CHECKS.items():
        f.write(json.dumps({'id': pid, 'title': c['title'], 'statement': c['statement'],
            'quantifier': {'over': c['over'], 'text': c['quantifier']}, 'why_tests_cant': c['why'],
            'anchors': {'files': c['files'], 'mechanism': [{'name': a, 'where': b} for a, b in c['mechanism']],
                        'observe_at': c['observe'], 'hook_needed': None}}) + '\n')
    for n in checks.NOT_APPLICABLE:
        f.write(json.dumps(n['entry']) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 run.py --build-all',
     'checks': [{'property': pid, 'quick_cmd': 'python3 run.py %s' % pid,
                 'thorough_cmd': 'python3 run.py %s --tier thorough' % pid,
                 'evidence_file': 'evidence/%s.json' % pid, 'technique': c['technique'], 'level': c['level'],
                 'level_note': c['note']} for pid, c in checks.CHECKS.items()],
     'not_applicable': [{'property': n['entry']['id'], 'reason': n['reason']} for n in checks.NOT_APPLICABLE],
     'notes': 'No hooks in /repo: the harnesses in /verif/harness compile /repo/src as it is and drive public interfaces; '
              'thread interleavings are controlled by link-time interposition (lib/mcrt.cpp).'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

out = [open(V + '/design/head.md').read()]
for pid, c in checks.CHECKS.items():
    out.append('### %s %s\n\n%s\n\n* **Explored:** %s.\n* **Oracle:** %s\n* **Bounds and what is not judged:** %s\n'
               '* **Why tests cannot:** %s.\n* **Level:** %s, %s. Harness: %s.%s\n' % (
        pid, c['title'], c['statement'], c['quantifier'], design.ORACLE[pid], c['note'], c['why'].rstrip('.'), c['level'],
        c['technique'], ', '.join('`%s` (%s)' % (p['harness'], p.get('variant', 'asan')) for p in c['parts']),
        ' Quick run: %s.' % design.COST[pid] if pid in design.COST else ''))
out.append('## Properties not claimed\n\n' + ('\n'.join('* %s: %s' % (n['entry']['id'], n['reason'])
           for n in checks.NOT_APPLICABLE) or 'None: every property written down is decided by enumeration.') + '\n')
fixed, find = [], []
for l in open(V + '/known_findings.txt'):
    g = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if g:
        fixed.append('* %s `%s` %s' % g.groups())
    g = re.match(r'finding: property=(\S+) key=\[(.*?)\] case=\[(.*?)\] (.*)', l)
    if g:
        find.append('* %s %s (%s): %s' % g.groups())
out.append('## Genuine defects repaired\n\nEach was found by a check (or by reading, and then shown by one), repaired by a '
           '`fix:` commit, and is reported again if it returns.\n\n' + '\n'.join(fixed) + '\n')
out.append('## Genuine defects recorded as known findings\n\nNot repaired, because existing tests pin the wrong numbers or the '
           'repair is not small. `known_findings.txt` identifies them by what fails and in which case; anything else is reported.\n\n'
           + '\n'.join(find) + '\n')
sd = ['## Planted bugs\n\nWritten from a property and the code, in a scratch copy; each compiles and passes the tests, and its demonstration '
      'fails with it. "caught" is the result of the quick check of its property.\n\n| bug | property | needs | breaks | result |\n|---|---|---|---|---|']
res = json.load(open(V + '/design/seed_results.json')) if os.path.exists(V + '/design/seed_results.json') else {}
for p in sorted(glob.glob(V + '/seeded/*/meta.json')):
    s = os.path.basename(os.path.dirname(p))
    j = json.load(open(p))
    sd.append('| %s | %s | %s | %s | %s |' % (s, j['property'], j['needs'], j['what_it_breaks'], res.get(s, '?')))
out.append('\n'.join(sd) + '\n')
out.append(open(V + '/design/tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
