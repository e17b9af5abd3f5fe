#!/usr/bin/env python3
"""Development aid (no check uses it): changes written by hand, run against the tests and the checks.
  try.py OUT SPEC.py   SPEC has TRY = [(id, [(file, old, new), ..], 'C05,C06'), ..]"""
import sys, os, json, time
sys.argv, A = ['x', '/dev/null', '0'], sys.argv
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mutate.py')).read().replace('\nmain()\n', '\n'))
out, spec = A[1], A[2]
if not os.path.isdir(R): sh('git clone -q /repo ' + R)
sh('git -C %s fetch -q origin && git -C %s reset -q --hard origin/HEAD' % (R, R))
env = dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++')
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
sh('cmake -Wno-dev -S %s -B %s -G Ninja -DCMAKE_BUILD_TYPE=Debug "-DCMAKE_CXX_FLAGS=-include cstdint" -DCMAKE_PROJECT_INCLUDE=/opt/vp/project_include.cmake -DFETCHCONTENT_FULLY_DISCONNECTED=ON --no-warn-unused-cli' % (R, B), env=env)
t = open('/opt/vp/run_tests.py').read().replace('/repo/_build/run', B + '/run').replace('/repo/tests/assets', R + '/tests/assets')
open(B + '/rt.py', 'w').write(t); os.makedirs(B + '/home', exist_ok=True)
g = {}; exec(open(spec).read(), g); log = open(out, 'a')
for (i, edits, checks) in g['TRY']:
    sh('git -C %s checkout -q -- .' % R); bad = None
    for f, a, b in edits:
        p = os.path.join(R, f); s = open(p, errors='surrogateescape').read()
        if s.count(a) != 1: bad = '%s: %d times %r' % (f, s.count(a), a[:60]); break
        open(p, 'w', errors='surrogateescape').write(s.replace(a, b))
    if bad: print('SPEC', i, bad, file=log, flush=True); continue
    r = sh('ninja -C %s runTests' % B, 400)
    if r.returncode: print('BUILD', i, r.stdout.decode()[-300:], file=log, flush=True); continue
    sh('rm -f %s/results.txt %s.json' % (B, B))
    sh('timeout 60 unshare -Urm bash -c "mount --bind %s/home /root && /usr/bin/python3 %s/rt.py %s/runTests %s/results.txt"' % (B, B, B, B), 90)
    sh('/usr/bin/python3 /opt/vp/results.py %s.json lines:%s/results.txt' % (B, B))
    try: lost = sorted(base - set(json.load(open(B + '.json'))['passed']))
    except Exception: lost = ['?']
    if lost: print('TESTS', i, lost[:4], file=log, flush=True); continue
    res = []
    for c in checks.split(','):
        t0 = time.time(); r = sh('timeout 600 python3 run.py ' + c, 620, cwd=V, env=dict(os.environ, VERIF_REPO=R)); l = r.stdout.decode(errors='replace').split('\n')
        res.append('%s=%d(%ds) %s' % (c, r.returncode, time.time() - t0, next((x for x in l if '| case' in x), '')[:120]))
        if r.returncode == 1: break
    print('caught' if r.returncode == 1 else 'MISSED', i, ' ; '.join(res), file=log, flush=True)
sh('git -C %s checkout -q -- .' % R)
