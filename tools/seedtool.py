#!/usr/bin/env python3
"""Development aid for the planted bugs (no check uses it).
  seedtool.py new SPEC.py        write patch.diff/meta.json/demo of every entry of SPEC
  seedtool.py test [ID...]       confirm builds, stable tests, demo and what the check says"""
import sys, os, json, subprocess, difflib, tempfile, time
V = '/verif'
R = os.environ.get('SEED_REPO', '/repo')  # a clone can be used while /repo is busy
DEMO = r'''#!/bin/bash
# links demo.cpp with the objects of the last build; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'find "$w" -delete' EXIT
objs=$(find "$PWD/_build/CMakeFiles/spectre-rgb.dir/src" -name '*.o' ! -name 'main.cpp.o')
g++ -std=gnu++11 -include cstdint -O1 -w -DDEBUG -I "$PWD/src" "$here/demo.cpp" $objs -o "$w/demo" -ljpeg -lpng -lz -ltiff -lpthread -ldl >"$w/log" 2>&1 || { tail -20 "$w/log"; exit 4; }
cd "$w" && mkdir work && cd work
timeout 100 ../demo >/dev/null 2>&1
rc=$?
echo "demo exit $rc"
exit $rc
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def new(spec):
    g = {}
    exec(open(spec).read(), g)
    for s in g['SEEDS']:
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        patch = ''
        byfile = {}
        for f, old, neu in s['edits']:
            byfile.setdefault(f, open(os.path.join(R, f)).read() if f not in byfile else byfile[f])
            assert byfile[f].count(old) == 1, (s['id'], f, byfile[f].count(old), old)
            byfile[f] = byfile[f].replace(old, neu)
        for f, txt in byfile.items():
            o = open(os.path.join(R, f)).read()
            patch += ''.join(difflib.unified_diff(o.splitlines(True), txt.splitlines(True), 'a/' + f, 'b/' + f))
        open(os.path.join(d, 'patch.diff'), 'w').write(patch)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        open(os.path.join(d, 'demo.sh'), 'w').write(s.get('sh', DEMO))
        if 'demo' in s:
            open(os.path.join(d, 'demo.cpp'), 'w').write(s['demo'])


def build():
    if R == '/repo':
        return sh('bash /opt/vp/build.sh').returncode
    env = dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++')
    return sh('cmake -Wno-dev -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug "-DCMAKE_CXX_FLAGS=-include cstdint" '
              '-DCMAKE_PROJECT_INCLUDE=/opt/vp/project_include.cmake -DFETCHCONTENT_FULLY_DISCONNECTED=ON '
              '--no-warn-unused-cli && ninja -C %s/_build all runTests' % (R, R, R), env=env).returncode


def tests(out):
    if R == '/repo':
        return sh('bash /opt/vp/test.sh ' + out)
    # with places of its own, not to disturb the tests of /repo
    B = R + '/_build'
    t = open('/opt/vp/run_tests.py').read().replace('/repo/_build/run', B + '/run').replace('/repo/tests/assets', R + '/tests/assets')
    open(B + '/rt.py', 'w').write(t); os.makedirs(B + '/home', exist_ok=True)
    sh('unshare -Urm bash -c "mount --bind %s/home /root && /usr/bin/python3 %s/rt.py %s/runTests %s/results.txt"' % (B, B, B, B))
    return sh('/usr/bin/python3 /opt/vp/results.py %s lines:%s/_build/results.txt' % (out, R))


def test(ids):
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    assert not sh('git -C ' + R + ' status --porcelain --untracked-files=no').stdout, 'repo dirty'
    build()
    for i in ids:
        d = os.path.join(V, 'seeded', i)
        prop = json.load(open(d + '/meta.json'))['property']
        clean = sh('bash %s/demo.sh' % d, cwd=R)
        a = sh('git -C ' + R + ' apply %s/patch.diff' % d)
        if a.returncode:
            print(i, 'DOES NOT APPLY', a.stdout.decode()); continue
        try:
            b = build()
            t = tests('/tmp/seed_out.json')
            passed = set(json.load(open('/tmp/seed_out.json'))['passed'])
            lost = base - passed
            dirty = sh('bash %s/demo.sh' % d, cwd=R)
            t0 = time.time()
            c = sh('timeout 900 python3 /verif/run.py %s' % prop, cwd=V)
            out = [l for l in c.stdout.decode(errors='replace').splitlines() if 'VIOLATION' in l]
            print('%s: build %d lost-tests %s demo clean %d patched %d; check %s rc %d (%.0f s) %s' % (
                i, b, sorted(lost)[:3], clean.returncode, dirty.returncode, prop, c.returncode, time.time() - t0, out[:1]), flush=True)
            rf = os.path.join(V, 'design', 'seed_results.json')
            rs = json.load(open(rf)) if os.path.exists(rf) else {}
            rs[i] = 'caught by %s' % prop if c.returncode == 1 and out else 'not caught'
            json.dump(rs, open(rf, 'w'), indent=1, sort_keys=True)
            if clean.returncode or not dirty.returncode:
                print('   ', clean.stdout[-300:], dirty.stdout[-300:])
        finally:
            sh('git -C ' + R + ' checkout -- .')
    build()


if __name__ == '__main__':
    if sys.argv[1] == 'new':
        new(sys.argv[2])
    else:
        test(sys.argv[2:] or sorted(os.listdir(V + '/seeded')))
