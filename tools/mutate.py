#!/usr/bin/env python3
"""Development aid (no check uses it): systematic small changes of a clone of the repository.
Those which the repository's own tests miss are run against the checks of the file; what
survives is listed for a look by hand.
  mutate.py OUT N FILE:CHECK[,CHECK] ..."""
import sys, os, re, json, subprocess, time
R = os.environ.get('MU', '/tmp/mu'); B, V = R + 'b', os.environ.get('VV', '/verif')


def sh(cmd, t=1200, **kw):
    try:
        return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, **kw)
    except subprocess.TimeoutExpired:
        class X: returncode = 124; stdout = b''
        return X


SW = [(r'(?<![<>=!\-+*/&|])<(?![<=>])(?=[^>]*$)', '<='), (r'(?<![<>=!\-])>(?![>=])(?!.*<)', '>='), (r'<=', '<'), (r'>=', '>'), (r'==', '!='), (r'!=', '=='),
      (r'(?<=[\w\)\]])\+(?=[\w\(])', '-'), (r'(?<=[\w\)\]])-(?=[\w\(])', '+'), (r'(?<=[\w\)\]])\*(?=[\w\(])', '/'), (r'(?<=[\w\)\]])/(?=[\w\(])', '*'), (r'\+=', '-='), (r'-=', '+='),
      (r'&&', '||'), (r'\|\|', '&&'), (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'\.x\b', '.y'), (r'\.y\b', '.x'), (r'\.z\b', '.y'),
      (r'\bsinf\b', 'cosf'), (r'\bcosf\b', 'sinf'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\b0\.f\b', '1.f'), (r'\b1\.f\b', '0.f'), (r'\b0\.5f\b', '0.6f'),
      (r'\b0\b(?!\.)', '1'), (r'\b1\b(?!\.)', '2'), (r'\b2\b(?!\.)', '3'), (r'\b3\b(?!\.)', '2'), (r'\[i\]', '[0]'), (r'\+1\b', ''), (r'-1\b', ''), (r'\+\+', '--'), (r'!(?=[\w\(])', ''),
      (r'\bif\(', 'if(!!!('), (r'\babs\b|\bfabsf\b|\bfabs\b', ''), (r'\bfloor\b', 'ceil')]


def mutants(path):
    L = open(path, errors='surrogateescape').read().split('\n'); out = []
    for i, l in enumerate(L):
        s = l.strip()
        if not s or s.startswith(('//', '#', '*', '/*')) or 'Console' in s or 'MESSAGE' in s or 'static const' in s: continue
        code = l.split('//')[0]
        for a, b in SW:
            for m in re.finditer(a, code):
                if b == 'if(!!!(':
                    # negate the whole condition when it closes on the line
                    d = 0; k = None
                    for j in range(m.end() - 1, len(code)):
                        d += (code[j] == '(') - (code[j] == ')')
                        if d == 0: k = j; break
                    if k is None: continue
                    n = code[:m.start()] + 'if(!(' + code[m.end():k] + '))' + code[k + 1:]
                else:
                    n = code[:m.start()] + b + code[m.end():]
                if n != code: out.append((i, n))
        if re.match(r'^\s*[\w\.\->\[\]\*:]+\s*(=|\+=|-=|\*=|\(|\+\+)[^;]*;\s*$', code) and not re.match(r'^\s*(return|delete|break|continue|free)\b', code):
            out.append((i, re.match(r'^\s*', code).group(0) + ';'))
    return L, out


def main():
    out, n = sys.argv[1], int(sys.argv[2])
    if not os.path.isdir(R): sh('git clone -q /repo ' + R)
    sh('git -C %s fetch -q origin && git -C %s reset -q --hard origin/HEAD' % (R, R))
    env = dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++')
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    sh('cmake -Wno-dev -S %s -B %s -G Ninja -DCMAKE_BUILD_TYPE=Debug "-DCMAKE_CXX_FLAGS=-include cstdint" -DCMAKE_PROJECT_INCLUDE=/opt/vp/project_include.cmake -DFETCHCONTENT_FULLY_DISCONNECTED=ON --no-warn-unused-cli' % (R, B), env=env)
    sh('ninja -C %s runTests' % B)
    # the runner of the tests, with places of its own: several instances can run at once
    t = open('/opt/vp/run_tests.py').read().replace('/repo/_build/run', B + '/run').replace('/repo/tests/assets', R + '/tests/assets')
    open(B + '/rt.py', 'w').write(t); os.makedirs(B + '/home', exist_ok=True)
    log = open(out, 'a')
    def p(*a): print(*a, file=log, flush=True)
    for fc in sys.argv[3:]:
        f, checks = fc.split(':'); path = os.path.join(R, f); L, ms = mutants(path)
        step = max(1, len(ms) // n) if n else 1; off = int(os.environ.get('OFF', 0)) % step
        sel = ms[off::step][:n] if n else ms
        tot = dict(build=0, tests=0, caught=0, missed=0)
        for (i, new) in sel:
            M = list(L); M[i] = new; open(path, 'w', errors='surrogateescape').write('\n'.join(M))
            try:
                if sh('ninja -C %s runTests' % B, 300).returncode: tot['build'] += 1; continue
                sh('rm -f %s/results.txt %s.json' % (B, B))
                sh('timeout 60 unshare -Urm bash -c "mount --bind %s/home /root && /usr/bin/python3 %s/rt.py %s/runTests %s/results.txt"' % (B, B, B, B), 90)
                sh('/usr/bin/python3 /opt/vp/results.py %s.json lines:%s/results.txt' % (B, B))
                try: ok = base <= set(json.load(open(B + '.json'))['passed'])
                except Exception: ok = False
                if not ok: tot['tests'] += 1; continue
                res = []
                for c in checks.split(','):
                    t = time.time(); r = sh('timeout 500 python3 run.py ' + c, 520, cwd=V, env=dict(os.environ, VERIF_REPO=R)); res.append('%s=%d(%ds)' % (c, r.returncode, time.time() - t))
                    if r.returncode == 1: break
                k = 'caught' if '=1(' in res[-1] else 'missed'; tot[k] += 1
                p(k, f, i + 1, ' '.join(res), '|', L[i].strip(), '=>', new.strip())
            finally:
                open(path, 'w', errors='surrogateescape').write('\n'.join(L))
        p('TOTAL', f, tot)


main()
