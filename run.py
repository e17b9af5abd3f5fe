#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--replay FILE]

Builds the harness of PROPERTY from /repo's working tree, enumerates its cases
over all cores, replays what failed, writes evidence/PROPERTY.json and prints
VIOLATION / KNOWN-FINDING lines.  Exit 0: held on everything explored, 1: a
violation, 2: the check itself could not run."""
import sys, os, json, time, subprocess, threading, tempfile, shutil, struct, mmap, glob, re, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF)
import checks

BUILD = os.path.join(VERIF, 'build') if REPO == '/repo' else '/tmp/vt_build_alt' + REPO.replace('/', '_')
SH_DESC = 24
SH_SIZE = 24 + 2000 + 2000

VARIANTS = {
    # the variables the repository leaves uninitialised hold a pattern: nothing may depend on them
    # flags for the repository sources, flags for the harness, link flags
    'asan': ('-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern -D_GLIBCXX_ASSERTIONS',
             '-O1 -g1 -fsanitize=address -fno-omit-frame-pointer',
             '-fsanitize=address'),
    'asan-dbg': ('-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern -D_GLIBCXX_ASSERTIONS -DDEBUG',
             '-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -DDEBUG',
             '-fsanitize=address'),
    'asan-spectral': ('-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern -D_GLIBCXX_ASSERTIONS -DSPECTRAL=1',
             '-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -DSPECTRAL=1',
             '-fsanitize=address'),
    'fast': ('-O2 -g1 -ftrivial-auto-var-init=pattern', '-O2 -g1', ''),
    'fast-spectral': ('-O2 -g1 -ftrivial-auto-var-init=pattern -DSPECTRAL=1', '-O2 -g1 -DSPECTRAL=1', ''),
    # compiler instrumentation of every memory access, calling lib/mcrt.cpp
    'mc': ('-O2 -g1 -fno-inline-functions-called-once -fsanitize=thread', '-O2 -g1', ''),
}
DEFS = ('-DSPECTRE_COLOURED_OUTPUT -DCOMPILER_NAME=\\"vt\\" -DCOMPILER_VERSION=\\"0\\" '
        '-DJPEG_FOUND -DPNG_FOUND -DTIFF_FOUND')


def repo_sources():
    res = []
    for ext in ('cpp', 'cc', 'c'):
        res += glob.glob(os.path.join(REPO, 'src', '**', '*.' + ext), recursive=True)
    return sorted(s for s in res if os.path.relpath(s, REPO) != 'src/main.cpp')


def build(harness, variant, extra_src=(), hflags='', ldflags='', uses_repo=True):
    rf, hf, lf = VARIANTS[variant]
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    name = os.path.splitext(harness)[0]
    nj = os.path.join(d, name + '.ninja')
    txt = ['builddir = ' + os.path.join(d, '.nj_' + name), 'rule cxx',
           ' command = g++ -std=gnu++11 -include cstdint %s %s -I%s/src -w -MMD -MF $out.d -c $in -o $out' % (rf, DEFS, REPO),
           ' depfile = $out.d', ' deps = gcc', 'rule cc',
           ' command = gcc -std=gnu90 %s %s -I%s/src -w -MMD -MF $out.d -c $in -o $out' % (rf, DEFS, REPO),
           ' depfile = $out.d', ' deps = gcc', 'rule hxx',
           ' command = g++ -std=gnu++17 -include cstdint %s %s %s -I%s/src -I%s/lib -w -MMD -MF $out.d -c $in -o $out' % (hf, DEFS, hflags, REPO, VERIF),
           ' depfile = $out.d', ' deps = gcc', 'rule link',
           ' command = g++ %s $in -o $out %s -lpthread -ljpeg -lpng -ltiff -lz -ldl' % (lf, ldflags)]
    objs = []
    if uses_repo:
        for s in repo_sources():
            o = os.path.join(d, 'o_' + os.path.relpath(s, REPO).replace('/', '_') + '.o')
            txt.append('build %s: %s %s' % (o, 'cc' if s.endswith('.c') else 'cxx', s))
            objs.append(o)
    for s in (os.path.join('harness', harness),) + tuple(extra_src):
        o = os.path.join(d, 'h_' + name + '_' + s.replace('/', '_') + '.o')
        txt.append('build %s: hxx %s' % (o, os.path.join(VERIF, s)))
        objs.append(o)
    exe = os.path.join(d, name)
    txt.append('build %s: link %s' % (exe, ' '.join(objs)))
    txt.append('default ' + exe)
    body = '\n'.join(txt) + '\n'
    if not os.path.exists(nj) or open(nj).read() != body:
        with open(nj, 'w') as f:
            f.write(body)
    r = subprocess.run(['ninja', '-f', nj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print('BUILD FAILED', harness, variant)
        print(r.stdout[max(0, r.stdout.find('FAILED')):][:6000])
        sys.exit(2)
    return exe


class Shared:
    def __init__(self, path):
        with open(path, 'wb') as f:
            f.write(b'\0' * SH_SIZE)
        self.f = open(path, 'r+b')
        self.m = mmap.mmap(self.f.fileno(), SH_SIZE)

    def get(self):
        idx, beat, done = struct.unpack_from('<qqq', self.m, 0)
        desc = self.m[SH_DESC:SH_DESC + 2000].split(b'\0')[0].decode('latin1')
        det = self.m[SH_DESC + 2000:SH_DESC + 4000].split(b'\0')[0].decode('latin1')
        return idx, beat, done, desc, det

    def close(self):
        self.m.close()
        self.f.close()


ENV_ASAN = ('detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:'
            'max_allocation_size_mb=2048:detect_stack_use_after_return=0:log_path=%s')


def run_proc(exe, args, work, tag, hang_s, deadline, env_extra):
    """run one harness process; -> (status, shared info, parsed lines, asan text)
    status: done | crash | hang | deadline"""
    wd = os.path.join(work, 'wd_' + tag)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    res = os.path.join(work, 'res_' + tag)
    shp = os.path.join(work, 'sh_' + tag)
    log = os.path.join(work, 'asan_' + tag)
    for p in [res] + glob.glob(log + '*'):
        if os.path.exists(p):
            os.unlink(p)
    sh = Shared(shp)
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = ENV_ASAN % log
    env['LC_ALL'] = 'C.UTF-8'
    env['MALLOC_PERTURB_'] = '165'
    env.update(env_extra or {})
    err = open(os.path.join(work, 'err_' + tag), 'wb')
    p = subprocess.Popen([exe, '--result', res, '--shared', shp] + args, cwd=wd, env=env,
                         stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                         start_new_session=True)
    last, lastt = None, time.time()
    status = None
    delay = 0.01
    while True:
        try:
            p.wait(timeout=delay)
            break
        except subprocess.TimeoutExpired:
            pass
        delay = min(delay * 1.5, 0.25)
        cur = sh.get()[:2]
        now = time.time()
        if cur != last:
            last, lastt = cur, now
        if now - lastt > hang_s:
            status = 'hang'
        elif now > deadline:
            status = 'deadline'
        if status:
            break
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    info = sh.get()
    sh.close()
    err.close()
    lines = []
    if os.path.exists(res):
        for l in open(res, errors='replace'):
            try:
                lines.append(json.loads(l))
            except ValueError:
                pass
    if status is None:
        status = 'done' if info[2] == 1 and p.returncode == 0 else 'crash'
    txt = ''
    for g in glob.glob(log + '*'):
        txt += open(g, errors='replace').read()
    shutil.rmtree(wd, ignore_errors=True)
    return status, p.returncode, info, lines, txt


def crash_kind(rc, txt):
    m = re.search(r'AddressSanitizer: ([A-Za-z0-9_-]+)', txt)
    if m:
        fn = ''
        for fm in re.finditer(r'#\d+ 0x[0-9a-f]+ in (\S+)[^\n]*?/src/([^\s:]+)', txt):
            if 'mcrt' in fm.group(2) or 'libsanitizer' in fm.group(2):
                continue
            fn = fm.group(1).split('(')[0] + '@' + os.path.basename(fm.group(2))
            break
        return 'memory-error:%s %s' % (m.group(1), fn)
    if rc is not None and rc < 0:
        return 'crash:signal %d' % (-rc)
    return 'crash:exit status %s' % rc


def load_known(prop):
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            m = re.match(r'finding: property=(\S+) key=\[(.*?)\] case=\[(.*?)\] (.*)$', l)
            if m and m.group(1) == prop:
                res.append({'key': m.group(2), 'case': m.group(3), 'msg': m.group(4), 'seen': False})
    return res


def main():
    argv = sys.argv[1:]
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    i = 1
    while i < len(argv):
        if argv[i] == '--tier':
            tier = argv[i + 1]
            i += 1
        elif argv[i] == '--replay':
            replay = json.load(open(argv[i + 1]))
            i += 1
        i += 1
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if prop == '--build-all':
        todo = []
        for c in checks.CHECKS.values():
            for part in c['parts']:
                t = (part['harness'], part.get('variant', 'asan'), tuple(part.get('extra_src', ())), part.get('hflags', ''), part.get('ldflags', ''), part.get('uses_repo', True))
                if t not in todo:
                    todo.append(t)
        for t in todo:
            build(*t)
        print('built %d harnesses' % len(todo))
        return 0
    chk = checks.CHECKS[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    budget = float(os.environ.get('VERIF_BUDGET', 820 if tier == 'quick' else 10 * 3600))
    deadline = t0 + budget
    work = tempfile.mkdtemp(prefix='vt_' + prop + '_')
    os.chmod(work, 0o755)
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    viols, counters, samples, capped, notes, unrep = [], {}, [], False, [], []
    part_stats = []
    lock = threading.Lock()
    try:
        for pi, part in enumerate(chk['parts']):
            if replay and replay['part'] != pi:
                continue
            exe = build(part['harness'], part.get('variant', 'asan'), tuple(part.get('extra_src', ())),
                        part.get('hflags', ''), part.get('ldflags', ''), part.get('uses_repo', True))
            base = ['--prop', part.get('prop', prop)] + (['--thorough'] if tier == 'thorough' else [])
            base += part.get('args', [])
            hang = part.get('hang', 30)
            env = part.get('env', {})
            if replay:
                a = base + replay['args']
                st, rc, info, lines, txt = run_proc(exe, a, work, 'replay', hang * 2, deadline, env)
                print('status', st, 'rc', rc, 'case', info[0], info[3])
                for l in lines:
                    print(json.dumps(l))
                print(txt[:4000])
                bad = st in ('crash', 'hang') or any(l.get('t') == 'viol' for l in lines)
                if bad:
                    print('VIOLATION property=%s replay=%s' % (prop, argv[-1]))
                return 1 if bad else 0
            n = part.get('nshards', 8)
            pc = {}

            def shard(si):
                nonlocal capped
                frm = 0
                crashes = 0
                while True:
                    tag = '%d_%d' % (pi, si)
                    a = base + ['--shard', str(si), '--nshards', str(n), '--from', str(frm)]
                    cl = ['--claim', os.path.join(work, 'claims_%d' % pi)] if part.get('variant') == 'mc' else []
                    st, rc, info, lines, txt = run_proc(exe, a + cl, work, tag, hang, deadline, env)
                    with lock:
                        for l in lines:
                            if l['t'] == 'viol':
                                viols.append(dict(part=pi, key=l['key'], msg=l['msg'], index=l['index'],
                                                  case=l['case'], shardargs=a[len(base):], kind='fail'))
                            elif l['t'] == 'count':
                                pc[l['k']] = pc.get(l['k'], 0) + l['v']
                            elif l['t'] == 'sample' and len(samples) < 24:
                                samples.append(l['v'])
                        if st == 'deadline':
                            capped = True
                            notes.append('part %d shard %d stopped by the time budget at case %d (%s)' % (pi, si, info[0], info[3]))
                    if st in ('done', 'deadline'):
                        return
                    key = 'hang' if st == 'hang' else crash_kind(rc, txt)
                    with lock:
                        viols.append(dict(part=pi, key=key, msg=(info[4] + ' ' + txt[:1500]).strip(), index=info[0],
                                          case=info[3], shardargs=a[len(base):], kind=st))
                    crashes += 1
                    if crashes >= 6:
                        with lock:
                            notes.append('part %d shard %d gave up after %d crashes' % (pi, si, crashes))
                        return
                    frm = info[0] + 1

            ths = [threading.Thread(target=shard, args=(si,)) for si in range(n)]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            for k, v in pc.items():
                counters[k] = counters.get(k, 0) + v
            part_stats.append({'harness': part['harness'], 'variant': part.get('variant', 'asan'), 'counts': pc})
        # replay before report
        known = load_known(prop)
        reported, nrep = {}, 0
        viols.sort(key=lambda v: (v['part'], v['index']))
        nknown = 0
        for v in viols:
            k = None
            for kf in known:
                if kf['key'] == v['key'] and kf['case'] in ('*', v['case']):
                    k = kf
                    break
            if k:
                k['seen'] = True
                nknown += 1
                continue
            if v['key'] in reported:
                reported[v['key']]['more'] += 1
                continue
            if len(reported) >= 8:
                continue
            part = chk['parts'][v['part']]
            exe = build(part['harness'], part.get('variant', 'asan'), tuple(part.get('extra_src', ())),
                        part.get('hflags', ''), part.get('ldflags', ''), part.get('uses_repo', True))
            base = ['--prop', part.get('prop', prop)] + (['--thorough'] if tier == 'thorough' else [])
            base += part.get('args', [])
            ok = None
            hang = part.get('hang', 30)
            for args, tmo in ((['--only', str(v['index'])], hang * 2), (v['shardargs'], hang * 2)):
                st, rc, info, lines, txt = run_proc(exe, base + args, work, 'rp', tmo,
                                                    time.time() + max(60.0, min(300.0, t0 + 870 - time.time())), part.get('env', {}))
                if v['kind'] == 'fail':
                    good = any(l['t'] == 'viol' and l['key'] == v['key'] for l in lines)
                elif v['kind'] == 'hang':
                    good = st == 'hang'
                else:
                    good = st == 'crash'
                if good:
                    ok = args
                    break
            if ok is None:
                unrep.append('%s: %s' % (v['key'], v['case']))
                continue
            path = os.path.join(rdir, '%s-%d.json' % (prop, nrep))
            nrep += 1
            with open(path, 'w') as f:
                json.dump({'property': prop, 'part': v['part'], 'tier': tier, 'args': ok, 'key': v['key'],
                           'case': v['case'], 'message': v['msg'], 'harness': part['harness'],
                           'how': 'python3 /verif/run.py %s --tier %s --replay %s' % (prop, tier, path)}, f, indent=1)
            v['more'] = 0
            v['path'] = path
            reported[v['key']] = v
        cov = {}
        lvl = chk['level']
        for name, keys in chk['coverage'].items():
            cov[name] = sum(counters.get(k, 0) for k in keys)
        cov['samples'] = samples[:24] or ['(none)']
        cov['rule'] = chk['rule']
        cov['exhaustive'] = not capped and not any('gave up' in x for x in notes)
        cov['parts'] = part_stats
        if notes:
            cov['notes'] = notes
        if unrep:
            cov['not_reproduced'] = unrep
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': lvl, 'coverage': cov,
              'assumptions': chk.get('assumptions', []), 'wall_s': round(time.time() - t0, 2),
              'violations': len(reported)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for kf in known:
            if kf['seen']:
                print('KNOWN-FINDING: property=%s %s' % (prop, kf['msg']))
        for v in reported.values():
            print('%s | case: %s | %s%s' % (v['key'], v['case'], v['msg'][:600], ' (+%d more)' % v['more'] if v['more'] else ''))
            print('VIOLATION property=%s replay=%s' % (prop, v['path']))
        print('%s %s: %s wall=%.1fs%s' % (prop, tier, ', '.join('%s=%s' % (k, cov[k]) for k in chk['coverage']),
                                         time.time() - t0, '' if cov['exhaustive'] else ' (CAPPED)'))
        for x in notes + ['not reproduced: ' + u for u in unrep]:
            print('note:', x[:300])
        return 1 if reported else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
