#!/usr/bin/env python3
"""Runs the generated-input check of one property.

    check.py ID [quick|thorough]     run the check, write evidence/ID.json
    check.py --setup                 compile every harness (warm cache)
    check.py --replay FILE           run one replay file again

Exit 0: the property held on everything explored.  Exit 1 and a line
"VIOLATION property=ID replay=FILE": it is broken.
"""
import collections, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('TQMESH_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
HARNESS = os.path.join(VERIF, 'harness')
NPROC = int(os.environ.get('VERIF_JOBS', '8'))
sys.path.insert(0, VERIF)
from checks import CHECKS, LEVEL  # noqa: E402

FLAGS = {
    'plain': ['-std=gnu++17', '-O2', '-DNDEBUG', '-w'],
    'asan': ['-std=gnu++17', '-O1', '-g1', '-DNDEBUG', '-w', '-fno-omit-frame-pointer',
             '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'],
}
APP_FLAGS = ['-std=gnu++17', '-O1', '-DNDEBUG', '-DTQMESH_USE_EXPRTK', '-w']


def log(*a):
    print(*a, flush=True)


def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(os.path.relpath(p, '/').encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def files(root, pats):
    r = []
    for d, dn, fn in os.walk(root):
        dn[:] = [x for x in dn if x not in ('tests', 'examples')]
        for f in fn:
            if any(f.endswith(p) for p in pats):
                r.append(os.path.join(d, f))
    return r


def config_header():
    """The header CMake would generate from auxiliary/TQMeshConfig.h.in."""
    src = open(os.path.join(REPO, 'auxiliary/TQMeshConfig.h.in')).read()
    cm = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    m = re.search(r'VERSION\s+(\d+)\.(\d+)(?:\.(\d+))?', cm[cm.find('project'):])
    ver = m.groups() if m else ('0', '0', '0')
    names = {'MAJOR': ver[0], 'MINOR': ver[1], 'PATCH': ver[2] or '0'}

    def sub(mm):
        for k, v in names.items():
            if k in mm.group(1):
                return v
        if 'SOURCE_DIR' in mm.group(1):
            return REPO
        return ''
    out = re.sub(r'@(\w+)@', sub, src)
    out = re.sub(r'\$\{(\w+)\}', sub, out)
    out = re.sub(r'(?m)^#cmakedefine.*$', '', out)
    d = os.path.join(BUILD, 'cfg')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'TQMeshConfig.h')
    if not os.path.exists(p) or open(p).read() != out:
        tmp = p + '.%d' % os.getpid()
        open(tmp, 'w').write(out)
        os.replace(tmp, p)
    return p


def run_cc(cmd, out):
    tmp = out + '.tmp%d' % os.getpid()
    r = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-6000:])
        log('cannot compile:', ' '.join(cmd))
        sys.exit(2)
    os.replace(tmp, out)


def includes():
    return ['-I' + os.path.join(BUILD, 'cfg'), '-I' + os.path.join(REPO, 'src/algorithm'),
            '-I' + os.path.join(REPO, 'src/utils'), '-I' + os.path.join(REPO, 'src/app'),
            '-I' + os.path.join(REPO, 'src/extern_libs')]


def build_harness(name, mode):
    cfg = config_header()
    deps = files(os.path.join(REPO, 'src'), ('.h', '.hpp', '.cpp'))
    deps = [d for d in deps if 'extern_libs' not in d]
    deps += glob.glob(os.path.join(HARNESS, '*.h')) + [os.path.join(HARNESS, name + '.cpp'), cfg]
    key = digest(deps, ' '.join(FLAGS[mode]))
    out = os.path.join(BUILD, '%s_%s_%s' % (name, mode, key))
    if not os.path.exists(out):
        for old in glob.glob(os.path.join(BUILD, '%s_%s_*' % (name, mode))):
            try:
                os.unlink(old)
            except OSError:
                pass
        run_cc(['g++'] + FLAGS[mode] + includes() + [os.path.join(HARNESS, name + '.cpp')], out)
    return out


def build_app():
    """The TQMesh application, compiled from the current tree."""
    cfg = config_header()
    src = os.path.join(REPO, 'src')
    cpps = sorted(glob.glob(os.path.join(src, 'app', '*.cpp')))
    deps = files(src, ('.h', '.hpp', '.cpp')) + [cfg]
    key = digest(deps, ' '.join(APP_FLAGS))
    out = os.path.join(BUILD, 'app_' + key)
    if os.path.exists(out):
        return out
    jobs = []
    objs = []
    for c in cpps:
        text = open(c).read()
        slow = 'exprtk' in text
        odeps = [c] + (deps if not slow else [d for d in deps if 'extern_libs' in d or d.endswith('size_function.h') or d == cfg])
        o = os.path.join(BUILD, 'obj_%s_%s.o' % (os.path.basename(c)[:-4], digest(odeps, ' '.join(APP_FLAGS))))
        objs.append(o)
        if not os.path.exists(o):
            cmd = ['g++'] + APP_FLAGS + includes() + ['-c', c, '-o', o + '.tmp']
            jobs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), o, cmd))
    for p, o, cmd in jobs:
        so, _ = p.communicate()
        if p.returncode != 0:
            log(so[-6000:])
            log('cannot compile:', ' '.join(cmd))
            sys.exit(2)
        os.replace(o + '.tmp', o)
    for old in glob.glob(os.path.join(BUILD, 'app_*')):
        try:
            os.unlink(old)
        except OSError:
            pass
    run_cc(['g++'] + objs, out)
    return out


def prepare(props):
    """Compile what the given parts need, in parallel."""
    os.makedirs(BUILD, exist_ok=True)
    config_header()
    need = sorted({(p['harness'], p.get('mode', 'plain')) for p in props})
    app = any(p.get('app') for p in props)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(NPROC) as ex:
        fa = ex.submit(build_app) if app else None
        fs = {k: ex.submit(build_harness, *k) for k in need}
        try:
            bins = {k: f.result() for k, f in fs.items()}
            appbin = fa.result() if fa else None
        except SystemExit as e:
            os._exit(e.code if isinstance(e.code, int) else 2)
    return bins, appbin


def environment(appbin, scratch):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'exitcode=77:detect_leaks=0:abort_on_error=0'
    env['UBSAN_OPTIONS'] = 'exitcode=77:print_stacktrace=1'
    env['PBT_SCRATCH'] = scratch
    env['PBT_REPO'] = REPO
    env['PBT_STUB'] = os.path.join(VERIF, 'harness', 'plotstub')
    if appbin:
        env['PBT_APP'] = appbin
    return env


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def part_env(part, env):
    return dict(env, PBT_TARGET='0.4') if part.get('mode') == 'asan' else env


def run_part(part, binary, env, seed, tier, scratch, rdir):
    n = part['n'][0] if tier == 'quick' else part['n'][1]
    n = max(NPROC, int(n * float(os.environ.get('VERIF_SCALE', '1'))))
    cpu = part.get('cpu', 60)
    procs = []
    for k in range(NPROC):
        out = os.path.join(scratch, '%s_%d.json' % (part['prop'], k))
        procs.append((subprocess.Popen([binary, 'run', part['prop'], str(seed), str(k), str(NPROC), str(n),
                                        str(cpu), out, rdir], env=env,
                                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), out))
    res = {'total': 0, 'discarded': 0, 'trivial': 0, 'nontrivial': 0, 'labels': collections.Counter(),
           'samples': [], 'failures': [], 'hashes': set(), 'requested': n}
    for p, out in procs:
        p.wait()
        if p.returncode != 0:
            log('harness failed:', part['prop'], 'status', p.returncode)
            sys.exit(2)
        d = json.load(open(out))
        for k in ('total', 'discarded', 'trivial', 'nontrivial'):
            res[k] += d[k]
        res['labels'].update(d['labels'])
        res['samples'] += d['samples']
        res['failures'] += d['failures']
        raw = open(out + '.hashes', 'rb').read()
        for q in range(0, len(raw), 8):
            res['hashes'].add(raw[q:q + 8])
    return res


def confirm(binary, replay, env, cpu, key):
    """A failure counts if it reproduces three times from its replay file."""
    for _ in range(1 if key == 'hang' else 3):
        r = subprocess.run([binary, 'replay', replay, str(cpu)], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, errors='replace')
        if r.returncode != 1:
            return None
    return r.stdout


def main():
    if len(sys.argv) < 2:
        log(__doc__)
        return 2
    if sys.argv[1] == '--setup':
        prepare([p for c in CHECKS.values() for p in c['parts']])
        return 0
    if sys.argv[1] == '--replay':
        text = open(sys.argv[2]).read()
        prop = re.search(r'(?m)^prop (\S+)', text).group(1)
        parts = [p for c in CHECKS.values() for p in c['parts'] if p['prop'] == prop]
        parts = (parts if len(sys.argv) < 4 else [p for p in parts if p['mode'] == sys.argv[3]])[:1]
        bins, app = prepare(parts)
        scratch = tempfile.mkdtemp(prefix='tqv_')
        try:
            b = bins[(parts[0]['harness'], parts[0].get('mode', 'plain'))]
            return subprocess.run([b, 'replay', sys.argv[2], '60'], env=part_env(parts[0], environment(app, scratch))).returncode
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    chk = CHECKS[pid]
    t0 = time.time()
    bins, app = prepare(chk['parts'])
    t_build = time.time() - t0
    scratch = tempfile.mkdtemp(prefix='tqv_')
    rdir = os.path.join(VERIF, 'evidence', 'replay', pid)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    env = environment(app, scratch)
    # a slow machine cuts the exploration short, not the answer
    limit = 600 if tier == 'quick' else 6 * 3600
    kf = known_findings()
    ev, hashes, samples, parts_ev, violations, unconfirmed = 0, set(), [], {}, [], 0
    try:
        # known findings: show each one that is still there
        for f in kf['findings']:
            if f['property'] != pid:
                continue
            part = next(p for p in chk['parts'] if p['prop'] == f['prop'])
            b = bins[(part['harness'], part.get('mode', 'plain'))]
            rp = os.path.join(VERIF, f['replay'])
            r = subprocess.run([b, 'replay', rp, str(part.get('cpu', 60))], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace')
            if r.returncode == 1:
                log('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
        for i, part in enumerate(chk['parts']):
            b = bins[(part['harness'], part.get('mode', 'plain'))]
            penv = part_env(part, env)
            penv['PBT_DEADLINE'] = str(int(time.time() + max(20, (t0 + limit - time.time()) / (len(chk['parts']) - i))))
            res = run_part(part, b, penv, seed, tier, scratch, rdir)
            ev += res['total']
            hashes |= {part['prop'].encode() + h for h in res['hashes']}
            samples += ['[%s] %s' % (part['prop'], s) for s in res['samples'][:3]]
            pname = part['prop'] + ('' if part.get('mode', 'plain') == 'plain' else '/' + part['mode'])
            parts_ev[pname] = {k: res[k] for k in ('requested', 'total', 'discarded', 'trivial', 'nontrivial')}
            parts_ev[pname]['classes'] = dict(sorted(res['labels'].items()))
            parts_ev[pname]['failures'] = len(res['failures'])
            for f in sorted(res['failures'], key=lambda f: f['case']):
                if part.get('only') and f['key'] not in part['only']:
                    continue        # the subject of another property
                out = confirm(b, f['replay'], penv, part.get('cpu', 60), f['key'])
                if out is None and os.path.exists(f['replay'] + '.orig'):
                    f['replay'] += '.orig'
                    out = confirm(b, f['replay'], penv, part.get('cpu', 60), f['key'])
                if out is None:
                    unconfirmed += 1
                    log('not reproducible, ignored: %s %s' % (f['key'], f['replay']))
                    continue
                violations.append((part['prop'], f))
                if len(violations) >= 2:
                    break
            if violations:
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    wall = time.time() - t0
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': LEVEL,
        'coverage': {
            'evaluations': ev, 'distinct_nontrivial': len(hashes), 'rule': chk['rule'],
            'samples': samples[:8], 'parts': parts_ev,
            'unreproducible_failures_ignored': unconfirmed,
        },
        'assumptions': chk.get('assumptions', []),
        'wall_s': round(wall, 2), 'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', pid + '.json.tmp')
    json.dump(evidence, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', pid + '.json'))
    log('%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1f s, total %.1f s' %
        (pid, tier, seed, ev, len(hashes), t_build, wall))
    for prop, v in parts_ev.items():
        log('  %s: %s' % (prop, json.dumps(v)))
    if violations:
        for prop, f in violations:
            log('  failed: %s [%s] %s' % (prop, f['key'], f['msg'][:600]))
        log('VIOLATION property=%s replay=%s' % (pid, violations[0][1]['replay']))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
