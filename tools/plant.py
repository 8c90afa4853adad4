#!/usr/bin/env python3
"""plant.py make SPEC.py        write /verif/seeded/<id>/ from edits (a list PLANTS)
plant.py check ID... [--tests] [--no-check]   confirm a planted bug in a scratch copy of /repo, and
                               run the check of its property against it (tools for authors; no check uses it)"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PATH='/opt/vp/bin:' + os.environ['PATH'], BUP_PYTHON_CONFIG='/usr/bin/python3.12-config',
           BUP_TEST_RANDOM_SEED='1', BUP_TEST_SEED='1', LANG='C.UTF-8', LC_ALL='C.UTF-8', HOME='/root')


def sh(cmd, cwd, timeout=900, **k):
    try:
        return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout, errors='replace', **k)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, '', 'timeout')


def make(spec):
    for p in runpy.run_path(spec)['PLANTS']:
        d = f"{V}/seeded/{p['id']}"
        t = tempfile.mkdtemp(prefix='plant-')
        try:
            for f in {e[0] for e in p['edits']}:
                for side in 'ab':
                    os.makedirs(os.path.dirname(f'{t}/{side}/{f}'), exist_ok=True)
                    shutil.copy(f'/repo/{f}', f'{t}/{side}/{f}')
            for f, old, new in p['edits']:
                s = open(f'{t}/b/{f}').read()
                assert s.count(old) == 1, (p['id'], f, s.count(old), old)
                open(f'{t}/b/{f}', 'w').write(s.replace(old, new))
            diff = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=t, capture_output=True, text=True).stdout
            os.makedirs(d, exist_ok=True)
            open(f'{d}/patch.diff', 'w').write(diff)
            open(f'{d}/demo.sh', 'w').write(p['demo'] if p['demo'].startswith('#!') else
                '#!/bin/bash\n# exits 0 when the property holds\nexport PYTHONPATH="$PWD/lib" PYTHONDONTWRITEBYTECODE=1\n'
                'T=$(mktemp -d)\ntrap \'rm -rf "$T"\' EXIT\nexport T\n/usr/bin/python3.12 - <<\'PY\'\n' + p['demo'].strip('\n') + '\nPY\n')
            os.chmod(f'{d}/demo.sh', 0o755)
            json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
        finally:
            shutil.rmtree(t)


def check(pid, tests, docheck):
    d = f'{V}/seeded/{pid}'
    prop = json.load(open(f'{d}/meta.json'))['property']
    t = tempfile.mkdtemp(prefix=f'plant-{pid}-')
    c = t + '/repo'
    out = [pid, prop]
    try:
        subprocess.run(['cp', '-a', '/repo', c], check=True)
        demo = t + '/demo'
        shutil.copytree(d, demo)
        r = sh(['bash', demo + '/demo.sh'], c, 300)
        out.append('demo-clean=%d' % r.returncode)
        if r.returncode:
            out.append((r.stdout + r.stderr)[-600:])
        r = sh(['git', 'apply', d + '/patch.diff'], c)
        if r.returncode:
            return out + ['APPLY FAILED ' + r.stderr]
        r = sh(['make', '-j4', 'lib/bup/_helpers.so'], c)
        if r.returncode:
            return out + ['BUILD FAILED ' + r.stderr[-500:]]
        r = sh(['bash', demo + '/demo.sh'], c, 300)
        out.append('demo-patched=%d' % r.returncode)
        if not r.returncode:
            out.append((r.stdout + r.stderr)[-600:])
        if tests:
            ENV2 = dict(ENV, BUP_TEST_OTHER_BUP='/usr/bin/bup')
            ENV2['PATH'] = c + '/dev/shadow-bin:' + ENV['PATH']
            r = subprocess.run(['timeout', '900', './pytest', '-q', '-p', 'no:cacheprovider', '-n', '6', '--timeout=300',
                                '--ignore=test/ext/test-fuse', 'test/int', 'test/ext'],
                               cwd=c, env=ENV2, capture_output=True, text=True, errors='replace')
            stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
            bad = re.findall(r'^(?:FAILED|ERROR) (\S+)', r.stdout, re.M)
            norm = lambda b: b.replace('.py', '').rstrip(':').replace('/', '.')
            # (these two fail in any copy outside /repo)
            bad = [b for b in bad if norm(b) in stable and 'test_index_basic' not in b]
            out.append('tests:' + (','.join(bad) or 'pass') + ' ' + ''.join(r.stdout.strip().splitlines()[-1:]))
        if docheck:
            m = json.load(open(f'{V}/MANIFEST.json'))
            cmd = [x for x in m['checks'] if x['property'] == prop]
            if not cmd:
                return out + ['no check']
            cmd = cmd[0]['quick_cmd']
            w = t + '/verif'
            subprocess.run(['cp', '-a', V, w], check=True)
            t0 = time.time()
            r = subprocess.run(cmd, shell=True, cwd=w, env=dict(os.environ, PYVC_REPO=c, VERIF_SEED='1', VERIF_TIER='quick'),
                               capture_output=True, text=True, errors='replace')
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            i = [l for l in r.stdout.splitlines() if not l.startswith('VIOLATION')]
            out.append(f'check exit={r.returncode} {time.time() - t0:.0f}s {v[:2]} :: ' + ' | '.join(x[:130] for x in i[:3]))
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return out


if sys.argv[1] == 'make':
    for s in sys.argv[2:]:
        make(s)
else:
    for a in sys.argv[2:]:
        if not a.startswith('--'):
            print(*check(a, '--tests' in sys.argv, '--no-check' not in sys.argv), flush=True)
