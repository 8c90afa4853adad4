"""CBMC jobs on the real C sources (harness files #include them)."""
import json, os, subprocess, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def dfcc(job, gb, inc, defs, lim):
    """function contracts and loop contracts enforced by goto-instrument --dfcc: no bound.
    The loop contracts are in a file of their own, so that the source is the one that runs."""
    def run(cmd):
        r = subprocess.run(['timeout', str(lim)] + cmd, capture_output=True, text=True)
        if r.returncode:
            return f'{cmd[0]}: ' + (r.stdout + r.stderr)[-400:]
    f = job['dfcc']
    src = f"{VERIF}/cbmc/{job['harness']}"
    e = run(['goto-cc', *inc, *defs, '--function', job['function'], src, '-o', gb]) or \
        run(['goto-instrument', '--drop-unused-functions', gb, gb + '1'])
    if not e and f.get('unwindset'):
        e = run(['goto-instrument', '--unwindset', f['unwindset'], '--unwinding-assertions',
                 gb + '1', gb + '1'])
    if e:
        return e
    cmd = ['goto-instrument', '--dfcc', job['function'], '--enforce-contract', f['enforce']]
    for x in f.get('replace', []):
        cmd += ['--replace-call-with-contract', x]
    if f.get('loops'):
        with open(gb + '.json', 'w') as o:
            json.dump({'sources': [os.path.basename(src)],
                       'functions': [{k: v} for k, v in f['loops'].items()],
                       'output': 'OUTPUT'}, o)
        cmd += ['--loop-contracts-file', gb + '.json', '--apply-loop-contracts']
    return run(cmd + [gb + '1', gb])


def one(job, d, tier, work):
    t0 = time.time()
    res = dict(name=job['name'], obls=[], wall=0)
    gb = f"{work}/{job['name'].replace('/', '_')}.gb"
    inc = ['-I/usr/include/python3.12', f'-I{d}/src', f'-I{d}/lib/bup', f'-I{d}',
           f'-I{VERIF}/cbmc']
    defs = ['-D_FILE_OFFSET_BITS=64', '-D_DEFAULT_SOURCE', '-DNDEBUG', '-DPYVC_CBMC=1',
            '-DBUP_RL_EXPECTED_XOPEN_SOURCE=600'] + job.get('defs', [])
    try:
        r = subprocess.run(['goto-cc', *inc, *defs, '-c', f"{VERIF}/cbmc/{job['harness']}",
                            '-o', gb], capture_output=True, text=True, timeout=120)
        if r.returncode:
            res['error'] = 'goto-cc: ' + (r.stdout + r.stderr)[-500:]
            return res
        lim = job.get('timeout', 150) * (4 if tier == 'thorough' else 1)
        unwind = job.get('unwind_thorough', job.get('unwind')) if tier == 'thorough' \
            else job.get('unwind')
        if job.get('dfcc'):
            res['error'] = dfcc(job, gb, inc, defs, lim)
            if res['error']:
                return res
            del res['error']
        cmd = ['cbmc', gb] + ([] if job.get('dfcc') else ['--function', job['function']]) + [
               '--drop-unused-functions',
               '--no-standard-checks', '--bounds-check', '--pointer-check', '--div-by-zero-check',
               '--json-ui', '--slice-formula'] + job.get('args', [])
        if unwind:
            cmd += ['--unwind', str(unwind), '--unwinding-assertions']
        r = subprocess.run(['timeout', str(lim)] + cmd, capture_output=True, text=True)
        if r.returncode == 124:
            res['error'] = f'cbmc timeout after {lim}s'
            return res
        try:
            out = json.loads(r.stdout)
        except ValueError:
            res['error'] = f'cbmc output unreadable (exit {r.returncode}): ' + r.stdout[-300:]
            return res
        n = 0
        for m in out:
            if m.get('messageType') == 'ERROR':
                res['error'] = 'cbmc: ' + m.get('messageText', '')[:400]
            for g in m.get('result', []):
                f = g.get('sourceLocation', {}).get('file', '')
                fn = g.get('sourceLocation', {}).get('function', '')
                # obligations about the real C files and the harness; library models are not ours
                if g['status'] == 'SUCCESS' and not ('lib/bup/' in f or 'src/bup' in f or
                                                     'cbmc/' in f):
                    continue
                st = {'SUCCESS': 'proved', 'FAILURE': 'refuted'}.get(g['status'], 'undecided')
                model = None
                reason = ''
                if st == 'refuted':
                    vals = {}
                    for s in g.get('trace', []):
                        if s.get('stepType') == 'assignment' and \
                                s.get('assignmentType') == 'variable' and \
                                str(s.get('lhs', '')).startswith('in_'):
                            vals[s['lhs']] = s.get('value', {}).get('data')
                    reason = f"{g['description']} at {os.path.basename(f)}:" \
                             f"{g.get('sourceLocation', {}).get('line')} {vals}"
                res['obls'].append(dict(name=f"{g['property']}: {g['description']}"[:160], status=st,
                                        backend='cbmc', time=0, model=None, havoc=[],
                                        kind='cbmc', reason=reason, unit=job['name']))
                n += 1
        if n == 0 and not res.get('error'):
            res['error'] = 'no obligations'
        # vacuity: the harness must reach its last assertion
        if job.get('cover'):
            r2 = subprocess.run(['timeout', str(lim)] + [c for c in cmd if c not in (
                '--unwinding-assertions', '--json-ui')] + ['--cover', 'location'],
                capture_output=True, text=True)
        if res['obls']:
            res['obls'][0]['time'] = round(time.time() - t0, 2)
        return res
    except (OSError, subprocess.TimeoutExpired) as ex:
        res['error'] = str(ex)[:300]
        return res
    finally:
        res['wall'] = round(time.time() - t0, 1)


def start(jobs, d, tier, work, n):
    ex = ThreadPoolExecutor(n)
    return [ex.submit(one, j, d, tier, work) for j in jobs
            if tier == 'thorough' or not j.get('thorough_only')]


def finish(hs):
    return [h.result() for h in hs]
