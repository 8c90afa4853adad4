"""Decide one property: run.py CONTRACTFILE [--tier quick|thorough] [--replay FILE]"""
import ast, json, multiprocessing, os, pickle, shutil, subprocess, sys, tempfile, time, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from pyvc import build, loader

PY = '/usr/bin/python3.12'
NCPU = os.cpu_count() or 4
TMO = 'solver timeout or unknown'


def prove_unit(u, tier, deadline):
    from pyvc.engine import Engine, unpatch_all
    from pyvc.solve import discharge
    import z3
    t0 = time.time()
    tmo = u.timeout * (3 if tier == 'thorough' else 1)
    kw = u.kw.get('engine', {})
    eng = Engine(u.name, deadline=time.time() + u.kw.get('explore', 120), **kw)
    try:
        eng.explore(u.fn)
    finally:
        unpatch_all()
    t1 = time.time()
    res = []
    bad = 0
    for o in eng.obls:
        if time.time() > deadline:
            o.status, o.reason = 'undecided', 'check deadline'
        elif bad >= 4 and not o.status:
            o.status, o.reason = 'undecided', 'skipped after other failures'
        else:
            discharge(o, tmo, u.kw.get('fuel', 2), u.kw.get('cvc5', None))
        if o.status != 'proved':
            bad += 1
    # a timeout gets a second, longer chance before it counts as a failed obligation
    for o in [o for o in eng.obls if o.status == 'undecided' and o.reason == TMO][:6]:
        left = deadline - time.time()
        if left < 30:
            o.reason = 'check deadline'
            continue
        t = time.time()
        o.status = None
        discharge(o, int(min(left, max(45, 4 * tmo))), u.kw.get('fuel', 2))
        if o.status == 'undecided' and o.reason == TMO:
            o.reason = TMO + ' (twice)'
    for o in eng.obls:
        res.append(dict(name=o.name, status=o.status, backend=o.backend, time=round(o.time, 3),
                        model=None if o.model is None else repr(o.model), havoc=o.havoc,
                        kind=o.kind, reason=o.reason))
    return dict(unit=u.name, obls=res, paths=eng.paths, completed=eng.completed,
                limits=eng.limits[:10], bounded=sorted(set(eng.bounded)), explore=round(t1 - t0, 2),
                wall=round(time.time() - t0, 2), covers={k: bool(v) for k, v in eng.covers.items()})


def _child(conn, u, tier, deadline):
    try:
        r = prove_unit(u, tier, deadline)
    except BaseException as ex:
        r = dict(unit=u.name, obls=[], paths=0, completed=0,
                 limits=['prover error: ' + traceback.format_exc()[-600:]], bounded=[], explore=0,
                 wall=0, covers={})
    conn.send(r)
    conn.close()
    os._exit(0)


def prove_all(units, tier, deadline, jobs):
    ctx = multiprocessing.get_context('fork')
    todo = sorted(units, key=lambda u: -u.kw.get('cost', 1))
    run, out = [], []
    while todo or run:
        while todo and len(run) < jobs:
            u = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, u, tier, deadline))
            p.start()
            b.close()
            run.append((u, p, a))
        still = []
        for u, p, a in run:
            if a.poll(0.02):
                try:
                    out.append(a.recv())
                except EOFError:
                    out.append(dict(unit=u.name, obls=[], paths=0, completed=0,
                                    limits=['prover process died'], bounded=[], explore=0, wall=0,
                                    covers={}))
                p.join()
            elif time.time() > deadline + 30:
                p.kill()
                out.append(dict(unit=u.name, obls=[], paths=0, completed=0, limits=['deadline'],
                                bounded=[], explore=0, wall=0, covers={}))
            else:
                still.append((u, p, a))
        run = still
    return out


def native_start(contracts, lib, items, tier, seed, work):
    fd, job = tempfile.mkstemp(suffix='.json', dir=work)
    with os.fdopen(fd, 'w') as f:
        json.dump(dict(items=items, seed=seed, tier=tier), f)
    env = dict(os.environ, PYVC_NATIVE='1', PYTHONPATH='', PYTHONDONTWRITEBYTECODE='1',
               PYVC_SCRATCH=os.path.dirname(lib), HOME=work, BUP_DIR=work + '/no-such-repo',
               GIT_CONFIG_NOSYSTEM='1', TZ='UTC', LC_ALL='C.UTF-8')
    errf = open(job + '.err', 'w')
    return subprocess.Popen([PY, '-I', f'{VERIF}/pyvc/native.py', contracts, lib, job],
                            stdout=subprocess.PIPE, stderr=errf, env=env, cwd=work, text=True,
                            start_new_session=True), job


def native_results(p, job, limit):
    try:
        out, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
    rs = []
    for l in out.splitlines():
        try:
            rs.append(json.loads(l))
        except ValueError:
            pass
    done = any(r.get('kind') == 'done' for r in rs)
    err = ''
    if not done:
        with open(job + '.err') as f:
            err = f.read()[-1500:]
        try:
            with open(job + '.cur') as f:
                ls = f.read().split('\n')
            un = ast.literal_eval(ls[0])
            inp = dict(ast.literal_eval(l) for l in ls[1:] if l)
            if p.returncode and p.returncode < 0 and p.returncode != -9:
                fail = dict(name='no-crash', detail=f'process died with signal {-p.returncode}: '
                            + err[-500:], inputs=repr(inp))
                rs.append(dict(unit=un, kind='search', evaluated=1, skipped=0, checks=1, distinct=1,
                               fails=[fail], samples=[], stopped=True, status='fail', tag=0, **fail))
                err, done = '', True
        except (OSError, ValueError, SyntaxError):
            pass
    return [r for r in rs if r.get('kind') != 'done'], done, err


def run_cbmc(jobs, d, tier):
    from pyvc import cbmc
    return cbmc.run_jobs(jobs, d, tier)


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('contracts')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--unit', action='append')
    ap.add_argument('--no-native', action='store_true')
    ap.add_argument('--no-prove', action='store_true')
    ap.add_argument('-v', action='store_true')
    opt = ap.parse_args()
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    tier = 'thorough' if opt.tier == 'thorough' else 'quick'
    t0 = time.time()
    contracts = os.path.abspath(opt.contracts)
    lits = loader.contract_literals(contracts)
    prop = lits['PROP']
    work = tempfile.mkdtemp(prefix=f'pyvc-{prop}-')
    rc = 0
    try:
        rc = decide(opt, contracts, lits, prop, work, tier, seed, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def known_findings(prop):
    p = f'{VERIF}/known_findings.json'
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings']
                if k['property'] == prop and k['status'] == 'known']


def decide(opt, contracts, lits, prop, work, tier, seed, t0):
    budget = lits.get('BUDGET', {}).get(tier, 200 if tier == 'quick' else 780)
    deadline = t0 + budget
    d = f'{work}/src'
    os.mkdir(d)
    try:
        build.scratch_build(d)
    except RuntimeError as ex:
        print(f'cannot build: {ex}')
        return 2
    lib = f'{d}/lib'
    os.environ['PYVC_SCRATCH'] = d
    os.environ['HOME'] = work

    if opt.replay:
        with open(opt.replay) as f:
            rp = json.load(f)
        if not rp.get('inputs'):
            print(json.dumps(rp, indent=1))
            return 1
        p, job = native_start(contracts, lib, [dict(kind='replay', unit=rp['unit'],
                                                    inputs=rp['inputs'])], tier, seed, work)
        rs, done, err = native_results(p, job, 300)
        for r in rs:
            print(json.dumps(r, indent=1))
        return 1 if any(r['status'] == 'fail' for r in rs) else 0

    # the symbolic process: instrumented modules from the scratch copy
    loader.install(lib, {m: set(q) for m, q in lits.get('LOOPS', {}).items()})
    from pyvc import spec, harness, engine
    prover_error = ''
    try:
        mod = loader.load_contracts(contracts, 'contracts_mod', True)
        for k in ('CBMC', 'TRUSTED', 'ASSUME', 'EXPLAIN'):
            if hasattr(mod, k):
                lits[k] = getattr(mod, k)
    except Exception:
        prover_error = traceback.format_exc()[-1500:]
    units = list(harness.UNITS)
    if opt.unit:
        units = [u for u in units if u.name in opt.unit]
    if not opt.unit or 'lemmas' in opt.unit:
        for l in getattr(spec, '_lemmas', []):
            units.append(harness.Unit(l.prove, f'lemma:{l.name}', ['lemma'], True, False, 0, None,
                                      20, {}))
    punits = [u for u in units if u.prove]
    sunits = [u for u in units if u.search]

    # native search in the background
    procs = []
    njobs = max(2, NCPU // 2 if punits else NCPU)
    if prover_error:
        # unit names are still needed: the native process reports them
        print('prover could not load the code:', prover_error)
    if not opt.no_native and sunits:
        sb = lits.get('SEARCH', {}).get(tier, 45 if tier == 'quick' else 400)
        mult = 1 if tier == 'quick' else 10
        weights = sum(u.kw.get('weight', 1) for u in sunits)
        for part in range(njobs):
            items = [dict(kind='search', unit=u.name, part=part, parts=njobs,
                          samples=u.samples * mult,
                          budget=max(2, sb * u.kw.get('weight', 1) / weights))
                     for u in sunits]
            procs.append(native_start(contracts, lib, items, tier, seed, work))
    cb = []
    cbjobs = [j for j in lits.get('CBMC', []) if not opt.unit or j['name'] in opt.unit]
    if cbjobs and not opt.no_prove:
        from pyvc import cbmc
        cbh = cbmc.start(cbjobs, d, tier, work, max(2, NCPU // 2))
    pres = [] if opt.no_prove else prove_all(punits, tier, deadline, max(2, NCPU // 2))
    if cbjobs and not opt.no_prove:
        cb = cbmc.finish(cbh)

    searches = {}
    native_err = ''
    for p, job in procs:
        rs, done, err = native_results(p, job, max(30, deadline - time.time() + 60))
        if not done:
            native_err = err or 'native process killed'
        for r in rs:
            s = searches.setdefault(r['unit'], dict(evaluated=0, skipped=0, checks=0, distinct=0,
                                                    fails=[], samples=[], stopped=False))
            for k in ('evaluated', 'skipped', 'checks', 'distinct'):
                s[k] += r[k]
            s['fails'] += r['fails']
            s['samples'] = (s['samples'] + r['samples'])[:2]
            s['stopped'] |= r['stopped']

    # obligations
    allobl, refuted, undecided = [], [], []
    for r in pres:
        u = [x for x in units if x.name == r['unit']][0]
        for o in r['obls']:
            o['unit'] = r['unit']
            allobl.append(o)
            if o['status'] == 'refuted':
                refuted.append(o)
            elif o['reason'] == TMO + ' (twice)':
                refuted.append(o)          # not accepted by the verifier: a failed obligation
            elif o['status'] == 'undecided':
                undecided.append(o)
        if r['limits']:
            undecided.append(dict(unit=r['unit'], name='translation', status='undecided',
                                  reason='; '.join(r['limits'])[:600], model=None))
        elif not r['completed'] or not r['obls']:
            undecided.append(dict(unit=r['unit'], name='vacuity', status='undecided',
                                  reason='no path completes', model=None))
        for k, v in r['covers'].items():
            if not v:
                undecided.append(dict(unit=r['unit'], name=f'cover {k}', status='undecided',
                                      reason='unreachable', model=None))
    for c in cb:
        for o in c['obls']:
            allobl.append(o)
            if o['status'] == 'refuted':
                refuted.append(o)
            elif o['status'] != 'proved':
                undecided.append(o)
        if c.get('error'):
            undecided.append(dict(unit=c['name'], name='cbmc', status='undecided',
                                  reason=c['error'], model=None))
    # replay counterexamples
    violations = []
    known = known_findings(prop)
    rep = [o for o in refuted + undecided if o.get('model') and
           any(u.name == o['unit'] and u.search for u in units)]
    if rep and not opt.no_native:
        p, job = native_start(contracts, lib, [dict(kind='replay', unit=o['unit'],
                                                    inputs=o['model'], tag=i)
                                               for i, o in enumerate(rep[:40])], tier, seed, work)
        rs, done, err = native_results(p, job, 200)
        for r in rs:
            o = rep[r['tag']]
            o['replayed'] = r['status']
            if r['status'] == 'fail':
                violations.append(dict(unit=r['unit'], check=r['name'], detail=r['detail'],
                                       inputs=r['inputs'], obligation=o['name'],
                                       source='counterexample of the failed obligation, replayed'))
    for un, s in searches.items():
        for f in s['fails']:
            violations.append(dict(unit=un, check=f['name'], detail=f['detail'],
                                   inputs=f['inputs'], obligation=f['name'],
                                   source='contract evaluated on the real code'))
    kf, real = [], []
    for v in violations:
        m = [k for k in known if k['unit'] == v['unit'] and k['check'] == v['check']]
        if m:
            if m[0] not in kf:
                kf.append(m[0])
        else:
            real.append(v)
    known_units = {k['unit'] for k in known}
    for o in refuted:
        if o['unit'] in known_units and any(k['unit'] == o['unit'] and k['check'] == o['name']
                                            for k in known):
            o['known'] = True
            continue
        if not any(v['unit'] == o['unit'] for v in real):
            if o.get('replayed') == 'ok' and False:
                continue
            real.append(dict(unit=o['unit'], check=o['name'], obligation=o['name'], inputs=None,
                             detail=f"{o['status']} {o['backend']}; candidate inputs "
                                    f"{o.get('model')}; path {o.get('reason', '')}",
                             source='failed obligation'))
    # report
    for u in ([r for r in pres] if opt.v else []):
        print(f"  {u['unit']}: paths {u['paths']} completed {u['completed']} obligations "
              f"{len(u['obls'])} proved {sum(o['status'] == 'proved' for o in u['obls'])} "
              f"explore {u['explore']}s wall {u['wall']}s limits {u['limits']} "
              f"bounded {u['bounded']}")
        for o in u['obls']:
            if o['status'] != 'proved' or o['time'] > 3:
                print('     ', o['status'], o['name'], o['backend'], o['time'], o['reason'][:200],
                      (o['model'] or '')[:200])
    if opt.v:
        for un, s in searches.items():
            print(f"  search {un}: {s['evaluated']} evaluated, {s['distinct']} distinct, "
                  f"{s['skipped']} skipped, stopped={s['stopped']} fails="
                  f"{[(f['name'], f['inputs'][:200], f['detail'][-300:]) for f in s['fails'][:1]]}")
        for c in cb:
            print('  cbmc', c['name'], c['wall'], c.get('error', ''),
                  sum(o['status'] == 'proved' for o in c['obls']), '/', len(c['obls']))
    if native_err:
        print('native process problem:', native_err)
    for k in kf:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for o in undecided[:6]:
        print(f"UNDECIDED {o['unit']}: {o['name']}: {o['reason']}"[:400])
    nproved = sum(o['status'] == 'proved' for o in allobl)
    evals = sum(s['evaluated'] for s in searches.values())
    print(f'{prop}: {nproved}/{len(allobl)} obligations discharged, '
          f'{len(refuted)} failed, {len(undecided)} undecided; {evals} contract evaluations '
          f'on the real code; {time.time() - t0:.1f}s')
    rc = 0
    if real:
        seen = set()
        real.sort(key=lambda v: (v['inputs'] is None, len(v['inputs'] or '')))
        if not any(v['inputs'] is not None for v in real):
            real = real[:1]
        else:
            real = [v for v in real if v['inputs'] is not None]
        for v in real:
            if v['unit'] in seen:
                continue
            seen.add(v['unit'])
            path = f'{VERIF}/evidence/replay-{prop}-{len(seen)}.json'
            os.makedirs(os.path.dirname(path), exist_ok=True)
            v['contracts'] = os.path.relpath(contracts, VERIF)
            v['how'] = f'python3-vt pyvc/run.py {v["contracts"]} --replay {path}'
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            tail = '' if v['inputs'] is not None else ' no-failing-input-found'
            print(f"  {v['unit']}: {v['check']} {v['inputs'] or ''} {v['detail'][-300:]}"[:700])
            print(f'VIOLATION property={prop} replay={path}{tail}')
        rc = 1
    if native_err and not real:
        rc = 2
    funcs = sorted({f for u in units for f in u.funcs if u.prove} |
                   {f for c in cbjobs for f in c.get('funcs', [])})
    bfuncs = sorted({f for u in units for f in u.funcs if u.search and not u.prove})
    by = {}
    for o in allobl:
        if o['status'] == 'proved':
            by[o['backend']] = by.get(o['backend'], 0) + 1
    level = lits.get('LEVEL', 'proof')
    cov = dict(
        obligations=len(allobl), discharged=nproved,
        checker_cmd=f'python3-vt pyvc/run.py contracts/{os.path.basename(contracts)} -v',
        trusted_base=lits.get('TRUSTED', []) + BASE_TRUST,
        functions_under_contract=funcs, discharged_by=by,
        solver_time_s=round(sum(o['time'] for o in allobl), 2),
        obligation_names=sorted({f"{o['unit']}: {o['name']}" for o in allobl})[:400],
        undecided=[f"{o['unit']}: {o['name']}: {o['reason']}"[:300] for o in undecided],
        bounded_units={r['unit']: r['bounded'] for r in pres if r['bounded']},
        bounded_standins=bfuncs,
        evaluations=evals,
        distinct_nontrivial=sum(s['distinct'] for s in searches.values()),
        rule=('each evaluation runs one unit: inputs from the unit generator or case list, '
              'precondition holds, the unit\'s postconditions evaluated on the real code; '
              'distinct by input values'),
        samples=[x for s in searches.values() for x in s['samples']][:12],
        search={un: {k: s[k] for k in ('evaluated', 'distinct', 'skipped', 'stopped')}
                for un, s in searches.items()},
        explanation=lits.get('EXPLAIN', ''),
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=lits.get('ASSUME', []), wall_s=round(time.time() - t0, 2),
              violations=len(real))
    os.makedirs(f'{VERIF}/evidence', exist_ok=True)
    if not opt.unit:
        with open(f'{VERIF}/evidence/{prop}.json', 'w') as f:
            json.dump(ev, f, indent=1)
    if rc == 0 and not allobl and not evals:
        print('nothing was checked')
        return 2
    return rc


BASE_TRUST = [
    'pyvc: instrumentation, path exploration and the models of Python builtins '
    '(pyvc/instrument.py, engine.py, models.py), cross-checked against CPython by pyvc/selftest.py',
    'z3 5.3.2 and cvc5 1.1.2',
    'CPython 3.12 executes the control flow of the instrumented code',
]

if __name__ == '__main__':
    main()
