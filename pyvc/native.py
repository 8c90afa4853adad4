"""Runs units on the real, uninstrumented code (no z3 in this process).

usage: native.py CONTRACTS LIB JOBFILE   (results: JSON lines on stdout)
"""
import ast, json, os, random, shutil, signal, sys, tempfile, time, traceback
os.environ['PYVC_NATIVE'] = '1'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


CRUMB = None


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def run_one(u, given, rng, tier, limit=60):
    """-> (status, name, detail, inputs, nchecks)"""
    from pyvc.harness import NativeH, Skip, Fail
    tmp = None
    h = NativeH(given, rng, None, tier)
    h.crumb = CRUMB
    if CRUMB:
        CRUMB.seek(0)
        CRUMB.truncate()
        CRUMB.write(repr(u.name) + '\n')
        CRUMB.flush()
    if u.kw.get('tmp'):
        tmp = tempfile.mkdtemp(prefix='pyvc-t-')
        h.tmp = tmp.encode()
    cwd = os.getcwd()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        u.fn(h)
        return ('ok', '', '', h.inputs, h.checked)
    except Skip:
        return ('skip', '', '', h.inputs, h.checked)
    except Fail as ex:
        return ('fail', ex.name, str(ex.detail)[:2000], h.inputs, h.checked)
    except Timeout:
        return ('fail', 'terminates', f'no result within {limit} s', h.inputs, h.checked)
    except Exception as ex:
        return ('fail', f'no-unexpected-exception:{type(ex).__name__}',
                traceback.format_exc()[-1800:], h.inputs, h.checked)
    finally:
        signal.alarm(0)
        h.close()
        os.chdir(cwd)
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


def main():
    global CRUMB
    contracts, lib, jobfile = sys.argv[1:4]
    CRUMB = open(jobfile + '.cur', 'w')
    sys.path.insert(0, lib)
    with open(jobfile) as f:
        job = json.load(f)
    from pyvc import loader_native
    real_out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    mod = loader_native.load(contracts)
    from pyvc.harness import UNITS
    units = {u.name: u for u in UNITS}

    def emit(**k):
        real_out.write(json.dumps(k) + '\n')
        real_out.flush()
    seed, tier = job.get('seed', 1), job.get('tier', 'quick')
    for item in job['items']:
        u = units[item['unit']]
        if item['kind'] == 'replay':
            given = ast.literal_eval(item['inputs'])
            st, name, det, inp, n = run_one(u, given, random.Random(seed), tier)
            emit(unit=u.name, kind='replay', status=st, name=name, detail=det,
                 inputs=repr(inp), tag=item.get('tag'))
            continue
        # search
        t0 = time.time()
        budget = item.get('budget', 20)
        samples = item.get('samples', u.samples)
        ok = skip = checks = 0
        seen = set()
        fails = {}
        sample = []
        skipkeys = set(tuple(x) for x in item.get('ignore', []))
        part, parts = item.get('part', 0), item.get('parts', 1)

        def sources():
            if u.cases is not None:
                k = 0
                for c in u.cases(tier):
                    if k % parts == part:
                        yield c, random.Random(f'{seed}/{u.name}/case{k}')
                    k += 1
            i = part
            while i < samples:
                yield None, random.Random(f'{seed}/{u.name}/{i}')
                i += parts
        stopped = False
        for given, rng in sources():
            if time.time() - t0 > budget:
                stopped = True
                break
            st, name, det, inp, n = run_one(u, given, rng, tier)
            if st == 'skip':
                skip += 1
                continue
            checks += n
            ok += 1
            r = repr(inp)
            seen.add(hash(r))
            if len(sample) < 2:
                sample.append(r[:300])
            if st == 'fail':
                if name not in fails:
                    fails[name] = dict(name=name, detail=det, inputs=r)
                elif len(r) < len(fails[name]['inputs']):
                    fails[name] = dict(name=name, detail=det, inputs=r)
                fails[name]['n'] = fails[name].get('n', 0) + 1
                if len(fails) >= 5 or fails[name]['n'] > 30:
                    break
        emit(unit=u.name, kind='search', evaluated=ok, skipped=skip, checks=checks,
             distinct=len(seen), fails=list(fails.values()), samples=sample, stopped=stopped,
             wall=round(time.time() - t0, 2))
    emit(kind='done')


if __name__ == '__main__':
    main()
