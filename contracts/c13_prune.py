"""C13: pruning keeps exactly what the retention periods promise."""
import os, subprocess, time
from pyvc import cli
from pyvc.spec import *
from pyvc.harness import unit
from bup.cmd import prune_older
from bup.cmd.prune_older import classify_saves

PROP = 'C13'
NOTE = ('classify_saves is decided for every list of up to 4 saves, whatever their dates, the periods and the calendar, and evaluated on '
        'generated lists of up to 60 in several time zones; whole prune-older runs are compared with what the periods promise on '
        'generated branches: bounded. The text of a period is C25\'s.')
LEVEL = 'other'
LOOPS = {}
TRUSTED = ['itertools.groupby gives the runs of equal keys', 'localtime gives the calendar day (with a stand-in for it any calendar is covered)']

YEAR, MON, DAY = ufn('year', [Int], Int), ufn('mon', [Int], Int), ufn('day', [Int], Int)
KINDS = ('all', 'dailies', 'monthlies', 'yearlies')


class Tm(tuple):
    """what localtime gives"""
    def __new__(cls, y, m, d, n):
        t = super().__new__(cls, (y, m, d))
        t.tm_year, t.tm_mon, t.tm_mday, t.tm_yday = y, m, d, n
        return t


def region(kind, t, calendar):
    y, m, d = calendar(t)
    return {'dailies': (y, m, d), 'monthlies': (y, m), 'yearlies': (y,)}[kind]


def promised(ts, start, calendar):
    """the saves that stay (dates child before parent): a verdict for each"""
    out = []
    ordered = True
    newest = {}
    prev = None
    for t in ts:
        if prev is not None and t > prev:
            ordered = False
        prev = t
        if not ordered:
            out.append(True)
            continue
        for k in KINDS:
            if t >= start[k]:
                break
        else:
            out.append(False)
            continue
        if k == 'all':
            out.append(True)
            continue
        r = (k, *region(k, t, calendar))
        out.append(r not in newest)
        newest[r] = t
    return out


def groups(xs, key):
    """itertools.groupby"""
    out = []
    for x in xs:
        k = key(x)
        if out and bool(out[-1][0] == k):
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
    return out


# --- up to 4 saves, everything else arbitrary
def size(n):
    @unit(f'{n} saves', ['bup.cmd.prune_older:classify_saves', 'bup.helpers:partition'], search=False,
          engine=dict(max_paths=20000))
    def u(h):
        ts = [h.input(f't{i}', Int) for i in range(n)]
        start = {k: h.input(k, Int) for k in KINDS}
        # days are days of the calendar: the day of the year says which day it is, of a year
        for t in ts:
            h.assume(YEAR(t) * 1000 + yday(MON(t), DAY(t)) >= 0)
        for a, b in zip(ts, ts[1:]):
            # time only goes forward
            h.assume(implies(b <= a, date(b) <= date(a)))
        h.stub(time.localtime, lambda t: Tm(YEAR(t), MON(t), DAY(t), yday(MON(t), DAY(t))))
        h.stub(prune_older.localtime, lambda t: Tm(YEAR(t), MON(t), DAY(t), yday(MON(t), DAY(t))))
        h.stub(prune_older.groupby, groups)
        saves = [(t, b'id%d' % i, b'name') for i, t in enumerate(ts)]
        got = list(classify_saves(iter(saves), start))
        h.check(len(got) == n, 'one verdict for each save')
        alive = True
        for i in range(n):
            keep, s = got[i]
            h.check(s is saves[i] or s == saves[i], 'in order')
            if alive and i > 0 and bool(ts[i] > ts[i - 1]):
                alive = False
            if not alive:
                h.check(keep is True, 'a save that is newer than its child stays, with all before it')
                continue
            kind = next((k for k in KINDS if bool(ts[i] >= start[k])), None)
            if kind is None:
                h.check(keep is False, 'a save outside all periods goes')
            elif kind == 'all':
                h.check(keep is True, 'a save in the keep-all period stays')
            else:
                before = next((k for k in KINDS if bool(ts[i - 1] >= start[k])), None) if i else None
                first = before != kind or not same(kind, ts[i], ts[i - 1])
                h.check(keep is bool(first), 'of each day, month and year the newest stays, it alone')


def yday(m, d):
    return m * 31 + d


def date(t):
    return (YEAR(t) * 13 + MON(t)) * 32 + DAY(t)


def same(kind, a, b):
    if YEAR(a) != YEAR(b):
        return False
    if kind == 'yearlies':
        return True
    if MON(a) != MON(b):
        return False
    return kind == 'monthlies' or bool(DAY(a) == DAY(b))


for n_ in range(5):
    size(n_)


# --- native
ZONES = ['UTC', 'America/New_York', 'Pacific/Auckland', 'Asia/Kolkata', 'XXX-14', 'YYY+12']
DAY_S = 86400


def gen_times(r, n):
    now = r.choice([1700000000, 951782400, 86400 * 365, 0])
    out = []
    t = now
    for _ in range(n):
        out.append(t)
        t -= r.choice([0, 1, 3600, 7200, DAY_S - 1, DAY_S, DAY_S + 1, 28 * DAY_S, 30 * DAY_S, 31 * DAY_S, 365 * DAY_S, 366 * DAY_S,
                       2 * 365 * DAY_S, r.randint(0, 3 * DAY_S), r.randint(0, 400 * DAY_S)])
    if r.random() < .25 and n > 1:
        i = r.randrange(1, n)
        out[i] = out[i] + r.choice([1, DAY_S, 500 * DAY_S])
    return now, out


def gen_case(r):
    now, ts = gen_times(r, r.choice([0, 1, 2, 3, 5, 20, 60]))
    span = (max(ts) - min(ts) if ts else 0) + 10
    start = {}
    for k in KINDS:
        x = r.random()
        if x < .35:
            continue
        start[k] = float('-inf') if x < .45 else (r.choice(ts) + r.choice([0, 0, 1, -1]) if ts and x < .7 else now - r.randint(0, span))
    return dict(zone=r.choice(ZONES), ts=ts, start=start)


def in_zone(zone, fn):
    old = os.environ.get('TZ')
    os.environ['TZ'] = zone
    time.tzset()
    try:
        return fn()
    finally:
        if old is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = old
        time.tzset()


def calendar(t):
    return tuple(int(x) for x in time.strftime('%Y %m %d', time.localtime(t)).split())


@unit('classify_saves', ['bup.cmd.prune_older:classify_saves', 'bup.helpers:partition'], prove=False, samples=2500)
def u_native(h):
    from collections import defaultdict
    w = h.any('case', gen_case)

    def go():
        start = defaultdict(lambda: float('inf'), w['start'])
        saves = [(t, b'%d' % i, b'n%d' % i) for i, t in enumerate(w['ts'])]
        got = list(classify_saves(iter(saves), start))
        h.check([s for _, s in got] == saves, 'one verdict for each save, in order')
        h.check([k for k, _ in got] == promised(w['ts'], start, calendar), 'the newest of each day, month and year stays',
                detail=repr(got))
    in_zone(w['zone'], go)


def branch(repo, name, times, offset=b'+0000'):
    """a history with these author dates, oldest first"""
    s = b'blob\nmark :1\ndata 1\nx\n'
    for i, t in enumerate(times):
        s += b'commit refs/heads/%s\nmark :%d\nauthor A <a@b> %d %s\ncommitter C <c@d> %d %s\ndata %d\n%s\n' % (
            name, i + 2, t, offset, 10**9 + i, offset, len(b'm%d' % i), b'm%d' % i)
        if i:
            s += b'from :%d\n' % (i + 1)
        s += b'M 100644 :1 f%d\n\n' % i
    p = subprocess.run(['git', '--git-dir', os.fsdecode(repo), 'fast-import', '--quiet', '--force'], input=s, capture_output=True)
    assert p.returncode == 0, p.stderr


def git(repo, *a):
    p = subprocess.run(['git', '--git-dir', os.fsdecode(repo), *a], capture_output=True)
    return p.stdout if p.returncode == 0 else None


def dates(repo, name):
    o = git(repo, 'log', '--format=%at %s', os.fsdecode(b'refs/heads/' + name), '--')
    return None if o is None else [tuple(x.split()) for x in o.splitlines()]


PERIODS = {'s': 1, 'min': 60, 'h': 3600, 'd': DAY_S, 'w': 7 * DAY_S, 'm': 31 * DAY_S, 'y': 366 * DAY_S}


@unit('prune-older', ['bup.cmd.prune_older:main', 'bup.cmd.prune_older:classify_saves', 'bup.cmd.prune_older:branches'], prove=False,
      samples=6, tmp=True, weight=3)
def u_cli(h):
    r, t = h.rng, h.tmp
    repo = t + b'/b'
    e = {b'BUP_DIR': repo, b'TZ': r.choice(ZONES).encode()}
    rc, o, x = cli.bup(['init'], e)
    h.check(rc == 0, 'init', detail=repr(x))
    names = r.sample([b'main', b'other', b'x-y', b'refs', b'main2', b'2020-01-01-000000'], 3)
    have = {}
    for n in names:
        now, ts = gen_times(r, r.choice([1, 2, 6, 15]))
        ts = [abs(x) for x in ts]
        branch(repo, n, list(reversed(ts)))
        have[n] = dates(repo, n)
        h.check([int(a) for a, _ in have[n]] == ts, 'the branch is as made')
    wrt = max(int(a) for n in names for a, _ in have[n]) + r.choice([0, 1, 1000, DAY_S])
    args, start = [], {k: float('inf') for k in KINDS}
    for k in r.sample(KINDS, r.randint(1, 4)):
        if r.random() < .15:
            p, s = 'forever', float('inf')
        else:
            u = r.choice(list(PERIODS))
            m = max(1, r.choice([1, 2, 3, 10, 1000, 10**9]) // (1 if PERIODS[u] < DAY_S else 100))
            p, s = f'{m}{u}', m * PERIODS[u]
        args += [f'--keep-{k}-for', p]
        start[k] = wrt - s
    which = names if r.random() < .4 else r.sample(names, r.randint(1, 2))
    given = [] if which == names and r.random() < .5 else which

    def go(n):
        return promised([int(a) for a, _ in have[n]], start, calendar)
    verdict = {n: in_zone(os.fsdecode(e[b'TZ']), lambda: go(n)) for n in which}
    cmd = ['prune-older', '--unsafe', '--wrt', str(wrt), *args]
    # nothing is removed without a period, or without --unsafe, or when only pretending
    for c, ok in ((['prune-older', '--unsafe', '--wrt', str(wrt), *given], False), (['prune-older', *args, *given], False),
                  ([*cmd, '--pretend', *given], True)):
        rc, o, x = cli.bup(c, e)
        h.check((rc == 0) == ok, 'refused' if not ok else 'pretends', detail=repr((c, rc, x[-800:])))
        h.check({n: dates(repo, n) for n in names} == have, 'nothing is removed')
    plan = o.splitlines()
    h.check(sorted((y[:1] == b'+', y[2:].split(b'/')[0]) for y in plan) == sorted((v, n) for n in which for v in verdict[n]),
            'what it would do', detail=repr((plan, verdict)))
    rc, o, x = cli.bup([*cmd, *(['--no-gc'] if r.random() < .6 else []), *given], e)
    h.check(rc == 0, 'works', detail=repr((cmd, rc, x[-1500:])))
    for n in names:
        want = [d for d, v in zip(have[n], verdict.get(n, [True] * len(have[n]))) if v]
        h.check((dates(repo, n) or []) == want, 'exactly the promised saves stay', detail=repr((n, cmd, have[n], want, dates(repo, n))))
