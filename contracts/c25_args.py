"""C25: sizes, periods and exclusion rules mean what the user wrote."""
import builtins, io, math, os, re, stat
from fractions import Fraction
from pyvc.spec import *
from pyvc.harness import unit
from bup import drecurse, helpers, xstat
from bup.helpers import (parse_date_arg, parse_excludes, parse_num, parse_rx_excludes, parse_timestamp, period_as_secs,
                         should_rx_exclude_path)

PROP = 'C25'
NOTE = ('Proved: parse_num scales every number by the multiple of its unit, in any spelling, and refuses every other unit; '
        'for every text, period_as_secs and parse_timestamp accept exactly the documented forms and give the documented multiple; '
        'parse_excludes gives the paths named by options and by the non-empty lines of files, for any number of them; the directory '
        'walk leaves out exactly the excluded entries and what is below them. Patterns of exclude-rx and whole walks of real trees '
        'are evaluated on generated inputs: bounded.')
LOOPS = {'bup.helpers': ['parse_excludes', 'parse_rx_excludes', 'should_rx_exclude_path'],
         'bup.drecurse': ['_recursive_dirlist', 'recursive_dirlist', '_dirlist']}
ASSUME = ['bytes.strip() drops white space at both ends, rstrip(b"\\n") newlines', 'float() of a decimal number is its value, to 15 digits', 'sorted(frozenset(x)) has the elements of x']

UNITS = {'': 1, 'b': 1, 'k': 1024, 'kb': 1024, 'm': 1024**2, 'mb': 1024**2, 'g': 1024**3, 'gb': 1024**3,
         't': 1024**4, 'tb': 1024**4}


def cases_of(u):
    return sorted({a + b for a in {u[:1], u[:1].upper()} for b in {u[1:], u[1:].upper()}})


SPELLED = [(s, m) for u, m in UNITS.items() for s in cases_of(u)]
scaled = ufn('scaled', [Bytes, Int], Int)
is_float = ufn('is_float', [Bytes], Bool)


class Float:
    def __init__(self, s, m=1): self.s, self.m = s, m
    def __mul__(self, m): return Float(self.s, self.m * m)
    __rmul__ = __mul__


def text(x):
    return x.encode('ascii') if not isinstance(x, bytes) else x


def float_stubs(h):
    def flt(s):
        s = s.encode('ascii')
        if is_float(s):
            return Float(s)
        raise ValueError('not a number')
    h.stub(builtins.float, flt)
    h.stub(builtins.int, lambda x: scaled(x.s, x.m))


class Match:
    def __init__(self, *g): self.g = g
    def groups(self): return self.g
    def group(self, *ks): return self.g[ks[0] - 1] if len(ks) == 1 else tuple(self.g[k - 1] for k in ks)
    def __getitem__(self, k): return self.g[k - 1]


def split_by(h, val, unit_):
    """the pattern's part: which number and unit there are (evaluated, not proved)"""
    h.stub(re.match, lambda *a: Match(val.decode('ascii'), unit_.decode('ascii')))
    h.stub(re.fullmatch, lambda *a: Match(val.decode('ascii'), unit_.decode('ascii')))


@unit('parse_num', ['bup.helpers:parse_num'], search=False)
def u_num(h):
    """every number with every spelling of a unit"""
    unit_, mult = h.choice('unit', SPELLED)
    val = h.input('val', Bytes)
    h.assume(re.fullmatch(rb'[-+0-9.e]+', val) is not None)
    float_stubs(h)
    split_by(h, val, unit_.encode())
    s = val + unit_.encode()
    ex, got = h.raises(parse_num, s.decode('ascii') if h.choice('text', [False, True]) else s)
    if is_float(val):
        h.check(ex is None, 'a number with a unit is accepted')
        h.check(got == scaled(val, mult), 'and scaled by the multiple that the unit stands for')
    else:
        h.check(isinstance(ex, ValueError), 'what is not a number is refused')


@unit('parse_num refuses', ['bup.helpers:parse_num'], search=False)
def u_num_bad(h):
    """every other unit is refused, and what does not match"""
    unit_ = h.input('unit', Bytes)
    h.assume(re.fullmatch(rb'[0-9A-Za-z_]*', unit_) is not None)
    for s, m in SPELLED:
        h.assume(unit_ != s.encode())
    float_stubs(h)
    split_by(h, b'12', unit_)
    if h.choice('no match', [False, True]):
        h.stub(re.match, lambda *a: None)
        h.stub(re.fullmatch, lambda *a: None)
    ex, got = h.raises(parse_num, b'12' + unit_)
    h.check(isinstance(ex, ValueError), 'what is not a number with a documented unit is refused')


PERIOD = {b's': 1, b'min': 60, b'h': 3600, b'd': 86400, b'w': 7 * 86400, b'm': 31 * 86400, b'y': 366 * 86400}


@unit('periods', ['bup.helpers:period_as_secs'], samples=2000)
def u_period(h):
    u = h.choice('unit', sorted(PERIOD))
    n = h.input('n', Bytes, gen=lambda r: b'%d' % r.choice([0, 1, 7, 31, 366, 10**9, 10**20]))
    h.assume(re.fullmatch(rb'[0-9]+', n) is not None)
    h.check(period_as_secs(n + u) == int(n) * PERIOD[u], 'the documented number of seconds')


@unit('periods refused', ['bup.helpers:period_as_secs'], samples=3000)
def u_period_bad(h):
    s = h.input('s', Byte256, gen=lambda r: r.choice(
        [b'', b'5', b's', b'-5s', b'5 s', b'5sec', b'5S', b'1.5d', b'5d6h', b'Forever', b' 5s', b'5s ', b'5x', b'\xff5s', b'5mi', b'5\xb2s',
         b'forever ', b'0x5s', b'5M', b'5\n', b'5hs', bytes(r.choice(b'0123456789smindhwy .-') for _ in range(r.choice([1, 2, 3, 5])))]))
    h.assume(re.fullmatch(rb'[0-9]+(s|min|h|d|w|m|y)\n?', s) is None)
    got = period_as_secs(s)
    if s == b'forever':
        h.check(got == float('inf'), 'forever')
    else:
        h.check(got is None, 'a malformed period is refused')


STAMP = {'s': 10**9, 'ms': 10**6, 'us': 10**3, 'ns': 1}


@unit('timestamps', ['bup.helpers:parse_timestamp'], samples=1000)
def u_stamp(h):
    u = h.choice('unit', sorted(STAMP))
    n = h.input('n', Bytes, gen=lambda r: b'%d' % r.choice([0, 1, 7, 2**33, 10**20]))
    h.assume(re.fullmatch(rb'[0-9]+', n) is not None)
    n = n.decode('ascii')
    h.check(parse_timestamp(n + u) == int(n) * STAMP[u], 'nanoseconds')


@unit('timestamps refused', ['bup.helpers:parse_timestamp'], samples=2000)
def u_stamp_bad(h):
    s = h.input('s', Byte256, gen=lambda r: r.choice([b'', b'5', b'-5', b'5 s', b'5sec', b'5S', b'1.5s', b's5', b'5m', b'5xs', b'+-5s',
                                                      bytes(r.choice(b'0123456789smun+- .') for _ in range(r.choice([1, 2, 3, 5])))]))
    h.assume(re.fullmatch(rb'[\0-\x7f]*', s) is not None and re.fullmatch(rb'([-+]?[0-9]+)?(s|ms|us|ns)\n?', s) is None)
    ex, got = h.raises(parse_timestamp, s.decode('ascii'))
    h.check(isinstance(ex, ValueError), 'a malformed timestamp is refused')


# --- native counterparts
def num_text(r):
    return r.choice([lambda: str(r.randrange(2**40)), lambda: '%d.%d' % (r.randrange(5000), r.randrange(1000)),
                     lambda: '%d.%03de%d' % (r.randrange(9), r.randrange(1000), r.randrange(8)), lambda: '.5', lambda: '5.', lambda: '0',
                     lambda: '1e3', lambda: '2.5e+2', lambda: '-3e-3', lambda: '+7'])()


@unit('numbers', ['bup.helpers:parse_num'], prove=False, samples=6000)
def u_numbers(h):
    u, mult = h.any('unit', lambda r: r.choice(SPELLED))
    v = h.any('number', num_text)
    sp = h.any('space', lambda r: r.choice(['', ' ', '\t', '  ']))
    s = v + sp + u
    want = Fraction(v) * mult
    got = parse_num(s)
    h.check(got == math.trunc(want) or abs(want) > 2**50 and abs(got - want) <= abs(want) / 2**50
            or abs(want - round(want)) < Fraction(1, 10**6), 'the documented multiple', detail=repr((s, got)))
    h.check(parse_num(s.encode()) == got, 'bytes as text')


@unit('malformed numbers', ['bup.helpers:parse_num'], prove=False, samples=4000)
def u_malformed(h):
    s = h.any('text', lambda r: r.choice(
        ['', 'k', 'x', '1x', '1kk', '1 kb/s', '1,5G', '10%', '5 k b', '1.2.3', '1-2', '--1', '1k1', '1kib', '1 2', '5!', '1_000', '0x10',
         'kb', '1e', 'e', '1pb', '1k\0', '\xff', '1k,', '10K;', '1 G.', '\n', '1bk', 'inf', 'nan', '1G\nx',
         ''.join(r.choice('0123456789.e+-kmgtbKMGTB ,/x') for _ in range(r.choice([1, 2, 3, 5, 8])))]))
    m = re.fullmatch(r'([-+0-9.e]+)\s*([kmgt]?b?)\s*', s, re.I | re.A)
    if m and 'E' not in m.group(1):
        try:
            float(m.group(1))
            return
        except ValueError:
            pass
    for x in (s, s.encode('latin-1')):
        ex, got = h.raises(parse_num, x)
        h.check(isinstance(ex, ValueError), 'a malformed number is refused', detail=repr((x, got)))


# --- exclusions
resolved = ufn('resolved', [Bytes], Bytes)
lines_of = ufn('lines_of', [Bytes], Seq(Bytes))
FLAG = Tup(Int, Bytes)          # 0: --exclude, 1: --exclude-from, 2: another option
OPTS = ['--exclude', '--exclude-from', '--other']


name_in = ufn('name_in', [Bytes], Bytes)    # the line without its newline (and, for names, white space around it)


@rec(Seq(Bytes), ret=Seq(Bytes))
def named(xs):
    """the paths that the lines of a file name"""
    return [] if len(xs) == 0 else (named(xs[:-1]) if len(name_in(xs[-1])) == 0 else named(xs[:-1]) + [resolved(name_in(xs[-1]))])


@rec(Seq(FLAG), ret=Seq(Bytes))
def excluded(xs):
    return [] if len(xs) == 0 else (excluded(xs[:-1]) + [resolved(xs[-1][1])] if xs[-1][0] == 0 else
                                    (excluded(xs[:-1]) + named(lines_of(xs[-1][1])) if xs[-1][0] == 1 else excluded(xs[:-1])))


class Lines:
    """an open file: readlines() splits after each newline"""
    def __init__(self, h, p): self.h, self.p = h, p
    def __enter__(self): return self
    def __exit__(self, *a): return None

    def readlines(self):
        h, ls = self.h, lines_of(self.p)

        def line(i):
            l = ls[i]
            h.assume(len(l) > 0 and b'\n' not in l[:-1])
            return l
        return FnSeq(len(ls), line)


@unit('parse_excludes', ['bup.helpers:parse_excludes'], search=False, timeout=40)
def u_excludes(h):
    flags = h.input('flags', Seq(FLAG))
    h.on_method['strip'] = lambda s, *a: NotImplemented if a else name_in(s)
    h.stub(helpers.argv_bytes, lambda x: x)
    h.stub(builtins.frozenset, lambda x: x)
    h.stub(builtins.sorted, lambda x: x)
    h.stub(builtins.open, lambda p, mode: Lines(h, p))

    def flag(i):
        k, p = flags[i]
        h.assume(0 <= k and k <= 2)
        if k == 0:
            return OPTS[0], p
        if k == 1:
            return OPTS[1], Path(p)
        return OPTS[2], p

    class Path:
        """the file name of an exclude-from: opened as resolved, read as named"""
        def __init__(self, p): self.p = p
    h.stub(helpers.argv_bytes, lambda x: x)
    h.stub(helpers.resolve_parent, lambda x: x.p if isinstance(x, Path) else resolved(x))
    h.loop('bup.helpers:parse_excludes', 0, types={'excluded_paths': Seq(Bytes), 'flag': lambda e: None, 'option': lambda e: None,
                                                   'parameter': lambda e: None, 'f': lambda e: None, 'exclude_path': Bytes},
           inv=lambda L: L.excluded_paths == excluded(flags[:L.i]))
    h.loop('bup.helpers:parse_excludes', 1, types={'excluded_paths': Seq(Bytes), 'exclude_path': Bytes},
           ghost={}, inv=lambda L: L.excluded_paths == L.entry.excluded_paths + named(lines_of(L.f.p)[:L.i]))
    got = parse_excludes(FnSeq(len(flags), flag), lambda m: h.check(False, 'no complaint'))
    h.check(got == excluded(flags), 'the paths named by the options and by the lines of the files, no others')


@unit('parse_rx_excludes', ['bup.helpers:parse_rx_excludes'], search=False, timeout=40)
def u_rx_excludes(h):
    flags = h.input('flags', Seq(FLAG))
    class Path:
        def __init__(self, p): self.p = p

    def flag(i):
        k, p = flags[i]
        h.assume(0 <= k and k <= 2)
        if k == 0:
            return b'--exclude-rx', p
        if k == 1:
            return b'--exclude-rx-from', Path(p)
        return b'--other', p
    h.on_method['rstrip'] = lambda s, *a: name_in(s) if a == (b'\n',) else NotImplemented
    h.stub(re.compile, lambda p: resolved(p))
    h.stub(helpers.resolve_parent, lambda x: x.p)
    h.stub(builtins.open, lambda p, mode: Lines(h, p))
    h.loop('bup.helpers:parse_rx_excludes', 0, types={
        'excluded_patterns': Seq(Bytes), 'flag': lambda e: None, 'option': lambda e: None, 'parameter': lambda e: None,
        'f': lambda e: None, 'pattern': Bytes, 'spattern': Bytes}, inv=lambda L: L.excluded_patterns == excluded(flags[:L.i]))
    h.loop('bup.helpers:parse_rx_excludes', 1, types={'excluded_patterns': Seq(Bytes), 'pattern': Bytes, 'spattern': Bytes},
           inv=lambda L: L.excluded_patterns == L.entry.excluded_patterns + named(lines_of(L.f.p)[:L.i]))
    got = parse_rx_excludes(FnSeq(len(flags), flag), lambda m: h.check(False, 'no complaint'))
    h.check(got == excluded(flags), 'the patterns of the options and of the lines of the files, no others')


hits = ufn('hits', [Int, Bytes], Bool)


@rec(Seq(Int), Bytes, ret=Bool)
def some_hits(xs, p):
    return False if len(xs) == 0 else (some_hits(xs[:-1], p) or hits(xs[-1], p))


hits_mono = lemma('hits_mono', [Seq(Int), Bytes, Int], lambda xs, p, i: implies(some_hits(xs[:i], p), some_hits(xs, p)),
                  requires=lambda xs, p, i: 0 <= i and i <= len(xs), measure=lambda xs, p, i: len(xs),
                  ih=lambda xs, p, i: [(i < len(xs), (xs[:-1], p, i))])


@unit('a found pattern', search=False)
def u_hits_mono(h):
    hits_mono.prove(h)


@unit('should_rx_exclude_path', ['bup.helpers:should_rx_exclude_path'], search=False)
def u_should(h):
    """a path is excluded if one of the patterns is found in it"""
    xs = h.input('xs', Seq(Int))
    p = h.input('p', Bytes)

    class Rx:
        def __init__(self, i): self.i, self.k = xs[i], i
        pattern = b'p'

        def search(self, s):
            h.check(s == p, 'the whole path is searched')
            h.use(hits_mono, xs, p, self.k + 1)
            return hits(self.i, s)
    h.stub(helpers.debug1, lambda *a: None)
    h.loop('bup.helpers:should_rx_exclude_path', 0, types={'rx': lambda e: None}, inv=lambda L: not some_hits(xs[:L.i], p))
    got = should_rx_exclude_path(p, FnSeq(len(xs), Rx))
    h.check(got == some_hits(xs, p), 'excluded exactly if a pattern is found in it')


# --- the walk
from collections import namedtuple
St = namedtuple('St', ['ino', 'st_dev'])
ST = Tup(Int, Int, cls=St)
ELT = Tup(Bytes, ST)
norm = ufn('norm', [Bytes], Bytes)
is_excl = ufn('is_excl', [Bytes], Bool)
rx_excl = ufn('rx_excl', [Bytes], Bool)
crosses = ufn('crosses', [Bytes], Bool)
opens = ufn('opens', [Bytes], Bool)
walk = ufn('walk', [Bytes], Seq(ELT))


class Known:
    """a collection of paths"""
    def __init__(self, f): self.f = f
    def __contains__(self, x): return self.f(x)
    def __bool__(self): return True


@rec(Bytes, ST, Bytes, Int, Bytes, Bool, Bool, ret=Seq(ELT), fuel=1)
def gives(n, s, pre, dev, repo, px, pr):
    return [] if ((px and is_excl(norm(pre + n))) or (pr and rx_excl(pre + n))) else (
        [(pre + n, s)] if n[-1:] != b'/' else (
            [] if (len(repo) > 0 and norm(pre + n) == repo) else (
                [(pre + n, s)] if ((dev != 0 and s.st_dev != dev and not crosses(pre + n)) or not opens(n))
                else walk(pre + n) + [(pre + n, s)])))


@rec(Seq(ELT), Bytes, Int, Bytes, Bool, Bool, ret=Seq(ELT), fuel=1)
def listing(xs, pre, dev, repo, px, pr):
    """what the walk gives of these entries of a directory (dev 0: whatever the device; repo empty: none)"""
    return [] if len(xs) == 0 else listing(xs[:-1], pre, dev, repo, px, pr) + gives(xs[-1][0], xs[-1][1], pre, dev, repo, px, pr)


@unit('walk', ['bup.drecurse:_recursive_dirlist'], search=False, timeout=40)
def u_walk(h):
    """every entry that is not excluded once, a directory after what it contains; nothing of what is excluded"""
    xs = h.input('xs', Seq(ELT))
    pre = h.input('prepend', Bytes)
    px, pr = h.choice('exclusions', [(False, False), (True, True)])
    dev = h.input('dev', Nat)
    repo = h.input('repo', Bytes)

    def entries(fd, p):
        h.check(fd == 5 and p == pre, 'the directory itself is listed')

        def at(i):
            n, s = xs[i]
            h.assume(len(n) > 0)
            return n, s
        return FnSeq(len(xs), at)

    def openat(fd, name, flags):
        h.check(fd == 5 and flags & os.O_NOFOLLOW, 'opened in the directory, following no link')
        if opens(name):
            return 6
        raise OSError(13, 'no')
    seen = []

    def sub(prepend, dir_fd, xdev, bup_dir=None, excluded_paths=None, exclude_rxs=None, xdev_exceptions=frozenset()):
        h.check(dir_fd == 6, 'what was opened is walked')
        h.check(xdev == dx and bup_dir == rp and excluded_paths is ep and exclude_rxs is er and xdev_exceptions is xe,
                'by the same rules')
        return walk(prepend)
    dx, rp = dev, repo
    if dev == 0:
        dx = None
    if len(repo) == 0:
        rp = None
    ep, er, xe = None, None, Known(crosses)
    if px:
        ep = Known(is_excl)
    if pr:
        er = Known(None)
    h.stub(drecurse._dirlist, entries)
    h.stub(drecurse.openat_noatime, openat)
    h.stub(os.path.normpath, lambda p: norm(p))
    h.stub(drecurse.should_rx_exclude_path, lambda p, rxs: rx_excl(p))
    h.stub(drecurse.add_error, lambda e: None)
    h.stub(drecurse.debug1, lambda m: None)
    h.stub(drecurse.resolve_parent, lambda p: p)
    h.stub(os.close, lambda fd: h.check(fd == 6, 'what was opened is closed'))
    h.stub(drecurse._recursive_dirlist, sub)
    h.loop('bup.drecurse:_recursive_dirlist', 0, out=ELT, types={
        'name': lambda e: None, 'pst': lambda e: None, 'path': lambda e: None, 'npath': lambda e: None, 'sub_fd': lambda e: None},
        inv=lambda L: L.out == listing(xs[:L.i], pre, dev, repo, px, pr))
    got = h.gen(h.body(drecurse._recursive_dirlist)(pre, 5, dx, bup_dir=rp, excluded_paths=ep, exclude_rxs=er, xdev_exceptions=xe), ELT)
    h.check(got == listing(xs, pre, dev, repo, px, pr), 'the listing, without what is excluded')


def tree(h, r, top):
    """a small tree; every path below top, directories with a slash"""
    out = []

    def fill(d, depth):
        for n in {r.choice([b'a', b'b', b'a ', b' a', b'a.b', b'-', b'a\n'[:1] + b'z', b'\xff', b'x y', b'd', b'e']) for _ in range(r.randrange(5))}:
            p = d + n
            if depth < 3 and r.random() < .5:
                os.mkdir(p)
                fill(p + b'/', depth + 1)
                out.append(p + b'/')
            elif r.random() < .2:
                os.symlink(r.choice([b'a', b'/', b'.']), p)
                out.append(p)
            else:
                open(p, 'wb').close()
                out.append(p)
    fill(top, 0)
    return out


class Fatal(Exception):
    pass


@unit('exclusions', ['bup.helpers:parse_excludes', 'bup.helpers:parse_rx_excludes', 'bup.helpers:should_rx_exclude_path',
                     'bup.drecurse:recursive_dirlist'], prove=False, samples=250, tmp=True)
def u_exclusions(h):
    """whole walks of real trees, with exclusion files"""
    seed = h.any('seed', lambda r: r.randrange(2**32))
    import random
    r = random.Random(seed)
    top = os.path.realpath(h.tmp) + b'/t/'
    os.mkdir(top)
    every = tree(h, r, top)
    cwd = os.getcwd()
    os.chdir(top)
    try:
        flags, names, rxs = [], set(), []
        for i in range(r.randrange(3)):
            k = r.randrange(4)
            pick = [r.choice(every + [top + b'nothing', top + b'a/']) for _ in range(r.randrange(4))]
            rel = [p[len(top):] if r.random() < .3 else p for p in pick]
            if k == 0 and rel:
                flags.append(('--exclude', os.fsdecode(rel[0])))
                names.add(pick[0])
            elif k == 1:        # white space around a line does not count
                both = [(p, x) for p, x in zip(pick, rel) if x.strip() == x]
                pick, rel = [p for p, _ in both], [x for _, x in both]
                names.update(pick)
                lines = [r.choice([b'', b'', b' ', b'\t']) + x + r.choice([b'', b'', b' ', b'\r']) + b'\n' for x in rel]
                for _ in range(r.randrange(3)):
                    lines.insert(r.randrange(len(lines) + 1), r.choice([b'\n', b' \n']))
                body = b''.join(lines)
                if r.random() < .3 and body.endswith(b'\n') and body != b'\n':
                    body = body[:-1]
                with open(h.tmp + b'/f%d' % i, 'wb') as f:
                    f.write(body)
                flags.append(('--exclude-from', os.fsdecode(h.tmp + b'/f%d' % i)))
                exs = parse_excludes([flags[-1]], None)
                h.check(exs == sorted({os.path.normpath(x) for x in pick}), 'exactly the paths that the lines name', detail=repr((body, exs)))
            elif k == 2:
                rx = r.choice([b'a/', b'^' + re.escape(top) + b'a', b'b$', b'z', b' ', b'\\.'])
                flags.append(('--exclude-rx', os.fsdecode(rx)))
                rxs.append(rx)
            else:
                some = [r.choice([b'a/b', b'd/$', b'x y', b'', b' a']) for _ in range(r.randrange(3))]
                with open(h.tmp + b'/f%d' % i, 'wb') as f:
                    f.write(b''.join(x + b'\n' for x in some))
                flags.append(('--exclude-rx-from', os.fsdecode(h.tmp + b'/f%d' % i)))
                rxs += [x for x in some if x]
        ex, ers = parse_excludes(flags, None), parse_rx_excludes(flags, None)
        h.check([x.pattern for x in ers] == rxs, 'exactly the patterns given')
        hit = {os.path.normpath(x) for x in names}

        def gone(p):
            """the path or a directory that it is in is excluded"""
            if len(p) <= len(top):
                return False
            up = p.rstrip(b'/').rpartition(b'/')[0] + b'/'
            return gone(up) or os.path.normpath(p) in hit or any(re.search(x, p) for x in rxs)
        h.check(not any(x in (top[:-1], os.path.dirname(top[:-1]), b'/') for x in ex), 'what nobody named is not excluded', detail=repr(flags))
        got = [p for p, _ in drecurse.recursive_dirlist([top[:-1]], False, excluded_paths=ex, exclude_rxs=ers)]
        want = sorted([p for p in every if not gone(p)] + [top], reverse=True)
        h.check(sorted(got, reverse=True) == want, 'all but what is excluded, each once', detail=repr((flags, got, want)))
        h.check(got == want, 'in descending order', detail=repr(got))
    finally:
        os.chdir(cwd)
