"""C05: the index never treats a changed file as unchanged."""
import os, stat, struct
from pyvc.spec import *
from pyvc.harness import unit
from bup import index, metadata, xstat

PROP = 'C05'
NOTE = ('Proved for every stat result and prior entry: Entry.stale is exactly "some recorded field differs", what '
        'update_from_stat, validate, invalidate and set_deleted make of it, clamping of times, packing an entry and '
        'reading it back, forward iteration over any number of entries, and that repacking an invalid entry invalidates '
        'every ancestor. Writing whole indexes, finding paths, merging and complete index runs over changing '
        'directories are evaluated on generated histories: bounded.')
LOOPS = {'bup.index': ['Reader.forward_iter']}
ASSUME = ['struct.unpack inverts struct.pack for values in range (out of range is struct.error)',
          'mmap of the index file behaves as its bytes']

FIELDS = ('dev', 'ino', 'nlink', 'ctime', 'mtime', 'atime', 'size', 'mode', 'gitmode', 'sha', 'flags',
          'meta_ofs', 'children_ofs', 'children_n')


class St:
    pass


def gen_time(r):
    return r.choice([0, 1, -1, 10**9, 10**18, 17 * 10**17, 17 * 10**17 + 1, -10**9 - 1, 5])


def some_stat(h, tag=''):
    st = St()
    for a in ('dev', 'ino', 'nlink', 'size', 'mode'):
        setattr(st, 'st_' + a, h.input(tag + a, Nat))
    for a in ('ctime', 'mtime', 'atime'):
        setattr(st, f'st_{a}_ns', h.input(tag + a, Int, gen=gen_time))
    return st


def some_entry(h, tmax=None):
    e = object.__new__(index.Entry)
    e.basename, e.name, e.tmax = b'f', b'/f', tmax
    for a in ('dev', 'ino', 'nlink', 'size', 'mode', 'gitmode', 'meta_ofs', 'children_ofs', 'children_n'):
        setattr(e, a, h.input('e' + a, Nat))
    for a in ('ctime', 'mtime', 'atime'):
        setattr(e, a, h.input('e' + a, Int, gen=gen_time))
    e.sha = h.input('esha', FixedBytes(20))
    e.flags = h.input('eflags', Nat, gen=lambda r: r.randrange(65536))
    h.assume(e.flags < 65536)
    return e


def bit(flags, k):
    return flags // k % 2 == 1


EXISTS, VALID, MISSING = 0x8000, 0x4000, 0x2000


@unit('stale', ['bup.index:Entry.stale'], samples=6000)
def u_stale(h):
    """up to date exactly when nothing that is recorded differs"""
    e = some_entry(h)
    st = some_stat(h)
    # natively, mostly equal
    if not h.symbolic:
        diff = h.any('differs', lambda r: r.choice([None, 'dev', 'ino', 'nlink', 'size', 'ctime', 'mtime', 'flags',
                                                    'sha', 'gitmode', 'mode', 'atime', 'two']))
        for a in ('dev', 'ino', 'nlink', 'size'):
            if a != diff:
                setattr(e, a, getattr(st, 'st_' + a))
        for a in ('ctime', 'mtime'):
            if a != diff:
                setattr(e, a, getattr(st, f'st_{a}_ns'))
        if diff != 'flags':
            e.flags |= EXISTS
        if diff == 'sha':
            e.sha = index.EMPTY_SHA
        if diff != 'gitmode' and not e.gitmode:
            e.gitmode = 0o100644
    check_device = h.choice('check_device', [True, False])
    got = e.stale(st, check_device=check_device) if not check_device else e.stale(st)
    same = (e.size == st.st_size and e.mtime == st.st_mtime_ns and e.ctime == st.st_ctime_ns
            and e.ino == st.st_ino and e.nlink == st.st_nlink and (e.dev == st.st_dev or not check_device)
            and e.sha != index.EMPTY_SHA and e.gitmode != 0 and bit(e.flags, EXISTS))
    h.check(bool(got) == (not same), 'up to date exactly when every recorded field is unchanged')


@unit('update then stale', ['bup.index:Entry.update_from_stat', 'bup.index:Entry._fixup',
                            'bup.index:Entry._fixup_time'], samples=3000)
def u_update(h):
    """after recording a stat result and validating, only that very stat result is up to date"""
    clamp = h.choice('tmax', [True, False])
    tmax = h.input('tm', Int, gen=gen_time) if clamp else None
    e = some_entry(h, tmax)
    st = some_stat(h)
    ofs = h.input('ofs', Nat)
    flags = e.flags
    e.update_from_stat(st, ofs)
    for a in ('dev', 'ino', 'nlink', 'size', 'mode'):
        h.check(getattr(e, a) == getattr(st, 'st_' + a), f'the {a} is recorded')
    h.check(e.atime == st.st_atime_ns, 'the access time is recorded')
    for a in ('ctime', 'mtime'):
        t = getattr(st, f'st_{a}_ns')
        v = getattr(e, a)
        h.check(implies(tmax is None or t <= (0 if tmax is None else tmax), v == t), f'the {a} is recorded')
        if tmax is not None:
            h.check(v <= tmax, 'no time later than the limit is recorded')
    h.check(e.meta_ofs == ofs, 'the place of the metadata is recorded')
    h.check(bit(e.flags, EXISTS), 'the file exists')
    h.check(bit(e.flags, VALID) == bit(flags, VALID) and bit(e.flags, MISSING) == bit(flags, MISSING),
            'the other flags stay')
    e.invalidate()
    h.check(not e.is_valid() and e.exists(), 'invalidated entries are not valid')
    mode = h.input('newmode', Nat)
    h.assume(mode > 0)
    sha = h.input('newsha', FixedBytes(20))
    e.validate(mode, sha)
    h.check(e.is_valid() and e.sha == sha and e.gitmode == mode, 'validated entries are valid')
    st2 = some_stat(h, 'new ')
    if not h.symbolic and h.rng.random() < .8:
        for k, v in vars(st).items():
            if h.rng.random() < .9:
                setattr(st2, k, v)
    h.assume(sha != index.EMPTY_SHA)
    differs = (st2.st_size != st.st_size or st2.st_mtime_ns != st.st_mtime_ns or st2.st_ctime_ns != st.st_ctime_ns
               or st2.st_ino != st.st_ino or st2.st_nlink != st.st_nlink or st2.st_dev != st.st_dev)
    late = False
    if tmax is not None:
        late = st.st_mtime_ns > tmax or st.st_ctime_ns > tmax
    if not late:
        h.check(bool(e.stale(st2)) == differs, 'any later difference makes the entry stale')
    elif tmax is not None:
        h.check(implies(st2.st_mtime_ns > tmax and st.st_mtime_ns > tmax, e.stale(st2)),
                'a file changed too recently is never up to date')


@unit('flags', ['bup.index:Entry.is_valid', 'bup.index:Entry.exists', 'bup.index:Entry.is_deleted',
                'bup.index:Entry.sha_missing', 'bup.index:Entry.set_deleted', 'bup.index:Entry.invalidate',
                'bup.index:Entry.validate'], samples=1500)
def u_flags(h):
    e = some_entry(h)
    f = e.flags
    h.check(bool(e.is_valid()) == (bit(f, EXISTS) and bit(f, VALID)), 'valid: exists with a valid id')
    h.check(bool(e.exists()) == bit(f, EXISTS) and bool(e.is_deleted()) == (not bit(f, EXISTS)), 'exists or deleted')
    h.check(bool(e.sha_missing()) == (bit(f, MISSING) or not bit(f, VALID)), 'missing: known to be, or no valid id')
    op = h.choice('op', ['invalidate', 'delete'])
    if op == 'invalidate':
        e.invalidate()
        h.check(not bit(e.flags, VALID) and bit(e.flags, EXISTS) == bit(f, EXISTS)
                and bit(e.flags, MISSING) == bit(f, MISSING), 'invalidating clears only the validity')
    else:
        e.set_deleted()
        h.check(e.is_deleted() and not e.is_valid(), 'a deleted entry is deleted and not valid')
        h.check(bit(e.flags, MISSING) == bit(f, MISSING), 'deleting keeps the missing flag')
    h.check(e.flags % 0x2000 == f % 0x2000 and e.flags < 65536 and e.flags >= 0, 'no other flag changes')


@unit('pack and read an entry', ['bup.index:Entry.packed', 'bup.index:ExistingEntry.__init__',
                                 'bup.xstat:nsecs_to_timespec', 'bup.xstat:timespec_to_nsecs'], samples=3000)
def u_pack(h):
    e = some_entry(h)
    for a, b in (('dev', 64), ('ino', 64), ('nlink', 64), ('size', 64), ('mode', 32), ('gitmode', 32),
                 ('meta_ofs', 64), ('children_ofs', 64), ('children_n', 32)):
        h.assume(getattr(e, a) < 2**b)
    pre = h.input('pre', Bytes)
    post = h.input('post', Bytes)
    saved = []
    if h.symbolic:
        tok = h.fresh('packed', FixedBytes(index.ENTLEN))

        def pack(sig, *vals):
            h.check(sig == index.ENTRY_SIG and len(vals) == 17, 'packs the fields of an entry')
            for k in (4, 6, 8):
                h.check(0 <= vals[k] and vals[k] < 10**9, 'nanoseconds are in range')
            saved.append(vals)
            return tok

        def unpack(sig, data):
            h.check(sig == index.ENTRY_SIG and data == tok, 'unpacks the bytes of the entry')
            return saved[0]
        h.stub(struct.pack, pack)
        h.stub(struct.unpack, unpack)
    m = pre + e.packed() + post
    got = index.ExistingEntry(None, b'f', b'/f', m, len(pre))
    for a in FIELDS:
        h.check(getattr(got, a) == getattr(e, a), f'{a} reads back')


@unit('repack invalidates the parents', ['bup.index:ExistingEntry.repack'], samples=800)
def u_repack(h):
    """by contract recursion: the parent's repack invalidates its own ancestors"""
    e = some_entry(h)
    p = some_parent(h)
    log = []
    e.__class__ = index.ExistingEntry
    e.parent = p if h.choice('has parent', [True, False]) else None
    pre = h.input('pre', Bytes)
    post = h.input('post', Bytes)
    new = h.input('new', FixedBytes(index.ENTLEN))
    if h.symbolic:
        h.stub(index.Entry.packed, lambda self: new)
        e._m = Mem(h, pre, post)
    else:
        old = type(e).packed
        h.patch(index.Entry, packed=lambda self: new)
        e._m = bytearray(pre + b'o' * index.ENTLEN + post)
    e._ofs = len(pre)
    e.repack()
    if h.symbolic:
        h.check(e._m.written == [new], 'the entry is rewritten')
    else:
        h.check(bytes(e._m) == pre + new + post, 'the entry is rewritten, and only it')
    if e.parent is not None:
        h.check(implies(not e.is_valid(), p.log == ['invalidate', 'repack']),
                'the parent of an invalid entry is invalid on disk')
        h.check(implies(e.is_valid(), p.log == []), 'the parent of a valid entry stays')


class Par:
    def __init__(self):
        self.log = []

    def invalidate(self):
        self.log.append('invalidate')

    def repack(self):
        self.log.append('repack')


def some_parent(h):
    return Par()


class Mem:
    def __init__(self, h, pre, post):
        self.h, self.pre, self.post, self.written = h, pre, post, []

    def __setitem__(self, sl, v):
        self.h.check(sl.start == len(self.pre) and sl.stop == len(self.pre) + index.ENTLEN, 'only the entry is rewritten')
        self.written.append(v)


# --- forward iteration: entry k is at off(k) and consists of a name without NULs, NUL, and the entry
off = ufn('off', [Nat], Nat)
name_of = ufn('name_of', [Nat], Bytes)
all_before = ufn('all_before', [Nat], Bytes)


class Map:
    """a well-formed index file of n entries"""
    def __init__(self, h, r, n):
        self.h, self.r, self.n = h, r, n

    def wf(self, k):
        if k < self.n:
            self.h.assume(off(k + 1) == off(k) + len(name_of(k)) + 1 + index.ENTLEN)
            self.h.assume(len(name_of(k)) > 0)
            self.h.assume(off(k + 1) <= off(self.n))
            self.h.assume(all_before(k + 1) == all_before(k) + name_of(k) + b'\0')
        return True

    def __len__(self):
        return off(self.n) + index.FOOTLEN

    def find(self, pat, o):
        k = self.r.k
        self.h.check(k < self.n and o == off(k) and pat == b'\0', 'looks for the end of the name of the next entry')
        self.r.k = k + 1
        return off(k) + len(name_of(k))

    def __getitem__(self, sl):
        k = self.r.k - 1
        self.h.check(sl.start == off(k) and sl.stop == off(k) + len(name_of(k)), 'takes the name of the entry')
        return name_of(k)


@unit('forward iteration', ['bup.index:Reader.forward_iter'], search=False, timeout=40)
def u_forward(h):
    import builtins
    n = h.input('n', Nat)
    r = object.__new__(index.Reader)
    r.closed = True
    r.k = 0
    r.m = m = Map(h, r, n)
    r._entries_start = off(0)

    def entry(parent, basename, name, mm, ofs):
        k = r.k - 1
        h.check(parent is None and mm is m and name == basename and ofs == off(k) + len(name_of(k)) + 1,
                'the entry is read from behind its name')
        return basename + b'\0'
    h.stub(index.ExistingEntry, entry)
    m.wf(0)

    def inv(L):
        m.wf(L.self.k)
        return L.self.k <= n and L.ofs == off(L.self.k) and b''.join(L.out) == all_before(L.self.k)
    h.assume(all_before(0) == b'')
    h.loop('bup.index:Reader.forward_iter', 0, types={'ofs': Nat, 'eon': Nat, 'basename': Bytes}, out=Bytes,
           keep=('self',), havoc={'self.k': Nat}, inv=inv, decreases=lambda L: n - L.self.k)
    got = h.gen(r.forward_iter(), Bytes)
    h.check(r.k == n, 'all entries are visited')
    h.check(b''.join(got) == all_before(n), 'every entry in the order written')


# --- whole indexes
def gen_paths(r):
    names = [b'a', b'b', b'ab', b'a.', b'a-', b'a b', b'\xff', b'z', b'0', b'A', b'..x', b'x\n']
    dirs, files = {b'/'}, set()

    def grow(d, depth):
        ns = r.sample(names, r.choice([0, 1, 2, 3, 5]))
        for n in ns:
            if depth < 4 and r.random() < .5:
                dirs.add(d + n + b'/')
                grow(d + n + b'/', depth + 1)
            else:
                files.add(d + n)
    grow(b'/', 0)
    # sometimes a directory entry is not recorded itself
    ds = {d for d in dirs if d == b'/' or r.random() < .9}
    ps = ds | files
    return sorted(p for p in ps if r.random() < .97)


class FakeStat:
    def __init__(self, d):
        self.__dict__.update(d)


def gen_stat(r, isdir):
    k = lambda: r.choice([0, 1, 255, 2**31, 2**32 + 5, 2**63])
    return dict(st_dev=k(), st_ino=k(), st_nlink=r.choice([1, 2, 9]), st_size=k(),
                st_ctime_ns=gen_time(r), st_mtime_ns=gen_time(r), st_atime_ns=gen_time(r),
                st_mode=(0o40000 if isdir else 0o100000) | r.randrange(0o1000))


def ancestors(p):
    parts = p.rstrip(b'/').split(b'/')
    for i in range(1, len(parts)):
        yield b'/'.join(parts[:i]) + b'/'


TMAX = 17 * 10**17


def write_index(h, name, recs, ms, hashes):
    w = index.Writer(name, ms, TMAX)
    with w:
        for p in sorted(recs, reverse=True):
            w.add(p, FakeStat(recs[p][0]), recs[p][1], hashgen=(lambda n: hashes[n]) if p in hashes else None)
        w.close()


@unit('whole index', ['bup.index:Writer.add', 'bup.index:_golevel', 'bup.index:Level.write',
                      'bup.index:Reader.iter', 'bup.index:Reader.find', 'bup.index:ExistingEntry.iter'],
      prove=False, samples=400, tmp=True)
def u_index(h):
    """what is written is read back: values, order, and finding each path and no other"""
    ps = h.any('paths', gen_paths)
    import random
    r = random.Random(h.any('seed', lambda r: r.getrandbits(30)))
    recs = {p: (gen_stat(r, p.endswith(b'/')), r.randrange(2**40)) for p in ps}
    hashes = {p: (r.choice([0o100644, 0o40000]), r.randbytes(20)) for p in ps if r.random() < .5}
    name = os.path.join(h.tmp, b'index')
    with index.MetaStoreWriter(os.path.join(h.tmp, b'meta')) as ms:
        ms.store(metadata.empty_metadata)
        write_index(h, name, recs, ms, hashes)
    allp = set(ps)
    for p in ps:
        allp.update(ancestors(p))
    if ps:
        allp.add(b'/')
    with index.Reader(name) as ri:
        got = list(ri)
        h.check([e.name for e in got] == sorted(allp, reverse=True),
                'iteration gives every path recorded and its parents, once, in order',
                detail=f'{[e.name for e in got]}')
        h.check(len(ri) == (len(allp) if len(allp) > 1 else 0), 'the count is the number of entries', detail=f'{len(ri)} {len(allp)}')
        for e in got:
            if e.name in recs:
                st, ofs = recs[e.name]
                for a in ('dev', 'ino', 'nlink', 'size', 'mode'):
                    h.check(getattr(e, a) == st['st_' + a], f'{a} is what was recorded')
                for a in ('ctime', 'mtime'):
                    h.check(getattr(e, a) == min(st[f'st_{a}_ns'], TMAX), f'{a} is what was recorded')
                h.check(e.atime == st['st_atime_ns'], 'atime is what was recorded')
                h.check(e.meta_ofs == ofs and e.exists(), 'the metadata offset is what was recorded')
                if e.name in hashes:
                    h.check((e.gitmode, e.sha) == hashes[e.name] and e.is_valid(), 'the id is what was recorded')
                else:
                    h.check(not e.is_valid() and e.stale(FakeStat(st)), 'an entry without id is not valid')
            else:
                h.check(not e.is_valid() and e.exists(), 'parents that were not recorded are not valid')
        probes = set(allp)
        for p in list(allp)[:20]:
            probes |= {p + b'x', p[:-1] or b'/', p.rstrip(b'/'), p + b'/', p.rstrip(b'/') + b'0/'}
        for p in probes:
            e = ri.find(p)
            if p in allp:
                h.check(e is not None and e.name == p, 'every path is found', detail=repr(p))
            else:
                h.check(e is None, 'no other path is found', detail=repr(p))
        for top in sorted(probes)[:12]:
            want = [p for p in sorted(allp, reverse=True)
                    if p == top or p.startswith(top if top.endswith(b'/') else top + b'/')]
            h.check([e.name for e in ri.iter(name=top)] == want, 'iterating below a name gives what is below it',
                    detail=repr(top))


@unit('invalidate one', ['bup.index:ExistingEntry.repack', 'bup.index:merge'], prove=False, samples=300, tmp=True)
def u_invalidate(h):
    """changing entries of one index and merging in another"""
    ps = h.any('paths', gen_paths)
    h.assume(ps)
    import random
    r = random.Random(h.any('seed', lambda r: r.getrandbits(30)))
    recs = {p: (gen_stat(r, p.endswith(b'/')), r.randrange(2**40)) for p in ps}
    hashes = {p: (0o100644, b'h' * 20) for p in ps}
    a, b, c = (os.path.join(h.tmp, x) for x in (b'a', b'b', b'c'))
    more = {p: (gen_stat(r, p.endswith(b'/')), r.randrange(2**40)) for p in gen_paths(r) if p not in recs}
    with index.MetaStoreWriter(os.path.join(h.tmp, b'meta')) as ms:
        ms.store(metadata.empty_metadata)
        write_index(h, a, recs, ms, hashes)
        with index.Reader(a) as ri:
            es = {e.name: e for e in ri}
            for e in es.values():
                if not e.is_valid():
                    e.validate(0o40000, b'h' * 20)
                    e.repack()
            for e in ri:
                e.validate(0o40000, b'h' * 20)
                e.flags |= EXISTS
                e._m[e._ofs:e._ofs + index.ENTLEN] = e.packed()
        bad = set(r.sample(sorted(es), min(len(es), r.choice([1, 1, 2, 4]))))
        gone = set()
        with index.Reader(a) as ri:
            for e in ri:
                if e.name in bad:
                    if r.random() < .5:
                        e.set_deleted()
                        gone.add(e.name)
                    else:
                        e.invalidate()
                    e.repack()
        inv = set(bad)
        for p in bad:
            inv.update(ancestors(p))
        with index.Reader(a) as ri:
            for e in ri:
                h.check(bool(e.is_valid()) == (e.name not in inv), 'an entry is valid unless it or something below '
                        'it was invalidated', detail=repr(e.name))
                h.check(bool(e.is_deleted()) == (e.name in gone), 'deleted entries are the ones deleted')
        write_index(h, b, more, ms, {})
        vals = {}
        with index.Reader(a) as ra, index.Reader(b) as rb:
            for e in list(ra):
                vals[e.name] = [getattr(e, k) for k in FIELDS[:-3]]
            mid = {e.name for e in rb}
            with index.Writer(c, ms, TMAX) as w:
                for e in index.merge(ra, rb):
                    w.add_ixentry(e)
                w.close()
        with index.Reader(c) as rc:
            got = list(rc)
            h.check([e.name for e in got] == sorted(set(vals) | mid, reverse=True), 'the merge has the paths of both')
            for e in got:
                if e.name in vals and e.name not in mid:
                    h.check([getattr(e, k) for k in FIELDS[:-3]] == vals[e.name], 'merging keeps the values')
                if e.name in mid and e.name in more:
                    h.check(not e.is_valid(), 'a new entry is not valid')
                if e.name in inv:
                    h.check(not e.is_valid(), 'merging makes nothing valid', detail=repr(e.name))


@unit('metadata store', ['bup.index:MetaStoreWriter.store', 'bup.index:MetaStoreReader.metadata_at'],
      prove=False, samples=300, tmp=True)
def u_metastore(h):
    import random
    r = random.Random(h.any('seed', lambda r: r.getrandbits(30)))
    pool = [metadata.empty_metadata]
    for _ in range(8):
        m = metadata.Metadata(frozen=False)
        m.mode, m.uid, m.gid, m.rdev = 0o100644, r.choice([0, 1000]), r.choice([0, 5]), 0
        m.user, m.group = r.choice([b'root', b'', b'u']), r.choice([b'', b'g'])
        m.atime = m.mtime = m.ctime = 0
        m.size = r.choice([0, 1, 300])
        if r.random() < .3:
            m.linux_xattr = [(b'user.x', r.choice([b'1', b'2']))]
        pool.append(m)
    name = os.path.join(h.tmp, b'meta')
    stored = []
    for _ in range(r.choice([1, 2, 3])):
        with index.MetaStoreWriter(name) as ms:
            for _ in range(r.choice([1, 3, 12])):
                m = r.choice(pool)
                stored.append((m, ms.store(m)))
    with index.MetaStoreReader(name) as mr:
        for m, ofs in stored:
            got = mr.metadata_at(ofs)
            h.check(got == m and (got.linux_xattr or None) == (m.linux_xattr or None),
                    'the metadata at the offset is what was stored')


@unit('index runs', ['bup.cmd.index:update_index'], prove=False, samples=120, tmp=True, weight=2)
def u_runs(h):
    """index a directory, take everything as saved, change things, index again"""
    from bup.cmd import index as cmd
    from bup import path as bpath, helpers
    import random, time
    r = random.Random(h.any('seed', lambda r: r.getrandbits(30)))
    tmp = os.path.realpath(h.tmp)
    src = os.path.join(tmp, b'src')
    os.mkdir(src)
    fsx = bpath.flat_fsindex(os.path.join(tmp, b'ix'))
    h.patch(cmd, qprogress=lambda *a: None, progress=lambda *a: None, defaultrepo=lambda: tmp + b'/bup')
    h.patch(index, qprogress=lambda *a: None, progress=lambda *a: None)
    old = 10**18
    files = []
    for _ in range(r.choice([1, 3, 6])):
        d = src
        for _ in range(r.choice([0, 1, 2])):
            d = os.path.join(d, r.choice([b'd', b'e']))
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, r.choice([b'f', b'g', b'h', b'd-']))
        with open(p, 'wb') as f:
            f.write(b'x' * r.choice([0, 1, 10]))
        os.utime(p, ns=(old, old))
        files.append(p)
    if r.random() < .3:
        try:
            os.link(files[0], files[0] + b'-link')
        except OSError:
            pass

    def tree():
        res = {}
        for d, ds, fs in os.walk(src):
            res[d + b'/'] = os.lstat(d)
            for f in fs:
                res[os.path.join(d, f)] = os.lstat(os.path.join(d, f))
        return res

    # let a run look as if it happened later than the changes (or not)
    future = [0]
    real = time.time

    class T:
        time = staticmethod(lambda: real() + future[0])
    h.patch(cmd, time=T)
    future[0] = r.choice([0, 100])
    cmd.update_index(src, frozenset(), [], fsx)
    seen = tree()
    with index.Reader(fsx.stat) as ri:
        for e in ri:
            e.validate(0o40000 if e.name.endswith(b'/') else 0o100644, b's' * 20)
            e.repack()
    late = future[0] == 0
    for _ in range(r.choice([1, 1, 2])):
        for _ in range(r.choice([0, 1, 2])):
            t = tree()
            p = r.choice(sorted(t))
            fs = [x for x in t if not x.endswith(b'/')]
            op = r.choice(['append', 'same size', 'chmod', 'replace', 'rm', 'new', 'link', 'touch', 'mtime', 'rename'])
            try:
                if op == 'append' and fs:
                    with open(r.choice(fs), 'ab') as f:
                        f.write(b'y')
                elif op == 'same size' and fs:
                    p = r.choice(fs)
                    st = os.lstat(p)
                    with open(p, 'r+b') as f:
                        f.write(b'z')
                    os.truncate(p, st.st_size)
                    os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
                elif op == 'chmod':
                    os.chmod(p, r.choice([0o700, 0o755, 0o711]))
                elif op == 'replace' and fs:
                    p = r.choice(fs)
                    st = os.lstat(p)
                    with open(src + b'/.new', 'wb') as f:
                        f.write(b'q' * st.st_size)
                    os.utime(src + b'/.new', ns=(st.st_atime_ns, st.st_mtime_ns))
                    os.rename(src + b'/.new', p)
                elif op == 'rm' and fs:
                    os.unlink(r.choice(fs))
                elif op == 'new':
                    with open(p + b'new' if p.endswith(b'/') else p + b'-new', 'wb'):
                        pass
                elif op == 'link' and fs:
                    os.link(r.choice(fs), src + b'/hl%d' % r.randrange(5))
                elif op == 'touch':
                    os.utime(p, ns=(old, old + 5))
                elif op == 'mtime' and fs:
                    p = r.choice(fs)
                    os.utime(p, ns=(old, r.choice([-10**9, 0, 10**9 + 1])))
                elif op == 'rename' and fs:
                    os.rename(r.choice(fs), r.choice(fs) + b'2')
            except OSError:
                continue
        before = {}
        with index.Reader(fsx.stat) as ri:
            before = {e.name: e.is_valid() for e in ri}
        cmd.update_index(src, frozenset(), [], fsx)
        now = tree()
        key = lambda s: (s.st_size, s.st_mtime_ns, s.st_ctime_ns, s.st_ino, s.st_nlink, s.st_dev, s.st_mode,
                         s.st_uid, s.st_gid)
        changed = {p for p in set(seen) | set(now)
                   if p not in seen or p not in now or key(seen[p]) != key(now[p])}
        bad = set(changed)
        for p in changed:
            bad.update(ancestors(p))
        with index.Reader(fsx.stat) as ri:
            es = {e.name: e for e in ri}
            h.check({n for n, e in es.items() if e.exists() and n.startswith(src + b'/')} == set(now),
                    'the paths that exist are the ones in the index')
            for n, e in es.items():
                if n in bad:
                    h.check(not e.is_valid(), 'whatever changed is not valid, nor what contains it', detail=repr(n))
            for n in now:
                e = es[n]
                h.check(e.ino == now[n].st_ino and e.size == now[n].st_size and e.nlink == now[n].st_nlink
                        and e.mode == now[n].st_mode, 'the index has the current values', detail=repr(n))
            if not late:
                for n, e in es.items():
                    if n not in bad and n in now:
                        h.check(e.is_valid() or not before.get(n), 'an unchanged file stays valid', detail=repr(n))
    helpers.clear_errors()
