"""C08: a pack index finds exactly the objects it lists."""
import os, struct
from pyvc.spec import *
from pyvc.harness import unit
from bup import git
from contracts.idxfiles import gen_ids, gen_ofs, probes, write_v1, write_v2

PROP = 'C08'
NOTE = ('Proved for every sorted table of ids of any size: the binary search finds an id exactly when it is listed and '
        'gives its place; exists/find_offset on top of it; where each version reads ids and offsets (including the 64-bit '
        'table) for every index and table size; iteration. Whole index files of both versions and collections of them are '
        'evaluated natively against an independent writer: bounded.')
LOOPS = {'bup.git': ['PackIdx._idx_from_hash', 'PackIdxV1.__iter__', 'PackIdxV2.__iter__',
                     'PackIdxV1.oid_offsets_and_idxs', 'PackIdxV2.oid_offsets_and_idxs']}
ASSUME = ['struct.unpack_from reads a big-endian integer at the offset']

oid_at = ufn('oid_at', [Nat], Bytes)
fan_at = ufn('fan_at', [Nat], Nat)


class Fan:
    """fanout table: entry b counts the ids whose first byte is at most b; entry -1 is zero"""
    def __getitem__(self, b):
        return 0 if b == -1 else fan_at(b)


@unit('search', ['bup.git:PackIdx._idx_from_hash'], search=False, timeout=40)
def u_search(h):
    n = h.input('n', Nat)
    want = h.input('want', FixedBytes(20))
    t = h.input('t', Int)       # where it is listed, if it is
    h.assume(-1 <= t and t < n)
    p = object.__new__(git.PackIdxV2)
    p.closed = True
    p.fanout, p.nsha = Fan(), n
    b = want[0]
    if t >= 0:
        h.assume(oid_at(t) == want)
        # instances of: the fanout counts first bytes, the table is sorted
        h.assume(t < fan_at(b))
        if b > 0:
            h.assume(fan_at(b - 1) <= t)
    h.assume(fan_at(b) <= n)

    def at(self, k):
        h.check(0 <= k and k < n, 'looks inside the table')
        v = oid_at(k)
        if t >= 0:
            if k < t:
                h.assume(v < want)
            if k > t:
                h.assume(want < v)
        return v
    h.stub(git.PackIdxV2._idx_to_hash, at)
    h.loop('bup.git:PackIdx._idx_from_hash', 0, types={'start': Nat, 'end': Nat, 'mid': Nat, 'v': Bytes},
           havoc={}, decreases=lambda L: L.end - L.start,
           inv=lambda L: L.start >= 0 and L.end <= n and implies(t >= 0, L.start <= t and t < L.end))
    got = p._idx_from_hash(want)
    if t >= 0:
        h.check(got is not None and got == t, 'a listed id is found, at its place')
    elif got is not None:
        h.check(0 <= got and got < n and oid_at(got) == want, 'only a listed id is found')


class P(git.PackIdx):
    pass


ofs_at = ufn('ofs_at', [Nat], Nat)


@unit('exists and find_offset', ['bup.git:PackIdx.exists', 'bup.git:PackIdx.find_offset'], search=False)
def u_exists(h):
    p = object.__new__(P)
    p.name = b'/x/y/pack-1.idx'
    h.stub(git.PackIdx._idx_from_hash, lambda self, oid: k if found else None)
    h.stub(git.PackIdx._ofs_from_idx, lambda self, i: (h.check(i == k, 'the offset of the entry found'), ofs_at(i))[1])
    found = h.choice('found', [True, False])
    k = h.input('k', Nat)
    oid = h.input('oid', FixedBytes(20))
    r = p.find_offset(oid)
    if found:
        h.check(r is not None and r == ofs_at(k), 'the offset recorded')
    else:
        h.check(r is None, 'no offset for an id that is not listed')
    src = h.choice('src', [True, False])
    ofs = h.choice('ofs', [True, False])
    r = p.exists(oid, want_source=src, want_offset=ofs)
    h.check(bool(r) == found, 'exists exactly when listed')
    if found and src:
        h.check(r.pack == b'pack-1.idx', 'the index is named')
    if found and ofs:
        h.check(r.offset == ofs_at(k), 'the offset is told')


be32 = ufn('be32', [Nat], Nat)
be64 = ufn('be64', [Nat], Nat)
piece = ufn('piece', [Nat, Nat], Bytes)


class Map:
    def __getitem__(self, sl):
        return piece(sl.start, sl.stop)


def unpack(fmt, m, offset=0):
    if fmt == '!I':
        r = be32(offset)
    else:
        assert fmt == '!Q'
        r = be64(offset)
    return (r,)


def v2(h, n):
    p = object.__new__(git.PackIdxV2)
    p.closed, p.nsha, p.map = True, n, Map()
    p.sha_ofs = 8 + 1024
    p.ofstable_ofs = p.sha_ofs + n * 24
    p.ofs64table_ofs = p.ofstable_ofs + n * 4
    h.stub(struct.unpack_from, unpack)
    return p


def v1(h, n):
    p = object.__new__(git.PackIdxV1)
    p.closed, p.nsha, p.map = True, n, Map()
    p.sha_ofs = 1024
    h.stub(struct.unpack_from, unpack)
    return p


def v2_offset(n, i):
    o = be32(8 + 1024 + n * 24 + i * 4)
    return be64(8 + 1024 + n * 28 + (o - 2**31) * 8) if o >= 2**31 else o


@unit('version 2 layout', ['bup.git:PackIdxV2._ofs_from_idx', 'bup.git:PackIdxV2._oid_ofs_from_ofs32_ofs',
                           'bup.git:PackIdxV2._idx_to_hash'], search=False)
def u_v2(h):
    n = h.input('n', Nat)
    i = h.input('i', Int)
    p = v2(h, n)
    o = be32(8 + 1024 + n * 24 + i * 4)
    h.assume(o < 2**32)
    ex, r = h.raises(p._ofs_from_idx, i)
    h.check((ex is not None) == (i < 0 or i >= n), 'fails exactly outside the table')
    if ex is None:
        h.check(r == v2_offset(n, i), 'the offset of the entry, from the 64-bit table when it is large')
    ex, r = h.raises(p._idx_to_hash, i)
    h.check((ex is not None) == (i < 0 or i >= n), 'fails exactly outside the table')
    if ex is None:
        h.check(r == piece(1032 + 20 * i, 1052 + 20 * i), 'the id of the entry')


@unit('version 1 layout', ['bup.git:PackIdxV1._ofs_from_idx', 'bup.git:PackIdxV1._idx_to_hash'], search=False)
def u_v1(h):
    n = h.input('n', Nat)
    i = h.input('i', Int)
    p = v1(h, n)
    ex, r = h.raises(p._ofs_from_idx, i)
    h.check((ex is not None) == (i < 0 or i >= n), 'fails exactly outside the table')
    if ex is None:
        h.check(r == be32(1024 + 24 * i), 'the offset of the entry')
    ex, r = h.raises(p._idx_to_hash, i)
    h.check((ex is not None) == (i < 0 or i >= n), 'fails exactly outside the table')
    if ex is None:
        h.check(r == piece(1028 + 24 * i, 1048 + 24 * i), 'the id of the entry')


upto = ufn('upto', [Nat], Bytes)


@unit('iterating ids', ['bup.git:PackIdxV1.__iter__', 'bup.git:PackIdxV2.__iter__'], search=False)
def u_iter(h):
    n = h.input('n', Nat)
    v = h.choice('version', [1, 2])
    p = v1(h, n) if v == 1 else v2(h, n)
    start, step = (1028, 24) if v == 1 else (1032, 20)

    def wf(k):
        h.assume(upto(k + 1) == upto(k) + piece(start + step * k, start + step * k + 20))
        return True
    h.assume(upto(0) == b'')
    wf(0)
    h.loop(f'bup.git:PackIdxV{v}.__iter__', 0, out=Bytes,
           inv=lambda L: wf(L.idx) and b''.join(L.out) == upto(L.idx))
    h.check(b''.join(h.gen(p.__iter__(), Bytes)) == upto(n), 'every id in order')


# --- whole files
@unit('index files', ['bup.git:PackIdxV1.__init__', 'bup.git:PackIdxV2.__init__', 'bup.git:open_idx',
                      'bup.git:PackIdx.find_offset'], prove=False, samples=500, tmp=True)
def u_files(h):
    import random
    ids = h.any('ids', gen_ids)
    version = h.choice('version', [1, 2])
    r = random.Random(h.any('seed', lambda r: r.getrandbits(30)))
    ofs = gen_ofs(r, ids, version)
    fn = os.path.join(h.tmp, b'a.idx')
    (write_v1 if version == 1 else write_v2)(fn, ids, ofs)
    with git.open_idx(fn) as ix:
        h.check(len(ix) == len(ids), 'the number of ids')
        h.check([bytes(x) for x in ix] == ids, 'iterating gives the ids in order')
        h.check(sorted(ix.oid_offsets_and_idxs()) == sorted((o, i) for i, o in enumerate(ofs)),
                'the offsets with the places of their ids')
        for i, o in zip(ids, ofs):
            h.check(ix.find_offset(i) == o, 'a listed id has its offset', detail=i.hex())
            h.check(bool(ix.exists(i)), 'a listed id exists')
            loc = ix.exists(i, want_source=True, want_offset=True)
            h.check(loc.pack == b'a.idx' and loc.offset == o, 'its place is told')
        have = set(ids)
        for p in probes(r, ids):
            h.check((ix.find_offset(p) is not None) == (p in have) and bool(ix.exists(p)) == (p in have),
                    'exactly the listed ids are found', detail=p.hex())


@unit('many large offsets', ['bup.git:PackIdxV2._ofs_from_idx', 'bup.git:PackIdxV2.oid_offsets_and_idxs'], prove=False, samples=1, tmp=True)
def u_many(h):
    """more entries in the 64-bit table than any short form of its index could tell"""
    n = h.any('n', lambda r: 66000 + r.randrange(3000))
    ids = [i.to_bytes(3, 'big') + b'x' * 17 for i in range(0, n * 200, 200)]
    ofs = [2**31 + 7 * i for i in range(n)]
    fn = os.path.join(h.tmp, b'big.idx')
    write_v2(fn, ids, ofs)
    with git.open_idx(fn) as ix:
        for k in list(range(0, n, 97)) + [0, 1, 255, 256, 32767, 32768, 65535, 65536, 65537, n - 1]:
            h.check(ix.find_offset(ids[k]) == ofs[k], 'a listed id has its offset', detail=str(k))
        h.check(list(ix.oid_offsets_and_idxs()) == [(o, i) for i, o in enumerate(ofs)], 'the offsets with the places of their ids')


@unit('collections', ['bup.git:PackIdxList.exists', 'bup.git:PackIdxList.refresh', 'bup.git:idxmerge'],
      prove=False, samples=200, tmp=True)
def u_list(h):
    """several indexes, with and without a midx and bloom filter over some of them"""
    import random
    sets = h.any('sets', lambda r: [gen_ids(r) for _ in range(r.choice([1, 2, 3, 5]))])
    r = random.Random(h.any('seed', lambda r: r.getrandbits(30)))
    d = os.path.join(h.tmp, b'pack')
    os.mkdir(d)
    where = {}
    for k, ids in enumerate(sets):
        if r.random() < .5 and k:
            ids = sorted(set(ids) | set(r.sample(sets[0], min(len(sets[0]), 3))))
        version = r.choice([1, 2, 2])
        ofs = gen_ofs(r, ids, version)
        fn = b'pack-%d.idx' % k
        (write_v1 if version == 1 else write_v2)(os.path.join(d, fn), ids, ofs)
        for i, o in zip(ids, ofs):
            where.setdefault(i, []).append((fn, o))
    git._mpi_count = 0
    with git.PackIdxList(d, ignore_midx=r.choice([True, False])) as l:
        have = set(where)
        h.check([bytes(x) for x in l] == sorted(have), 'iterating gives every id once, in order')
        order = sorted(have)
        r.shuffle(order)
        for i in order:
            loc = l.exists(i, want_source=True, want_offset=True)
            h.check(loc is not None and (loc.pack, loc.offset) in where[i], 'every id is found where it is')
            h.check(bool(l.exists(i)), 'every id exists')
            if r.random() < .5:
                p = r.choice(probes(r, order))
                h.check(bool(l.exists(p)) == (p in have), 'no other id exists')
                h.check(bool(l.exists(p, want_source=True)) == (p in have), 'no other id exists')
        # a new index is seen after a refresh
        ids = [i for i in gen_ids(r) if i not in have]
        if ids:
            write_v2(os.path.join(d, b'pack-new.idx'), ids, gen_ofs(r, ids, 2))
            l.refresh()
            for i in ids:
                h.check(bool(l.exists(i)), 'ids of new indexes are found after a refresh')
            for i in order[:20]:
                h.check(bool(l.exists(i)), 'the others still are')

