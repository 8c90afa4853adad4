"""C09: a merged index finds exactly the objects of the indexes it merges."""
import bisect, os, struct
from pyvc.spec import *
from pyvc.harness import unit
from bup import _helpers, git, midx
from bup.cmd import midx as cmd_midx
from contracts.idxfiles import gen_ids, gen_ofs, probes, write_v1, write_v2

PROP = 'C09'
NOTE = ('Proved for merged indexes of any size and every table width: the interpolation search stays inside the table, '
        'terminates, never divides by zero, and finds an id exactly when it is listed; iteration and the layout of ids and '
        'source numbers. The C step that keeps the inputs of a merge ordered is checked by CBMC for up to five inputs, and '
        'whole merges are evaluated natively against an independent reader: bounded.')
LOOPS = {'bup.midx': ['PackMidx.exists', 'PackMidx.__iter__']}
TRUSTED = ['CBMC 6.11 (bit-precise, all memory accesses checked)']
ASSUME = ['struct.unpack_from reads a big-endian integer at the offset',
          'firstword and extract_bits: the first four bytes of an id as a number, and its leading bits (evaluated)']
CBMC = [
    dict(name='midx.c/_fix_idx_order', harness='midx.c', function='h_order', unwind=22,
         funcs=['_helpers.c:_fix_idx_order (bounded: five inputs)'], timeout=300),
]
SEARCH = {'quick': 60}

oid_at = ufn('oid_at', [Nat], Bytes)
fan_at = ufn('fan_at', [Nat], Nat)
word = ufn('word', [Bytes], Nat)
which = ufn('which', [Nat], Nat)
name_of = ufn('name_of', [Nat], Bytes)
piece = ufn('piece', [Nat, Nat], Bytes)
be32 = ufn('be32', [Nat], Nat)

scale = lemma('an interpolated step stays in range', [Int, Int, Int],
              lambda x, m, d: 0 <= x * m // d and x * m // d <= m,
              requires=lambda x, m, d: d > 0 and 0 <= x and x <= d and m >= 0)
scale_lo = lemma('interpolating at the low end gives the first entry', [Int, Int],
                 lambda m, d: 0 * m // d == 0, requires=lambda m, d: d > 0)
scale_hi = lemma('interpolating at the high end gives the last entry', [Int, Int],
                 lambda m, d: d * m // d == m, requires=lambda m, d: d > 0)


class Names:
    def __getitem__(self, i):
        return name_of(i)


@unit('search', ['bup.midx:PackMidx.exists', 'bup.midx:PackMidx._get_idxname'], search=False, timeout=60, engine=dict(max_paths=20000, timeout_feas=30))
def u_search(h):
    n = h.input('n', Nat)
    want = h.input('want', FixedBytes(20))
    t = h.input('t', Int)       # where it is listed, if it is
    bits = h.choice('bits', [0, 1, 13, 31])
    src = h.choice('src', [False, True])
    h.assume(-1 <= t and t < n)
    p = object.__new__(midx.PackMidx)
    p.closed, p.bits, p.nsha, p.idxnames = True, bits, n, Names()
    unit_ = 2 ** (32 - bits)
    hv = word(want)
    h.assume(hv < 2**32)
    el = hv // unit_
    h.stub(midx.extract_bits, lambda o, b: hv // 2 ** (32 - b))
    h.stub(_helpers.firstword, word)
    lo = fan_at(el - 1) if el > 0 else 0
    hi = fan_at(el)
    h.assume(lo <= hi and hi <= n)
    if t >= 0:
        h.assume(oid_at(t) == want)
        # an instance of: the table counts the ids by their leading bits
        h.assume(lo <= t and t < hi)
    h.stub(midx.PackMidx._fanget, lambda self, i: fan_at(i))
    h.stub(midx.PackMidx._get_idx_i, lambda self, i: which(i))

    def at(self, k):
        h.check(0 <= k and k < n, 'looks inside the table')
        v = oid_at(k)
        listed = t >= 0
        h.assume(implies(listed, implies(k < t, v < want) and implies(k > t, want < v) and implies(k == t, v == want)))
        # numbers made of the first four bytes are ordered as the ids are, and ids
        # between two others have their leading bits
        h.assume(implies(v < want, word(v) <= hv) and implies(want < v, hv <= word(v)))
        h.assume(implies(lo <= k and k < hi, el * unit_ <= word(v) and word(v) < (el + 1) * unit_))
        return v
    h.stub(midx.PackMidx._get, at)

    def inv(L):
        x, m, d = hv - L.startv, L.end - L.start - 1, L.endv - L.startv
        h.use(scale, x, m, d)
        h.use(scale_lo, m, d)
        h.use(scale_hi, m, d)
        return L.start >= lo and L.end <= hi and L.startv <= hv and hv <= L.endv \
            and implies(L.start < L.end, L.startv < L.endv) \
            and implies(t >= 0, L.start <= t and t < L.end)
    h.loop('bup.midx:PackMidx.exists', 0, havoc={},
           types={'start': Nat, 'end': Nat, 'startv': Nat, 'endv': Nat, 'mid': Nat, 'v': Bytes},
           decreases=lambda L: L.end - L.start, inv=inv)
    r = p.exists(want, want_source=src)
    if t >= 0:
        h.check(bool(r), 'a listed id is found')
        if src:
            h.check(r.pack == name_of(which(t)), 'the index named is the one recorded for it')
    else:
        k = h.input('k', Nat)
        h.check(not r or exists(0, n, lambda i: oid_at(i) == want), 'only a listed id is found')


class Map:
    def __getitem__(self, sl):
        return piece(sl.start, sl.stop)


def pm(h, n, bits):
    p = object.__new__(midx.PackMidx)
    p.closed, p.nsha, p.map, p.bits = True, n, Map(), bits
    p.entries = 2 ** bits
    p.fanout_ofs = 12
    p.sha_ofs = 12 + 4 * p.entries
    p.which_ofs = p.sha_ofs + 20 * n
    h.stub(struct.unpack_from, lambda fmt, m, offset=0: (be32(offset),))
    h.stub(_helpers.firstword, lambda b: word(b))
    return p


@unit('layout', ['bup.midx:PackMidx._get', 'bup.midx:PackMidx._get_idx_i', 'bup.midx:PackMidx._fanget'], search=False)
def u_layout(h):
    n = h.input('n', Nat)
    i = h.input('i', Int)
    bits = h.choice('bits', [0, 1, 7, 16])
    p = pm(h, n, bits)
    ex, r = h.raises(p._get, i)
    h.check((ex is not None) == (i < 0 or i >= n), 'fails exactly outside the table')
    base = 12 + 4 * 2**bits
    if ex is None:
        h.check(r == piece(base + 20 * i, base + 20 * i + 20), 'the id of the entry')
    ex, r = h.raises(p._get_idx_i, i)
    h.check((ex is not None) == (i < 0 or i >= n), 'fails exactly outside the table')
    if ex is None:
        h.check(r == be32(base + 20 * n + 4 * i), 'the source of the entry')
    if 0 <= i and i < 2**bits:
        h.check(p._fanget(i) == word(piece(12 + 4 * i, 16 + 4 * i)), 'the table entry')


upto = ufn('upto', [Nat], Bytes)


@unit('iterating ids', ['bup.midx:PackMidx.__iter__'], search=False)
def u_iter(h):
    n = h.input('n', Nat)
    bits = h.choice('bits', [0, 1, 7, 16])
    p = pm(h, n, bits)
    base = 12 + 4 * 2**bits

    def wf(k):
        h.assume(upto(k + 1) == upto(k) + piece(base + 20 * k, base + 20 * k + 20))
        return True
    h.assume(upto(0) == b'')
    wf(0)
    h.loop('bup.midx:PackMidx.__iter__', 0, out=Bytes,
           inv=lambda L: wf(L.idx) and b''.join(L.out) == upto(L.idx))
    h.check(b''.join(h.gen(p.__iter__(), Bytes)) == upto(n), 'every id in order')


# --- whole merges
@unit('leading bits', ['_helpers.c:extract_bits', '_helpers.c:firstword'], prove=False, samples=2000)
def u_bits(h):
    o = h.input('o', FixedBytes(20))
    b = h.any('b', lambda r: r.randrange(0, 32))
    v = int.from_bytes(o[:4], 'big')
    h.check(_helpers.firstword(o) == v, 'the first word')
    h.check(_helpers.extract_bits(o, b) == v >> (32 - b), 'the leading bits')


def read_midx(fn):
    """independent reader: [(id, name of the index)]"""
    with open(fn, 'rb') as f:
        x = f.read()
    assert x[:8] == b'MIDX\0\0\0\4'
    bits, = struct.unpack('!I', x[8:12])
    fan = struct.unpack_from(f'!{2**bits}I', x, 12)
    n = fan[-1]
    o = 12 + 4 * 2**bits
    ids = [x[o + 20 * i:o + 20 * i + 20] for i in range(n)]
    o += 20 * n
    src = struct.unpack_from(f'!{n}I', x, o)
    names = x[o + 4 * n:].split(b'\0')
    lead = [int.from_bytes(i[:4], 'big') >> (32 - bits) for i in ids]
    assert list(fan) == [bisect.bisect_right(lead, b) for b in range(2**bits)], 'table of leading bits'
    return [(i, names[s]) for i, s in zip(ids, src)]


def gen_sets(r):
    sets = []
    for _ in range(r.choice([1, 2, 2, 3, 5, 9])):
        k = r.random()
        if k < .25:         # many ids, so that the table has many entries
            ids = set(r.randbytes(20) for _ in range(r.choice([150, 420, 900, 1700])))
        elif k < .5:        # crowded: common leading words
            w = r.choice([r.randbytes(4), b'\0\0\0\0', b'\xff\xff\xff\xff', b'\x80\0\0\0'])
            ids = set(w + bytes([r.randrange(4)]) + r.randbytes(15) for _ in range(r.choice([2, 30, 300])))
        elif k < .7:        # skewed: leading zeros
            ids = set((r.getrandbits(160) >> r.randrange(100)).to_bytes(20, 'big') for _ in range(r.choice([5, 200, 600])))
        else:
            ids = set(gen_ids(r))
        if sets and r.random() < .5:
            o = r.choice(sets)
            ids |= set(r.sample(o, min(len(o), r.choice([1, 5, 50]))))
        if sets and r.random() < .1:
            ids = set(r.choice(sets))
        sets.append(sorted(ids))
    return sets


def check_midx(h, fn, have, r):
    """have: {id: names of the indexes that contain it}, total the number of entries"""
    got = read_midx(fn)
    ids = [i for i, _ in got]
    h.check(ids == sorted(ids), 'the ids are in order')
    want = sorted((i, n) for i, ns in have.items() for n in ns)
    h.check(sorted(got) == want, 'every id of every index, with its index, and nothing else')
    with midx.open_midx(fn) as m:
        h.check(len(m) == len(want), 'the number of ids')
        h.check([bytes(i) for i in m] == ids, 'iterating gives the ids in order')
        for i in (r.sample(ids, 400) if len(ids) > 400 else ids):
            h.check(bool(m.exists(i)), 'an id of a merged index is found', detail=i.hex())
            loc = m.exists(i, want_source=True)
            h.check(loc.pack in have[i], 'the index named contains it', detail=i.hex())
        for p in probes(r, sorted(have)):
            h.check(bool(m.exists(p)) == (p in have) and bool(m.exists(p, want_source=True)) == (p in have),
                    'no other id is found', detail=p.hex())


def setup(h, r, sets):
    h.patch(cmd_midx, _first=None)
    h.patch(git, repo_rel=lambda p: p)
    d = os.path.join(h.tmp, b'pack')
    os.mkdir(d)
    have = {}
    for k, ids in enumerate(sets):
        version = r.choice([1, 2, 2, 2])
        fn = b'pack-%02d.idx' % k
        (write_v1 if version == 1 else write_v2)(os.path.join(d, fn), ids, gen_ofs(r, ids, version))
        have[fn] = ids
    return d, have


def merged(have, names):
    res = {}
    for n in names:
        for i in have[n]:
            res.setdefault(i, []).append(n)
    return res


def seeded(h):
    import random
    return random.Random(h.any('seed', lambda r: r.getrandbits(30)))


@unit('merging indexes', ['bup.cmd.midx:_do_midx', '_helpers.c:merge_into', 'bup.midx:open_midx',
                          'bup.midx:PackMidx.__init__'], prove=False, samples=400, tmp=True)
def u_merge(h):
    sets = h.any('sets', gen_sets)
    r = seeded(h)
    d, have = setup(h, r, sets)
    names = sorted(have)
    r.shuffle(names)
    cut = r.randrange(len(names) + 1) if r.random() < .6 else 0
    parts = []
    if cut:             # a merged index of some, merged with the rest
        a = os.path.join(d, b'a.midx')
        cmd_midx.do_midx(d, a, [os.path.join(d, n) for n in names[:cut]], b'', None)
        check_midx(h, a, merged(have, names[:cut]), r)
        parts = [a]
    parts += [os.path.join(d, n) for n in names[cut:]]
    r.shuffle(parts)
    b = os.path.join(d, b'b.midx')
    rv = cmd_midx._do_midx(d, b, parts, '')
    h.check(rv == (sum(map(len, sets)), b), 'the result is told')
    check_midx(h, b, merged(have, names), r)


@unit('merging a directory', ['bup.cmd.midx:do_midx_dir', 'bup.cmd.midx:do_midx_group', 'bup.git:PackIdxList.refresh'],
      prove=False, samples=250, tmp=True)
def u_dir(h):
    sets = h.any('sets', lambda r: gen_sets(r) + gen_sets(r))
    r = seeded(h)
    d, have = setup(h, r, sets)
    everything = merged(have, have)
    for step in range(r.choice([1, 2, 3])):
        auto = r.choice([True, False])
        force = r.choice([True, False]) if auto else True
        cmd_midx.do_midx_dir(d, None, None, auto=auto, force=force, max_files=r.choice([5, 6, 100]))
        for fn in os.listdir(d):
            if fn.endswith(b'.midx'):
                fn = os.path.join(d, fn)
                m = midx.open_midx(fn)
                if m is None:       # names an index that went away
                    continue
                with m:
                    names = list(m.idxnames)
                h.check(len(set(names)) == len(names), 'no index is merged twice')
                check_midx(h, fn, merged(have, names), r)
        git._mpi_count = 0
        with git.PackIdxList(d) as l:
            h.check([bytes(x) for x in l] == sorted(everything), 'nothing is lost from the collection')
            for i in r.sample(sorted(everything), min(len(everything), 60)):
                h.check(l.exists(i, want_source=True).pack in everything[i], 'every id is found where it is')
        ids = gen_ids(r)
        fn = b'more-%d.idx' % step
        write_v2(os.path.join(d, fn), ids, gen_ofs(r, ids, 2))
        have[fn] = ids
        everything = merged(have, have)
        if r.random() < .3:     # an index goes away: midxes that name it are not used
            fn = r.choice(sorted(have))
            os.unlink(os.path.join(d, fn))
            del have[fn]
            everything = merged(have, have)
            for m in os.listdir(d):
                if m.endswith(b'.midx'):
                    x = midx.open_midx(os.path.join(d, m))
                    if x:
                        with x:
                            h.check(fn not in x.idxnames, 'a midx that names a missing index is ignored')
