"""C10: the bloom filter never denies an object that was added to it."""
import os, struct
from pyvc.spec import *
from pyvc.harness import unit
from bup import _helpers, bloom, git
from bup.bloom import BloomInvalid, BloomNotFound, BloomReader, BloomWriter
from bup.cmd import bloom as cmd_bloom
from contracts.idxfiles import gen_ids, gen_ofs, write_v1, write_v2

PROP = 'C10'
NOTE = ('Proved by CBMC on the real bloom_add and bloom_contains, for every filter content, length, address width, number '
        'of hash functions and id: an id just added may be present, adding never clears a bit and never makes an id '
        'that may be present absent, and every access lies inside the buffers. Lifetimes of whole filters (creating, '
        'updating, reopening, delayed writing, failing) are evaluated natively: bounded.')
LOOPS = {'bup.bloom': []}
TRUSTED = ['CBMC 6.11 (bit-precise, all memory accesses and shift distances checked)']
ASSUME = ['the argument parser of Python hands over the buffers it was given',
          'a filter has at least two bits (bup never creates a smaller one)']
_A = ['--undefined-shift-check']
CBMC = [
    dict(name='bloom.c/add, then ask', harness='bloom.c', function='h_add', unwind=12, args=_A, timeout=400,
         funcs=['_helpers.c:bloom_add', '_helpers.c:bloom_contains', '_helpers.c:to_bloom_address_bitmask4',
                '_helpers.c:to_bloom_address_bitmask5', '_helpers.c:bloom_set_bit4', '_helpers.c:bloom_get_bit4',
                '_helpers.c:bloom_set_bit5', '_helpers.c:bloom_get_bit5', '_helpers.c:bloom_size_ok']),
    dict(name='bloom.c/adding another keeps it', harness='bloom.c', function='h_keep', unwind=12, args=_A, timeout=400,
         funcs=[]),
    dict(name='bloom.c/two at once', harness='bloom.c', function='h_two', unwind=12, args=_A, timeout=600, funcs=[],
         thorough_only=True),
    dict(name='bloom.c/lengths', harness='bloom.c', function='h_length', unwind=16, args=_A, timeout=400, funcs=[]),
]
SEARCH = {'quick': 70}


class Stop(Exception):
    pass


def gen_many(r):
    return [r.randbytes(20) for _ in range(r.choice([0, 1, 2, 7, 100, 700]))] + gen_ids(r)


@unit('address', ['_helpers.c:bloom_add', '_helpers.c:bloom_contains'], prove=False, samples=3000)
def u_address(h):
    """the bits set are those of the file format: k runs of 160/k bits of the id, each the address of a bit"""
    k = h.choice('k', [4, 5])
    nbits = h.any('nbits', lambda r: r.randrange(1, 20))
    extra = h.choice('extra', [0, 1, 33])
    ids = h.any('ids', lambda r: [r.randbytes(20) for _ in range(r.choice([0, 1, 2, 9]))])
    m = bytearray(16 + 2**nbits + extra)
    h.check(_helpers.bloom_add(m, b''.join(ids), nbits, k) == len(ids), 'the number of ids added is told')
    want = bytearray(16 + 2**nbits + extra)
    w = 160 // k
    for i in ids:
        n = int.from_bytes(i, 'big')
        for j in range(k):
            part = (n >> (160 - w * (j + 1))) & (2**w - 1)
            want[16 + (part >> (w - nbits))] |= 1 << ((part >> (w - 3 - nbits)) & 7)
    h.check(m == want, 'the bits of the ids are set, and no others')
    o = h.input('o', FixedBytes(20))
    for i in ids + [o]:
        got, steps = _helpers.bloom_contains(m, i, nbits, k)
        n = int.from_bytes(i, 'big')
        parts = [(n >> (160 - w * (j + 1))) & (2**w - 1) for j in range(k)]
        h.check(bool(got) == all(want[16 + (p >> (w - nbits))] >> ((p >> (w - 3 - nbits)) & 7) & 1 for p in parts),
                'maybe exactly when all the bits are set')


def seeded(h):
    import random
    return random.Random(h.any('seed', lambda r: r.getrandbits(30)))


def check_filter(h, fn, have, names):
    with BloomReader(fn) as b:
        h.check(len(b) >= len(have), 'the number of entries counts every id')
        h.check(list(b.idxnames) == names, 'the indexes are named')
        for i in have:
            h.check(bool(b.exists(i)), 'an id that was added may be present', detail=i.hex())


class Idx:
    def __init__(self, name, ids):
        self.name, self.shatable = name, b''.join(ids)


@unit('lifetime', ['bup.bloom:BloomWriter', 'bup.bloom:BloomReader', 'bup.bloom:_create', 'bup.bloom:_open_write_map',
                   'bup.bloom:_validate_and_get_info'], prove=False, samples=600, tmp=True)
def u_life(h):
    r = seeded(h)
    fn = os.path.join(h.tmp, b'x.bloom')
    have, names = [], []
    n = 0
    exists = False
    for _ in range(r.choice([1, 2, 4])):
        delay = r.choice([None, True, False])
        expected = r.choice([1, 2, 5, 100, 3000, 40000])
        if not exists or r.random() < .15:
            w = BloomWriter(fn, 'w+b', expected, delaywrite=delay, k=r.choice([None, 4, 5]))
            mine, mynames = [], []
        else:
            w = BloomWriter(fn, 'wb', expected, delaywrite=delay)
            h.check(w.entries == n and list(w.idxnames) == names, 'an existing filter is continued')
            mine, mynames = list(have), list(names)
            n0 = n
        m = 0 if not mynames and not mine else n
        fail = r.random() < .1
        try:
            with w:
                for _ in range(r.choice([0, 1, 2, 3])):
                    ids = gen_many(r)
                    if r.random() < .5:
                        name = b'pack-%d.idx' % r.randrange(10**6)
                        w.add_idx(Idx(b'/some/where/' + name, ids))
                        mynames.append(name)
                    else:
                        w.add(b''.join(ids))
                    mine += ids
                    m += len(ids)
                    for i in mine:
                        h.check(bool(w.exists(i)), 'an id that was added may be present while writing')
                    h.check(len(w) == m, 'the entries are counted')
                if fail:
                    raise Stop
            h.check(not fail, 'a failure is reported')
            have, names, n, exists = mine, mynames, m, True
            h.check(os.path.getsize(fn) == 16 + 2**w.bits + len(b'\0'.join(names)), 'the size of the file')
        except Stop:
            # the filter is gone, or the one that was there before: never one that denies what it held
            exists = os.path.exists(fn)
        h.check([x for x in os.listdir(h.tmp) if x != b'x.bloom'] == [], 'no temporary file is left')
        if exists:
            check_filter(h, fn, have, names)
        else:
            have, names, n = [], [], 0


@unit('damaged files', ['bup.bloom:_validate_and_get_info', '_helpers.c:bloom_size_ok'], prove=False, samples=300, tmp=True)
def u_damaged(h):
    r = seeded(h)
    fn = os.path.join(h.tmp, b'x.bloom')
    with BloomWriter(fn, 'w+b', r.choice([2, 100, 5000]), k=r.choice([4, 5])) as w:
        w.add(b''.join(gen_many(r)))
        bits = w.bits
    full = os.path.getsize(fn)
    k = r.random()
    if k < .5:
        os.truncate(fn, r.choice([16, 17, full - 1, r.randrange(16, full)]))
        bad = True
    else:
        with open(fn, 'r+b') as f:
            f.seek(8)
            nb = r.choice([bits + 1, 20, 30, 31, 32, 33, 37, 38, 63, 64, 255, 65535])
            f.write(struct.pack('!H', nb))
        bad = nb > bits
    try:
        with BloomReader(fn) as b:
            for i in gen_many(r)[:50]:
                b.exists(i)
        h.check(not bad, 'a filter that is not all there is refused')
    except (BloomInvalid, ValueError, SystemError):
        h.check(bad, 'a complete filter is read')


@unit('updating from indexes', ['bup.cmd.bloom:do_bloom', 'bup.bloom:BloomWriter.add_idx', 'bup.cmd.bloom:check_bloom'],
      prove=False, samples=250, tmp=True)
def u_do(h):
    r = seeded(h)
    d = os.path.join(h.tmp, b'pack')
    os.mkdir(d)
    fn = os.path.join(d, b'bup.bloom')
    h.patch(cmd_bloom, _first=d)
    have = {}
    k = None
    for step in range(r.choice([1, 2, 3, 5])):
        for _ in range(r.choice([0, 1, 1, 2])):
            ids = sorted(set(gen_many(r)))
            name = b'pack-%d.idx' % r.randrange(10**6)
            version = r.choice([1, 2, 2])
            (write_v1 if version == 1 else write_v2)(os.path.join(d, name), ids, gen_ofs(r, ids, version))
            have[name] = ids
        if have and r.random() < .15:
            name = r.choice(sorted(have))
            os.unlink(os.path.join(d, name))
            del have[name]
        if r.random() < .2:
            k = r.choice([4, 5])
        before = None
        if os.path.exists(fn):
            with BloomReader(fn) as b:
                before = set(b.idxnames)
        cmd_bloom.do_bloom(d, fn, k, r.random() < .15)
        h.check(sorted(x for x in os.listdir(d) if not x.endswith(b'.idx')) == ([b'bup.bloom'] if os.path.exists(fn) else []),
                'no temporary file is left')
        if not have:
            continue
        if set(have) - (before or set()):
            with BloomReader(fn) as b:
                h.check(set(have) <= set(b.idxnames), 'the filter names every index')
        with BloomReader(fn) as b:
            for name, ids in have.items():
                if name in b.idxnames:
                    for i in ids:
                        h.check(bool(b.exists(i)), 'every object of an index it names may be present',
                                detail=f'{name} {i.hex()}')
            h.check(len(set(b.idxnames)) == len(b.idxnames), 'no index is added twice')
