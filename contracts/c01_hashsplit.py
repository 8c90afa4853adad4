"""C01: splitting loses nothing and bounds every chunk."""
import os
from io import BytesIO
from itertools import accumulate, chain, repeat
from operator import sub
from pyvc.spec import *
from pyvc.harness import unit
from bup import hashsplit, _helpers

PROP = 'C01'
NOTE = ('The split point search (HashSplitter_roll) is proved for every buffer length with function and loop '
        'contracts enforced by goto-instrument --dfcc; the checksum step for every state. The iterator around it '
        '(buffer refill, end of files, maximum size) is evaluated against an independent definition of the '
        'chunking, bounded by the inputs generated.')
LOOPS = {'bup.hashsplit': ['split_to_blobs']}
TRUSTED = ['CBMC 6.11 (goto-instrument --dfcc function and loop contracts, bit-precise)']
ASSUME = ['HashSplitter_iternext, _read, _nextfile and _realloc are evaluated on generated inputs (bounded)',
          'fadvise/mincore handling has no effect on the data read']
_M = '((((r->s1 << 16) | (r->s2 & 0xffff)) & ((1u << nbits) - 1)) != ((1u << nbits) - 1))'
CBMC = [
    dict(name='roll.c/HashSplitter_roll', harness='roll.c', function='h_roll',
         funcs=['_hashsplit.c:HashSplitter_roll'],
         dfcc=dict(enforce='HashSplitter_roll',
                   unwindset='HashSplitter_roll.0:2,HashSplitter_roll.1:33',
                   loops={'HashSplitter_roll': [dict(
                       loop_id='0',
                       invariants=f'count <= len && r->wofs >= 0 && r->wofs < 64 && (count == 0 || {_M})',
                       assigns='count, *r, *extrabits',
                       decreases='len - count',
                       symbol_map=';'.join(['count,HashSplitter_roll::1::count'] + [
                           f'{v},HashSplitter_roll::{v}' for v in ('len', 'r', 'extrabits', 'nbits')]))]})),
    dict(name='roll.c/rollsum step', harness='roll.c', function='h_step', unwind=65,
         funcs=['bupsplit.h:rollsum_roll', 'bupsplit.h:rollsum_add']),
    dict(name='roll.c/rollsum_init', harness='roll.c', function='h_init', unwind=65,
         funcs=['bupsplit.h:rollsum_init']),
]
SEARCH = {'quick': 60}


# An independent definition: a chunk ends after the first byte at which the low
# `bits` bits of the checksum of the last 64 bytes of the chunk are all ones, at
# 4 << bits bytes, or where the input (or a kept boundary) ends.
def sums(w):
    """of one window, oldest byte first, 64 long"""
    return 64 * 31 + sum(w), 64 * 63 * 31 + sum((64 - i) * b for i, b in enumerate(w))


def digest(w):
    s1, s2 = sums(w)
    return ((s1 << 16) | (s2 & 0xffff)) & 0xffffffff


def extra(d, bits):
    d >>= bits + 1
    n = 0
    while d & 1:
        n, d = n + 1, d >> 1
    return n


def expect(data, bits, fanbits):
    """-> [(chunk, level)] of one piece"""
    n = len(data)
    mask = (1 << bits) - 1
    m16 = mask & 0xffff
    t1 = accumulate(map(sub, data, chain(repeat(0, 64), data)))
    drop = chain(repeat(0, 64), data)
    want = (m16 - 64 * 63 * 31) & m16
    cand = []
    s2 = 0
    if n < 3000000:
        s = list(accumulate(a - 64 * b for a, b in zip(t1, drop)))
        cand = [i for i, x in enumerate(s) if x & m16 == want]
    else:
        cand = [i for i, x in enumerate(accumulate(a - 64 * b for a, b in zip(t1, drop)))
                if x & m16 == want]
    cand = [i for i in cand if i >= 63 and digest(data[i - 63:i + 1]) & mask == mask]
    out = []
    pos = k = 0
    mx = 4 << bits
    while pos < n:
        end = None
        for i in range(pos, min(pos + 63, n)):
            w = bytes(63 - (i - pos)) + data[pos:i + 1]
            if digest(w) & mask == mask:
                end, d = i + 1, digest(w)
                break
        if end is None:
            while k < len(cand) and cand[k] < pos + 63:
                k += 1
            if k < len(cand):
                end, d = cand[k] + 1, digest(data[cand[k] - 63:cand[k] + 1])
        if end is not None and end - pos <= mx:
            out.append((data[pos:end], extra(d, bits) // fanbits))
            pos = end
        else:
            end = min(n, pos + mx)
            out.append((data[pos:end], 0))
            pos = end
    return out


def splitter_window(r, ones, more=None):
    """64 bytes whose checksum ends in `ones` one bits, then a given bit, then `more` ones"""
    if more is not None:
        more = max(0, min(more, 28 - ones))
    while True:
        w = [r.randrange(200) for _ in range(64)]
        s1, s2 = sums(w)
        nb = max(0, ones - 16)
        hi = (1 << nb) - 1
        if more is not None:
            # bits ones+1 .. ones+more set; s1 carries bits 16 and up
            for b in range(ones + 1, ones + 1 + more):
                if b >= 16:
                    hi |= 1 << (b - 16)
        want1 = s1 | hi
        i = 0
        while s1 < want1 and i < 64:
            d = min(255 - w[i], want1 - s1)
            w[i] += d
            s1 += d
            i += 1
        if s1 != want1:
            continue
        s1, s2 = sums(w)
        delta = (0xffff - s2) % 65536
        if delta > 32768:
            delta -= 65536
        # moving one unit from weight a to weight b changes s2 by b - a
        for _ in range(4000):
            if not delta:
                return bytes(w)
            i, j = r.randrange(64), r.randrange(64)
            step = i - j            # unit moves from index i to j: weights 64-i to 64-j
            if step == 0 or (step > 0) != (delta > 0):
                continue
            u = min(w[i], 255 - w[j], abs(delta) // abs(step))
            w[i] -= u
            w[j] += u
            delta -= u * step


class Reader:
    """a file object that returns at most what the schedule says"""
    def __init__(self, data, sched):
        self.data, self.pos, self.sched = data, 0, list(sched)

    def read(self, n):
        k = self.sched.pop(0) if self.sched else n
        k = max(1, min(k, n))
        b = self.data[self.pos:self.pos + k]
        self.pos += len(b)
        return b


def gen_piece(r, bits):
    k = r.randrange(9)
    if k == 0:
        return b''
    if k == 1:
        return bytes(r.choice([1, 63, 64, 65, 100]))
    if k == 2:
        return r.randbytes(r.choice([1, 5, 64, 200, 9000, 40000]))
    if k == 3:
        mx = 4 << bits
        return bytes(mx + r.choice([-1, 0, 1])) if bits < 16 else b'x'
    if k == 4:
        return b'ab' * r.randrange(1, 20000)
    out = b''
    for _ in range(r.choice([1, 2, 5])):
        out += r.randbytes(r.choice([0, 1, 10, 64, 500]))
        out += splitter_window(r, bits, r.choice([None, 0, 1, 2, 4, 5, 8, 9, 12]))
        if r.random() < .3:
            out += splitter_window(r, bits)
    if r.random() < .5:
        out += r.randbytes(r.choice([1, 63, 64, 1000]))
    return out


def gen_files(r):
    bits = r.choice([13, 13, 13, 14, 15, 16, 17, 18, 20, 21])
    fs = [gen_piece(r, bits) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
    return bits, fs


def scheds(r):
    k = r.randrange(5)
    if k == 0:
        return []
    if k == 1:
        return [1] * 70
    return [r.choice([1, 2, 63, 64, 65, 1000, 8192, 1 << 22]) for _ in range(60)]


def want(fs, bits, fan, keep):
    if keep:
        return [c for f in fs for c in expect(f, bits, fan)]
    return expect(b''.join(fs), bits, fan)


def checks(h, got, fs, bits, fan, keep, kind):
    got = [(bytes(b), l) for b, l in got]
    h.check(all(len(b) for b, _ in got), 'no chunk is empty')
    h.check(all(len(b) <= 4 << bits for b, _ in got), 'no chunk exceeds the maximum')
    h.check(b''.join(b for b, _ in got) == b''.join(fs), 'the chunks concatenate to the input')
    if keep:
        ends, pos = set(), 0
        for f in fs:
            pos += len(f)
            ends.add(pos)
        pos = 0
        ok = True
        for b, _ in got:
            ok = ok and not any(pos < e < pos + len(b) for e in ends)
            pos += len(b)
        h.check(ok, 'no chunk spans two files')
    h.check([b for b, _ in got] == [b for b, _ in want(fs, bits, fan, keep)],
            'the chunks are determined by the bytes alone')
    h.check([l for _, l in got] == [l for _, l in want(fs, bits, fan, keep)],
            'the levels are determined by the bytes alone')


@unit('HashSplitter on objects', ['_hashsplit.c:HashSplitter_iternext', '_hashsplit.c:HashSplitter_read',
                                  '_hashsplit.c:HashSplitter_realloc', '_hashsplit.c:HashSplitter_nextfile'],
      prove=False, samples=5000, weight=4)
def u_objects(h):
    bits, fs = h.any('files', gen_files)
    fan = h.choice('fanbits', [4, 1, 2, 3, 8])
    keep = h.choice('keep_boundaries', [False, True])
    ss = h.any('schedules', lambda r: [scheds(r) for _ in range(8)])
    seen = []
    got = list(_helpers.HashSplitter((Reader(f, ss[i % 8]) for i, f in enumerate(fs)), bits=bits,
                                     keep_boundaries=keep, fanbits=fan,
                                     progress=lambda n, b: seen.append((n, b))))
    checks(h, got, fs, bits, fan, keep, 'objects')
    h.check(sum(b for _, b in seen) == sum(len(f) for f in fs), 'progress adds up to the input')
    tot = {}
    for n, b in seen:
        tot[n] = tot.get(n, 0) + b
    h.check(all(tot.get(i, 0) == len(f) for i, f in enumerate(fs)), 'progress names the right file')


@unit('HashSplitter on real files', ['_hashsplit.c:HashSplitter_read'], prove=False, samples=1500,
      tmp=True, weight=2)
def u_files(h):
    bits, fs = h.any('files', gen_files)
    keep = h.choice('keep_boundaries', [False, True])
    kind = h.choice('kind', ['file', 'pipe', 'bytesio'])
    hs = []
    for i, f in enumerate(fs):
        if kind == 'bytesio':
            hs.append(BytesIO(f))
        elif kind == 'file':
            p = os.fsdecode(h.tmp) + f'/{i}'
            with open(p, 'wb') as o:
                o.write(f)
            hs.append(open(p, 'rb'))
        else:
            rd, wr = os.pipe()
            f = fs[i] = f[:60000]
            os.write(wr, f)
            os.close(wr)
            hs.append(os.fdopen(rd, 'rb', buffering=0))
    try:
        got = list(hashsplit.splitter(hs, blobbits=bits, keep_boundaries=keep))
    finally:
        for f in hs:
            f.close()
    checks(h, got, fs, bits, 4, keep, kind)


def big(tier):
    for k in range(4 if tier == 'quick' else 24):
        yield dict(seed=k)


@unit('HashSplitter past the buffer size', ['_hashsplit.c:HashSplitter_realloc'], prove=False, samples=0,
      cases=big, weight=2)
def u_big(h):
    """inputs larger than the 8 MiB buffer, so that chunks cross a refill"""
    import random
    seed = h.any('seed', lambda r: r.randrange(1000))
    r = random.Random(seed)
    M = 1 << 23
    a = r.randbytes(1 << 20)
    cut = [0, 20000, 1, 77777][seed % 4]
    bits = [13, 13, 20, 21][seed % 4]
    data = bytes(M - cut) if seed % 2 else (a * 8)[:M - cut]
    data += splitter_window(r, bits, 3) + a[:100000]
    fs = [data, a[:70000]]
    got = list(_helpers.HashSplitter((Reader(f, [M // 3, 1, M // 2] if seed % 3 else []) for f in fs),
                                     bits=bits, keep_boundaries=bool(seed % 2), fanbits=4))
    checks(h, got, fs, bits, 4, bool(seed % 2), 'big')


Chunk = Tup(Bytes, Nat)
Stored = Tup(Bytes, Nat, Nat)


def key(b):
    return b'k' + b


@rec(Seq(Chunk), ret=Seq(Stored))
def stored(xs):
    return [] if len(xs) == 0 else stored(xs[:-1]) + [(key(xs[-1][0]), len(xs[-1][0]), xs[-1][1])]


@unit('split_to_blobs', ['bup.hashsplit:split_to_blobs'], samples=100)
def u_blobs(h):
    """every chunk is stored, in order, with its own length and level"""
    xs = h.input('xs', Seq(Chunk), gen=lambda r: [(r.randbytes(r.randrange(1, 9)), r.randrange(4))
                                                for _ in range(r.randrange(6))])
    h.patch(hashsplit, total_split=0)
    h.loop('bup.hashsplit:split_to_blobs', 0, out=Stored, types={'sha': Bytes, 'blob': Bytes, 'level': Nat},
           inv=lambda L: L.out == stored(L.done))
    out = h.gen(hashsplit.split_to_blobs(key, xs), Stored)
    h.check(out == stored(xs), 'one stored blob per chunk, in order, with its id, length and level')
