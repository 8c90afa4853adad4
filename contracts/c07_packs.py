"""C07: objects written to a pack read back unchanged and are indexed correctly."""
import hashlib, os, struct, subprocess, zlib
from pyvc.spec import *
from pyvc.harness import unit
from bup import git

PROP = 'C07'
NOTE = ('Proved for contents of every length: the object header encoder (against a recursive spec of the pack format), '
        'the decoder, PackWriter deduplication and limits over any prior state, the bytes and offsets LocalPackStore.write '
        'hands on. Finished packs and indexes (header count, checksums, index contents, large offsets) are evaluated '
        'natively against an independent reader and git itself: bounded.')
LOOPS = {'bup.git': ['_encode_packobj', '_decode_packobj']}
ASSUME = ['zlib.decompress inverts zlib compression', 'SHA-1 collisions do not occur',
          'a file returns what was written to it']

TYPES = {b'commit': 1, b'tree': 2, b'blob': 3, b'tag': 4}


@rec(Nat, ret=Bytes)
def enc7(n):
    return byte(n) if n < 128 else byte(n % 128 + 128) + enc7(n // 128)


def header(t, n):
    return byte(t * 16 + n) if n < 16 else byte(t * 16 + n % 16 + 128) + enc7(n // 16)


class Z:
    def __init__(self, z1, z2, content):
        self.z1, self.z2, self.content = z1, z2, content

    def compress(self, data):
        self.got = data
        return self.z1

    def flush(self):
        return self.z2


def gen_size(r):
    return b'x' * r.choice([0, 1, 15, 16, 17, 127, 128, 2047, 2048, 2049, 2063, 4096, 262143, 262144, 262160])


@unit('object header', ['bup.git:_encode_packobj'], samples=300)
def u_encode(h):
    t = h.choice('type', sorted(TYPES))
    content = h.input('content', Bytes, gen=gen_size)
    n = len(content)
    if h.symbolic:
        z = Z(h.fresh('z1', Bytes), h.fresh('z2', Bytes), content)
        levels = []
        h.stub(zlib.compressobj, lambda level: (levels.append(level), z)[1])
        h.loop('bup.git:_encode_packobj', 0, types={'szout': Bytes, 'szbits': Nat, 'sz': Nat},
               decreases=lambda L: L.sz,
               inv=lambda L: 0 <= L.szbits and L.szbits < 128 and L.sz >= 0 and L.szout
               + (byte(L.szbits) if L.sz == 0 else byte(L.szbits + 128) + enc7(L.sz)) == header(TYPES[t], n))
        out = git._encode_packobj(t, content)
        h.check(z.got == content, 'the content is compressed')
        h.check(out[1] == z.z1 and out[2] == z.z2, 'all of the compressed content is written')
    else:
        out = git._encode_packobj(t, content, h.any('level', lambda r: r.choice([-1, 0, 1, 6, 9])))
        h.check(zlib.decompress(out[1] + out[2]) == content, 'the compressed content is the content')
    h.check(out[0] == header(TYPES[t], n), 'the header states the type and the size')


@unit('decoding an object', ['bup.git:_decode_packobj'], samples=300)
def u_decode(h):
    t = h.choice('type', sorted(TYPES))
    n = h.input('n', Nat)
    content = h.input('content', Bytes, gen=gen_size)
    if not h.symbolic:
        buf = header(TYPES[t], len(content)) + zlib.compress(content)
    else:
        z = h.fresh('z', Bytes)

        def decompress(b):
            h.check(b == z, 'what follows the header is decompressed')
            return content
        h.stub(zlib.decompress, decompress)
        buf = header(TYPES[t], n) + z
        h.loop('bup.git:_decode_packobj', 0, types={'c': Nat, 'i': Nat, 'sz': Nat, 'shift': Nat},
               ghost={'m': (Nat, lambda L: n // 16, lambda L: L.m if L.i == 1 else L.m // 128)},
               inv=lambda L: L.i < len(buf) and L.c < 256 and L.c == buf[L.i] and
               (buf == header(TYPES[t], n) + z if L.i == 0 else
                buf[L.i:] == enc7(L.m) + z) and implies(L.i == 0, L.m == n // 16))
    got = git._decode_packobj(buf)
    h.check(got == (t, content), 'the type and the content read back')


# --- the writer
class Store:
    """the contract of a pack store"""
    def __init__(self, h, has):
        self.h, self.has, self.log, self.fail = h, has, [], None

    def write(self, datalist, sha=None):
        if self.fail is not None:
            raise self.fail
        self.log.append(('write', datalist, sha))
        return len(b''.join(datalist)), 0

    def exists(self, oid, want_source=False):
        self.log.append(('exists', oid))
        return self.has

    def finish_pack(self):
        self.log.append(('finish',))
        return b'name'


@unit('writer', ['bup.git:PackWriter._write', 'bup.git:PackWriter.maybe_write', 'bup.git:PackWriter.just_write',
                 'bup.git:PackWriter.exists', 'bup.git:PackWriter.breakpoint'], samples=3000)
def u_writer(h):
    """from every state: writes what is new, once, under its id, within the limits"""
    has = h.choice('in the store', [True, False])
    st = Store(h, has)
    w = object.__new__(git.PackWriter)
    w._store = st
    bc = h.input('bytes', Nat)
    oc = h.input('objects', Nat)
    w._byte_count, w._obj_count = bc, oc
    w.max_pack_size = h.input('max_size', Nat)
    w.max_pack_objects = h.input('max_objects', Nat)
    w.compression_level = 1
    h.assume(bc < w.max_pack_size and oc < w.max_pack_objects)
    t = h.choice('type', sorted(TYPES))
    content = h.input('content', Bytes)
    oid = h.input('oid', FixedBytes(20))
    pend = h.input('pending', FixedBytes(20))
    if not h.symbolic and h.rng.random() < .4:
        pend = oid
    w._pending_oids = {pend}
    if h.symbolic:
        enc = (h.fresh('e0', Bytes), h.fresh('e1', Bytes), h.fresh('e2', Bytes))
        h.stub(git._encode_packobj, lambda ty, c, level: encode(ty, c))
        h.stub(git.calc_hash, lambda ty, c: chash(ty, c))
    else:
        enc = (b'a' * h.rng.choice([0, 3, 300]), b'bb', b'c')
        h.patch(git, _encode_packobj=lambda ty, c, level: encode(ty, c), calc_hash=lambda ty, c: chash(ty, c))

    def encode(ty, c):
        h.check(ty == t and c == content, 'the object itself is encoded')
        return enc

    def chash(ty, c):
        h.check(ty == t and c == content, 'the id is that of the object')
        return oid
    n = len(enc[0]) + len(enc[1]) + len(enc[2])
    just = h.choice('just write', [False, True])
    if just:
        w.just_write(oid, t, content)
        new = True
    else:
        h.check(w.maybe_write(t, content) == oid, 'the id is returned')
        new = not (oid == pend or has)
    writes = [x for x in st.log if x[0] == 'write']
    if new:
        h.check(len(writes) == 1 and writes[0][2] == oid, 'a new object is written once, under its id')
        h.check(b''.join(writes[0][1]) == enc[0] + enc[1] + enc[2], 'all of it')
        full = bc + n >= w.max_pack_size or oc + 1 >= w.max_pack_objects
        fin = [x for x in st.log if x[0] == 'finish']
        h.check((len(fin) == 1) == full and len(fin) <= 1, 'the pack is finished exactly when it is full')
        h.check(w._byte_count == (0 if full else bc + n) and w._obj_count == (0 if full else oc + 1),
                'the counts are those of the open pack')
        h.check(w.exists(oid), 'what was written exists')
    else:
        h.check(writes == [], 'what is there is not written again')
        h.check(w._byte_count == bc and w._obj_count == oc, 'the counts stay')


@unit('failed write', ['bup.git:PackWriter._write', 'bup.git:PackWriter.maybe_write', 'bup.git:PackWriter.just_write',
                       'bup.git:PackWriter.exists'], samples=500)
def u_failed(h):
    """an object whose write failed does not count as there: writing it again writes it"""
    st = Store(h, False)
    w = object.__new__(git.PackWriter)
    w._store = st
    w._byte_count, w._obj_count = h.input('bytes', Nat), h.input('objects', Nat)
    w.max_pack_size, w.max_pack_objects = h.input('max_size', Nat), h.input('max_objects', Nat)
    w.compression_level = 1
    t = h.choice('type', sorted(TYPES))
    content = h.input('content', Bytes)
    oid = h.input('oid', FixedBytes(20))
    pend = h.input('pending', FixedBytes(20))
    h.assume(pend != oid)
    w._pending_oids = {pend}
    if h.symbolic:
        h.stub(git._encode_packobj, lambda ty, c, level: (b'a', b'b'))
        h.stub(git.calc_hash, lambda ty, c: oid)
    else:
        h.patch(git, _encode_packobj=lambda ty, c, level: (b'a', b'b'), calc_hash=lambda ty, c: oid)
    st.fail = h.choice('failure', [git.GitError('x'), OSError(28, 'no space'), KeyError('x')])
    just = h.choice('just write', [False, True])
    ex, _ = h.raises(w.just_write, oid, t, content) if just else h.raises(w.maybe_write, t, content)
    h.check(ex is st.fail, 'the failure is reported')
    h.check(not w.exists(oid), 'an object that could not be written does not exist')
    st.fail = None
    w.maybe_write(t, content)
    h.check(len([x for x in st.log if x[0] == 'write']) == 1, 'writing it again writes it')


class File:
    def __init__(self, h, pos):
        self.h, self.pos, self.log = h, pos, []

    def write(self, b):
        self.log.append(b)
        self.pos = self.pos + len(b)
        return len(b)

    def tell(self):
        return self.pos


class Idx:
    def __init__(self):
        self.log = []

    def add(self, sha, crc, ofs):
        self.log.append((sha, crc, ofs))


@unit('store write', ['bup.git:LocalPackStore.write', 'bup.git:LocalPackStore._update_idx'], samples=800)
def u_store(h):
    """the bytes go to the end of the pack and their place into the index"""
    s = object.__new__(git.LocalPackStore)
    s._closed = True
    pos = h.input('pos', Nat)
    f = File(h, pos)
    s._file, s._idx = f, Idx()
    n = h.input('count', Nat)
    s._obj_count = n
    parts = tuple(h.input(f'p{i}', Bytes) for i in range(3))
    sha = h.input('sha', FixedBytes(20))
    if h.symbolic:
        crc = h.fresh('crc', Nat)
        h.assume(crc < 2**32)
        h.stub(zlib.crc32, lambda b: (h.check(b == parts[0] + parts[1] + parts[2], 'checksum of the bytes written'), crc)[1])
    else:
        crc = zlib.crc32(b''.join(parts))
    nw, c = s.write(parts, sha)
    h.check(b''.join(f.log) == parts[0] + parts[1] + parts[2] and nw == len(b''.join(f.log)), 'all bytes are written')
    h.check(s._idx.log == [(sha, crc, pos)] and c == crc, 'the index gets the id, checksum and offset')
    h.check(s._obj_count == n + 1, 'the object is counted')


# --- finished packs, against an independent reader
def read_pack(h, name):
    with open(name + b'.pack', 'rb') as f:
        data = f.read()
    h.check(data[:8] == b'PACK\0\0\0\2', 'pack signature')
    n = struct.unpack('!I', data[8:12])[0]
    h.check(hashlib.sha1(data[:-20]).digest() == data[-20:], 'the trailing checksum is that of the pack')
    h.check(os.path.basename(name) == b'pack-' + data[-20:].hex().encode(), 'the pack is named by its checksum')
    pos, objs = 12, []
    while pos < len(data) - 20:
        start = pos
        c = data[pos]
        pos += 1
        t, size, sh = c >> 4 & 7, c & 15, 4
        while c & 128:
            c = data[pos]
            pos += 1
            size |= (c & 127) << sh
            sh += 7
        d = zlib.decompressobj()
        content = d.decompress(data[pos:])
        pos = len(data) - len(d.unused_data)
        h.check(len(content) == size, 'the size in the header is that of the content')
        tn = {v: k for k, v in TYPES.items()}[t]
        oid = hashlib.sha1(b'%s %d\0' % (tn, size) + content).digest()
        objs.append((oid, start, zlib.crc32(data[start:pos]), tn, content))
    h.check(len(objs) == n, 'the pack header states the number of objects', detail=f'{len(objs)} {n}')
    return objs, data[-20:]


def read_idx(h, fn, packsum=None):
    with open(fn, 'rb') as f:
        x = f.read()
    h.check(x[:8] == b'\377tOc\0\0\0\2', 'index signature')
    fan = struct.unpack('!256I', x[8:1032])
    n = fan[255]
    shas = [x[1032 + 20 * i:1052 + 20 * i] for i in range(n)]
    p = 1032 + 20 * n
    crcs = struct.unpack(f'!{n}I', x[p:p + 4 * n])
    p += 4 * n
    o32 = struct.unpack(f'!{n}I', x[p:p + 4 * n])
    p += 4 * n
    n64 = sum(1 for o in o32 if o >= 2**31)
    o64 = struct.unpack(f'!{n64}Q', x[p:p + 8 * n64])
    p += 8 * n64
    h.check(len(x) == p + 40, 'the index has the length of its parts')
    if packsum is not None:
        h.check(x[p:p + 20] == packsum, 'the index names the pack checksum')
    h.check(hashlib.sha1(x[:-20]).digest() == x[-20:], 'the trailing checksum is that of the index')
    h.check(shas == sorted(shas), 'the ids are sorted')
    for b in range(256):
        h.check(fan[b] == sum(1 for s in shas if s[0] <= b), 'the fanout counts the ids')
    ofs = [o64[o - 2**31] if o >= 2**31 else o for o in o32]
    return list(zip(shas, crcs, ofs))


def gen_objs(r):
    res = []
    for _ in range(r.choice([1, 2, 3, 8, 25])):
        t = r.choice(sorted(TYPES))
        c = r.choice([b'', b'a', b'\0' * 20, r.randbytes(r.choice([15, 16, 17, 2047, 2048, 5000])), b'x' * 3000])
        res.append((t, c))
    res += [r.choice(res) for _ in range(r.choice([0, 1, 3]))]
    return res


@unit('packs on disk', ['bup.git:LocalPackStore.finish_pack', 'bup.git:PackIdxV2Writer.write', 'C:write_idx',
                        'bup.git:PackWriter.close'], prove=False, samples=150, tmp=True, weight=2)
def u_packs(h):
    objs = h.any('objs', gen_objs)
    maxobj = h.any('max objects', lambda r: r.choice([None, 1, 2, 5]))
    maxsize = h.any('max size', lambda r: r.choice([None, 100, 3000]))
    level = h.any('level', lambda r: r.choice([None, 0, 1, 9]))
    runs = h.any('runs', lambda r: r.choice([1, 2]))
    repo = os.path.join(h.tmp, b'r')
    os.makedirs(repo + b'/objects/pack')
    finished = []
    for _ in range(runs):
        st = git.LocalPackStore(repo_dir=repo, run_midx=False, on_pack_finish=finished.append)
        with git.PackWriter(store=st, compression_level=level, max_pack_size=maxsize,
                            max_pack_objects=maxobj) as w:
            for t, c in objs:
                oid = w.maybe_write(t, c)
                h.check(oid == hashlib.sha1(b'%s %d\0' % (t, len(c)) + c).digest(), 'the id is git\'s')
                h.check(w.exists(oid), 'what was written exists')
    pd = repo + b'/objects/pack'
    names = sorted(pd + b'/' + x[:-5] for x in os.listdir(pd) if x.endswith(b'.pack'))
    h.check(sorted(os.listdir(pd)) == sorted(os.path.basename(n) + e for n in names for e in (b'.idx', b'.pack')),
            'every pack has its index, and nothing else is left')
    h.check(sorted(finished) == names, 'finished packs are reported')
    h.check(os.listdir(repo + b'/objects') == [b'pack'], 'no temporary files are left')
    seen = {}
    for n in names:
        content, packsum = read_pack(h, n)
        h.check(content != [], 'no pack is empty')
        h.check(maxobj is None or len(content) <= maxobj, 'no more objects than allowed')
        if maxsize:
            last = max(o[1] for o in content)
            h.check(last - 12 < maxsize, 'nothing is added to a pack that has its size')
        idx = read_idx(h, n + b'.idx', packsum)
        h.check(sorted((o, c, p) for o, p, c, _, _ in content) == sorted((o, c, p) for o, c, p in idx),
                'the index lists every object of the pack with its checksum and offset')
        for o, p, c, t, data in content:
            h.check(o not in seen, 'no object is written twice')
            seen[o] = (t, data)
            with open(n + b'.pack', 'rb') as f:
                f.seek(p)
                nxt = min([q for _, q, _, _, _ in content if q > p] + [os.path.getsize(n + b'.pack') - 20])
                h.check(git._decode_packobj(f.read(nxt - p)) == (t, data), 'the object reads back at its offset')
        with git.open_idx(n + b'.idx') as ix:
            for o, p, *_ in content:
                h.check(ix.find_offset(o) == p, 'the index finds the offset')
    want = {hashlib.sha1(b'%s %d\0' % (t, len(c)) + c).digest(): (t, c) for t, c in objs}
    h.check(seen == want, 'every object written is there with its type and content')
    if h.rng.random() < .15:
        for n in names:
            p = subprocess.run(['git', 'index-pack', '--stdin' if False else '-o', os.fsdecode(h.tmp) + '/x.idx',
                                os.fsdecode(n) + '.pack'], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            h.check(p.returncode == 0, 'git accepts the pack', detail=p.stderr.decode())
            with open(h.tmp + b'/x.idx', 'rb') as a, open(n + b'.idx', 'rb') as b:
                h.check(a.read() == b.read(), 'git computes the same index')
            os.unlink(h.tmp + b'/x.idx')


def gen_idx(r):
    es = {}
    for _ in range(r.choice([1, 2, 5, 40])):
        s = bytes([r.choice([0, 1, 127, 128, 254, 255, r.randrange(256)])]) + r.choice(
            [b'\0' * 19, b'\xff' * 19, r.randbytes(19)])
        es[s] = (s, r.choice([0, 1, 2**31, 2**32 - 1]),
                 r.choice([12, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**40 + 7, 2**63]))
    return list(es.values())


@unit('index file', ['bup.git:PackIdxV2Writer.add', 'bup.git:PackIdxV2Writer.write', 'C:write_idx'],
      prove=False, samples=400, tmp=True)
def u_idx(h):
    """ids and offsets of every size"""
    es = h.any('entries', gen_idx)
    w = git.PackIdxV2Writer()
    for e in es:
        w.add(*e)
    fn = os.path.join(h.tmp, b'x.idx')
    w.write(fn, b'p' * 20)
    h.check(read_idx(h, fn, b'p' * 20) == sorted(es), 'the index lists what was added')


@unit('abandoned pack', ['bup.git:PackWriter.abort', 'bup.git:LocalPackStore.finish_pack'], prove=False,
      samples=40, tmp=True)
def u_abort(h):
    objs = h.any('objs', gen_objs)
    repo = os.path.join(h.tmp, b'r')
    os.makedirs(repo + b'/objects/pack')
    st = git.LocalPackStore(repo_dir=repo, run_midx=False)
    w = git.PackWriter(store=st)
    for t, c in objs:
        w.maybe_write(t, c)
    w.abort()
    h.check(os.listdir(repo + b'/objects/pack') == [] and os.listdir(repo + b'/objects') == [b'pack'],
            'an abandoned pack leaves nothing')


CBMC = []
