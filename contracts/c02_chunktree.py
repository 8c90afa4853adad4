"""C02: a chunked file reads back exactly."""
from pyvc.spec import *
from pyvc.harness import unit
from bup import hashsplit, vfs, git

PROP = 'C02'
NOTE = ('Proved for any list of chunks and any read size: _ChunkReader.next, _FileReader.seek/read (from every '
        'consistent state), _tree_chunks and _skip_chunks_before_offset for well-formed trees of any length (recursion '
        'by contract), _normal_or_chunked_file_size. Building the tree (_squish, split_to_shalist) is evaluated on '
        'generated chunk and level sequences with small fanouts: bounded.')
LOOPS = {'bup.vfs': ['_ChunkReader.next', '_tree_chunks', '_skip_chunks_before_offset',
                     '_normal_or_chunked_file_size'],
         'bup.hashsplit': ['_make_shalist']}
ASSUME = ['tree objects decode to the entries that were encoded (C06) and objects read back as written (C07)',
          'split_to_shalist/_squish: evaluated on generated sequences (bounded)']


@rec(Seq(Bytes), ret=Bytes)
def cat(xs):
    return b'' if len(xs) == 0 else xs[0] + cat(xs[1:])


class It:
    """an iterator over the chunks"""
    def __init__(self, rest):
        self.rest = rest

    def __iter__(self):
        return self

    def __next__(self):
        if len(self.rest) == 0:
            raise StopIteration
        x = self.rest[0]
        self.rest = self.rest[1:]
        return x


def rem(r):
    """what the reader will still deliver"""
    a = b''
    if r.blob:
        a = r.blob[r.blobofs:]
    return a + (b'' if r.it is None else cat(r.it.rest))


def some_it(eng):
    if eng.choose(2) == 0:
        return None
    return It(eng.fresh('rest', Seq(Bytes)))


def some_blob(eng):
    if eng.choose(2) == 0:
        return None
    return eng.fresh('blob', Bytes)


def gen_chunks(r):
    return [r.choice([b'', b'a', b'bc', b'def', r.randbytes(9)]) for _ in range(r.choice([0, 1, 2, 4, 7]))]


def okstate(r):
    if r.blob:
        return 0 <= r.blobofs and r.blobofs <= len(r.blob)
    return True


@unit('_ChunkReader.next', ['bup.vfs:_ChunkReader.next'], samples=4000, timeout=40)
def u_next(h):
    r = object.__new__(vfs._ChunkReader)
    chunks = h.input('chunks', Seq(Bytes), gen=gen_chunks)
    blob = h.input('blob', Bytes, gen=lambda r: r.choice([b'', b'x', b'xyz', b'0123456789']))
    bofs = h.input('bofs', Nat, gen=lambda r: r.randrange(11))
    kind = h.choice('kind', ['it', 'blob', 'it and blob', 'none'])
    size = h.input('size', Int, gen=lambda r: r.choice([-1, 0, 1, 2, 3, 5, 8, 50]))
    h.assume(size >= -1)
    h.assume(bofs <= len(blob))
    h.assume(implies(kind == 'it and blob', len(blob) > 0))
    r.it = It(chunks) if kind in ('it', 'it and blob') else None
    r.blob = blob if kind in ('blob', 'it and blob') else None
    r.blobofs = bofs if kind in ('blob', 'it and blob') else None
    r.ofs = h.input('ofs', Nat)
    ofs = r.ofs
    total = rem(r)
    h.loop('bup.vfs:_ChunkReader.next', 0, keep=('self', 'size'),
           types={'out_parts': Seq(Bytes), 'out_len': Nat, 'want': Int},
           havoc={'self.it': some_it, 'self.blob': some_blob, 'self.blobofs': Int},
           inv=lambda L: okstate(L.self) and b''.join(L.out_parts) + rem(L.self) == total
           and L.out_len == len(b''.join(L.out_parts))
           and (L.size == -1 or L.out_len <= L.size))
    out = r.next(size)
    want = total if size == -1 else total[:size]
    h.check(out == want, 'the next bytes, exactly as many as asked for while there are any')
    h.check(rem(r) == total[len(want):], 'the reader stands right behind them')
    h.check(r.ofs == ofs + len(want), 'the reader knows its offset')


class Chunks:
    """the contract of _ChunkReader: reads data from ofs on"""
    def __init__(self, data, ofs):
        self.data, self.ofs = data, ofs

    def next(self, count):
        out = self.data[self.ofs:] if count == -1 else self.data[self.ofs:self.ofs + count]
        self.ofs = self.ofs + len(out)
        return out


def file_reader(h, data, size_known):
    f = object.__new__(vfs._FileReader)
    f.closed = True
    f.oid, f._repo = b'o' * 20, None
    f._size = len(data) if size_known else None
    h.stub(vfs._normal_or_chunked_file_size, lambda repo, oid: len(data))
    h.stub(vfs._ChunkReader, lambda repo, oid, ofs: Chunks(data, ofs))
    if not h.symbolic:
        h.patch(vfs, _normal_or_chunked_file_size=lambda repo, oid: len(data),
                _ChunkReader=lambda repo, oid, ofs: Chunks(data, ofs))
    return f


@unit('_FileReader.read', ['bup.vfs:_FileReader.read', 'bup.vfs:_FileReader.tell'], samples=4000)
def u_read(h):
    """from every state a reader can be in"""
    data = h.input('data', Bytes)
    ofs = h.input('ofs', Nat, gen=lambda r: r.randrange(6))
    rofs = h.input('rofs', Nat, gen=lambda r: r.randrange(6))
    count = h.input('count', Int, gen=lambda r: r.choice([-1, 0, 1, 2, 3, 9]))
    known = h.choice('size known', [False, True])
    has = h.choice('has reader', [False, True])
    h.assume(ofs <= len(data) and rofs <= len(data) and count >= -1)
    f = file_reader(h, data, known)
    f.ofs = ofs
    f.reader = Chunks(data, rofs) if has else None
    got = f.read(count)
    want = data[ofs:] if count == -1 else data[ofs:ofs + count]
    h.check(got == want, 'read gives the bytes at the offset')
    h.check(f.tell() == ofs + len(want), 'the offset advances by what was read')
    h.check(f._size is None or f._size == len(data), 'a remembered size is the size')


class Broken(Chunks):
    """a reader that fails once, having dropped what it had fetched"""
    def __init__(self, data, ofs, ex):
        self.data, self.ofs, self.ex = data, ofs, ex
        self.lost = 1

    def next(self, count):
        if self.ex is not None:
            ex, self.ex = self.ex, None
            raise ex
        out = self.data[self.ofs + self.lost:] if count == -1 else self.data[self.ofs + self.lost:self.ofs + self.lost + count]
        self.ofs = self.ofs + len(out)
        return out


FAILURES = [OSError(5, 'I/O error'), KeyError('x'), git.MissingObject(b'o' * 20), KeyboardInterrupt(), BrokenPipeError(32, 'x'),
            GeneratorExit(), EOFError()]


@unit('_FileReader.read that fails', ['bup.vfs:_FileReader.read'], samples=1500)
def u_read_failed(h):
    """a failed read is reported, and the one after it is not affected by what the reader lost"""
    data = h.input('data', Bytes)
    ofs = h.input('ofs', Nat, gen=lambda r: r.randrange(6))
    count = h.input('count', Int, gen=lambda r: r.choice([-1, 0, 1, 2, 3, 9]))
    fail = h.choice('failure', FAILURES)
    fresh = h.choice('fresh reader', [False, True])
    h.assume(ofs < len(data) and count >= -1)
    f = file_reader(h, data, False)
    f.ofs = ofs
    broken = Broken(data, ofs, fail)
    f.reader = broken
    if fresh:
        f.reader = None
        h.stub(vfs._ChunkReader, lambda repo, oid, o: broken)
        if not h.symbolic:
            h.patch(vfs, _ChunkReader=lambda repo, oid, o: broken)
    failed = None
    try:
        f.read(count)
    except (OSError, KeyError, git.MissingObject, KeyboardInterrupt, GeneratorExit, EOFError) as ex:
        failed = ex
    h.check(failed is fail, 'the failure is reported')
    h.check(f.tell() == ofs, 'a failed read does not move the offset')
    h.stub(vfs._ChunkReader, lambda repo, oid, o: Chunks(data, o))
    if not h.symbolic:
        h.patch(vfs, _ChunkReader=lambda repo, oid, o: Chunks(data, o))
    got = f.read(count)
    h.check(got == (data[ofs:] if count == -1 else data[ofs:ofs + count]), 'reading again gives the bytes at the offset')


@unit('_FileReader.seek', ['bup.vfs:_FileReader.seek'], samples=2000)
def u_seek(h):
    data = h.input('data', Bytes)
    ofs = h.input('ofs', Nat, gen=lambda r: r.randrange(6))
    to = h.input('to', Int, gen=lambda r: r.randrange(-2, 8))
    known = h.choice('size known', [False, True])
    h.assume(ofs <= len(data))
    f = file_reader(h, data, known)
    f.ofs, f.reader = ofs, None
    ex, _ = h.raises(f.seek, to)
    bad = to < 0 or to > len(data)
    h.check((ex is not None) == bad, 'seeking fails exactly outside the file')
    h.check(f.ofs == (ofs if bad else to), 'the offset is the one asked for')
    h.check(f._size is None or f._size == len(data), 'a remembered size is the size')


# --- trees of chunks
Entry = Tup(Int, Bytes, Bytes)
content = ufn('content', [Bytes], Bytes)       # what an object id stands for
hexval = ufn('hexval', [Bytes], Int)           # int(name, 16)


@rec(Seq(Entry), ret=Bytes)
def ccat(xs):
    return b'' if len(xs) == 0 else ccat(xs[:-1]) + content(xs[-1][2])


def isdir(m):
    return m // 4096 % 16 == 4


def size_before(xs, k):
    return len(ccat(xs[:k]))


kind = ufn('kind', [Bytes], Bytes)


def wellformed(h, xs, k):
    """instance k of the precondition: entries are named by the offset at which their content
    starts, have some content, and the kind their mode says"""
    if 0 <= k and k < len(xs):
        e = xs[k]
        h.assume(hexval(e[1]) == size_before(xs, k))
        h.assume(len(content(e[2])) > 0)
        h.assume(e[0] >= 0)
        h.assume(ccat(xs[:k + 1]) == ccat(xs[:k]) + content(e[2]))
        h.assume(kind(e[2]) == (b'tree' if isdir(e[0]) else b'blob'))
    return True


def tree_stubs(h, xs):
    import builtins
    h.stub(builtins.int, lambda s, base=10: hexval(s))
    h.stub(git.tree_entries, lambda data: xs)
    h.assume(len(xs) > 0)


def starts(xs, j, ofs):
    """j is the last entry that starts at or before ofs"""
    return (0 <= j and j < len(xs) and hexval(xs[j][1]) <= ofs
            and implies(j + 1 < len(xs), hexval(xs[j + 1][1]) > ofs))


@unit('_skip_chunks_before_offset', ['bup.vfs:_skip_chunks_before_offset'], search=False)
def u_skip(h):
    xs = h.input('xs', Seq(Entry))
    ofs = h.input('ofs', Nat)
    tree_stubs(h, xs)
    wellformed(h, xs, 0)
    h.loop('bup.vfs:_skip_chunks_before_offset', 0, types={'ent_ofs': Int},
           inv=lambda L: wellformed(h, xs, L.idx) and wellformed(h, xs, L.idx + 1) and
           implies(L.idx > 0, hexval(xs[L.idx - 1][1]) < ofs))
    r = vfs._skip_chunks_before_offset(b'', ofs)
    j = len(xs) - len(r)
    h.check(r == xs[j:], 'some of the last entries')
    h.check(starts(xs, j, ofs), 'starts with the entry that holds the offset')


# the same, with the entries as functions of their index
mode_at, name_at = ufn('mode_at', [Nat], Nat), ufn('name_at', [Nat], Bytes)
oid_at, before = ufn('oid_at', [Nat], Bytes), ufn('before', [Nat], Bytes)


@unit('_tree_chunks', ['bup.vfs:_tree_chunks'], search=False, timeout=60)
def u_tree_chunks(h):
    """by induction over the height of the tree: subtrees satisfy the contract"""
    n = h.input('n', Nat)
    ofs = h.input('ofs', Nat)
    j = h.input('j', Nat)
    import builtins
    h.stub(builtins.int, lambda s, base=10: hexval(s))
    h.assume(j < n)

    def wf(k):
        if k < n:
            h.assume(hexval(name_at(k)) == len(before(k)))
            h.assume(before(k + 1) == before(k) + content(oid_at(k)))
            h.assume(len(content(oid_at(k))) > 0)
            h.assume(kind(oid_at(k)) == (b'tree' if isdir(mode_at(k)) else b'blob'))
        return True
    wf(j)
    wf(j + 1)
    h.assume(ofs <= len(before(n)))
    h.assume(len(before(j)) <= ofs)
    if j + 1 < n:
        h.assume(len(before(j + 1)) > ofs)

    def skip(data, o):
        h.check(o == ofs, 'skips to the offset asked for')
        return FnSeq(n - j, lambda i: (mode_at(j + i), name_at(j + i), oid_at(j + i)))

    def get_oidx(repo, oidx, throw_missing=True):
        return None, kind(oidx), None, [content(oidx)]

    def chunks(repo, data, o):
        h.check(0 <= o and o <= len(data), 'a subtree is read from an offset inside it')
        ys = h.fresh('ys', Seq(Bytes))
        h.assume(b''.join(ys) == data[o:])
        return ys
    h.stub(vfs.hexlify, lambda b: b)
    h.stub(vfs.get_oidx, get_oidx)
    h.stub(vfs._skip_chunks_before_offset, skip)
    h.stub(vfs._tree_chunks, chunks)
    pre = before(j) + content(oid_at(j))[:ofs - len(before(j))]     # what is left out

    def inv(L):
        wf(j + L.idx)
        if L.idx == 0:
            return b''.join(L.out) == b''
        return len(before(j + L.idx)) >= ofs and pre + b''.join(L.out) == before(j + L.idx)
    h.loop('bup.vfs:_tree_chunks', 0, out=Bytes, types={'data': Bytes}, inv=inv)
    out = h.gen(h.body(vfs._tree_chunks)(None, b'', ofs), Bytes)
    h.check(b''.join(out) == before(n)[ofs:], 'the chunks are the content from the offset on')


size_of = ufn('size_of', [Bytes], Nat)
kind_of = ufn('kind_of', [Bytes], Bytes)


@unit('_normal_or_chunked_file_size', ['bup.vfs:_normal_or_chunked_file_size'], search=False)
def u_size(h):
    """the last entry of a well-formed tree starts at its offset and reaches the end"""
    oid = h.input('oid', FixedBytes(20))
    import builtins
    h.stub(builtins.int, lambda s, base=10: hexval(s))

    def get_oidx(repo, oidx, throw_missing=True):
        d = h.fresh('data', Bytes)
        if kind_of(oidx) == b'tree':
            return None, b'tree', None, [oidx]
        h.assume(len(d) == size_of(oidx))
        return None, kind_of(oidx), None, [d]

    def last(data):
        m, n, o = h.fresh('mode', Nat), h.fresh('name', Bytes), h.fresh('oid', Bytes)
        h.assume(hexval(n) + size_of(o) == size_of(data))
        return m, n, o
    h.stub(vfs.hexlify, lambda b: b)
    h.stub(vfs.get_oidx, get_oidx)
    h.stub(git.last_tree_entry, last)
    h.stub(vfs.last_tree_entry, last)
    cur = [oid]
    h.loop('bup.vfs:_normal_or_chunked_file_size', 0,
           types={'ofs': Int, 'obj_t': Bytes, 'it': lambda eng: [eng.fresh('d', Bytes)],
                  'name': Bytes, 'last_oid': Bytes},
           inv=lambda L: L.ofs + (size_of(L.it[0]) if L.obj_t == b'tree' else len(L.it[0]))
           == size_of(oid))
    h.check(vfs._normal_or_chunked_file_size(None, oid) == size_of(oid),
            'the size is that of the content')


# --- whole trees, evaluated
class Mem:
    """a repository in memory"""
    def __init__(self):
        self.objs = {}

    def put(self, t, data):
        oid = git.calc_hash(t, data)
        self.objs[oid] = (t, data)
        return oid

    def blob(self, b): return self.put(b'blob', bytes(b))
    def tree(self, l): return self.put(b'tree', git.tree_encode(l))

    def cat(self, ref):
        o = self.objs.get(bytes.fromhex(ref.decode()))
        if o is None:
            return None, None, None, None
        t, d = o
        k = len(d) // 2
        return ref, t, len(d), iter([d[:k], d[k:]])


def gen_split(r):
    n = r.choice([0, 1, 1, 2, 3, 5, 8, 17, 40, 90, 300])
    lv = r.choice([[0], [0, 0, 0, 1], [0, 0, 1, 2], [0, 1, 2, 3], [0, 0, 0, 0, 0, 0, 5], [1], [2]])
    sz = r.choice([[1], [1, 2, 3], [16], [1, 15, 16, 17, 255, 256], [0, 1], [4096]])
    same = r.random() < .3
    return [(b'z' * r.choice(sz) if same else r.randbytes(r.choice(sz)), r.choice(lv)) for _ in range(n)]


def leaves(m, mode, oid, base, h, top=False):
    t, d = m.objs[oid]
    if mode != hashsplit.GIT_MODE_TREE:
        h.check(t == b'blob', 'leaves are blobs')
        return d
    h.check(t == b'tree', 'inner nodes are trees')
    out = b''
    es = git.tree_entries(d)
    h.check(len({len(n) for _, n, _ in es}) <= 1, 'names in a tree have the same width')
    h.check(len({n for _, n, _ in es}) == len(es), 'names in a tree are distinct')
    for em, name, eo in es:
        h.check(int(name, 16) == len(out), 'every entry is named by its offset in the tree')
        out += leaves(m, hashsplit.GIT_MODE_TREE if git.stat.S_ISDIR(em) else em, eo, 0, h)
    return out


@unit('split, store, read back', ['bup.hashsplit:split_to_shalist', 'bup.hashsplit:_squish',
                                  'bup.hashsplit:_make_shalist', 'bup.hashsplit:split_to_blob_or_tree'],
      prove=False, samples=3000, weight=3)
def u_whole(h):
    m = Mem()
    chunks = h.any('chunks', gen_split)
    chunks = [(b, l) for b, l in chunks if b]
    h.patch(hashsplit, MAX_PER_TREE=h.choice('max per tree', [256, 2, 3, 5, 16]),
            fanout=h.choice('fanout', [16, 16, 4, 128]))
    data = b''.join(b for b, _ in chunks)
    mode, oid = hashsplit.split_to_blob_or_tree(m.blob, m.tree, iter(chunks))
    h.check(leaves(m, mode, oid, 0, h) == data, 'the blobs of the tree are the data')
    h.check(vfs._normal_or_chunked_file_size(m, oid) == len(data), 'the size is the length of the data')
    ops = h.any('ops', lambda r: [(r.choice(['read', 'read', 'seek', 'rseek', 'size', 'all']), r.random(),
                                   r.choice([0, 1, 2, 3, 7, 100, 5000, -1])) for _ in range(r.randrange(1, 12))])
    f = vfs.tree_data_reader(m, oid)
    try:
        pos = 0
        edges, o = [0], 0
        for b, _ in chunks:
            o += len(b)
            edges.append(o)
        for op, x, k in ops:
            if op == 'read':
                want = data[pos:] if k == -1 else data[pos:pos + k]
                got = f.read(k)
                h.check(got == want, 'read gives the bytes at the offset', detail=f'{op, pos, k}')
                pos += len(want)
            elif op == 'all':
                h.check(f.read() == data[pos:], 'read gives all the rest')
                pos = len(data)
            elif op == 'size':
                h.check(f._require_size() == len(data), 'the size does not depend on reading')
            else:
                to = int(x * (len(data) + 1)) if op == 'seek' else \
                    max(0, min(len(data), edges[int(x * len(edges))] + k % 3 - 1))
                f.seek(to)
                pos = to
            h.check(f.tell() == pos, 'tell gives the offset')
        ex, _ = h.raises(f.seek, len(data) + 1)
        h.check(ex is not None, 'no seek past the end')
    finally:
        f.close()
    h.check(b''.join(vfs._tree_chunks(m, m.objs[oid][1], 0)) == data if mode == hashsplit.GIT_MODE_TREE
            else m.objs[oid][1] == data, 'joining gives the data')
