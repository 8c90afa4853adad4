"""C16: files are replaced and refs moved only after the new data is complete."""
import builtins, hashlib, os, shutil, sys, struct, subprocess, tempfile, zlib
from pyvc import cli, ophook
from pyvc.spec import *
from pyvc.harness import unit
from bup import bloom, client, git, helpers, hlinkdb, index, protocol
from bup.cmd import midx as cmd_midx
from bup.repo import local, remote

PROP = 'C16'
NOTE = ('Proved, for every combination of failing operations and at every point between two of them: the replacement of a file, '
        'its users (hard link database, index, midx, fetched index), the completion of a pack and of its index, and that a ref is '
        'moved only after everything written has been finished. The file system is a model that keeps what has been written, '
        'flushed, synced and renamed. Whole commands are evaluated natively with the repository inspected at every rename, unlink '
        'and ref update, and with each of those operations failing: bounded.')
TRUSTED = ['rename replaces its target in one step, and fsync makes durable what was written before',
           'git update-ref changes a ref in one step']


class Fault(OSError):
    pass


sys.unraisablehook = lambda *a: None        # destructors that find a failed constructor


class Body(Exception):
    pass


# --- a file system: what is written, flushed, synced
class Node:
    def __init__(self, data=b''):
        self.data = data        # what the kernel has
        self.durable = data     # what was there at the last sync
        self.pending = []       # what is still in the buffer of the process: (position, data)
        self.open = 0

    def whole(self):
        return self.data == self.durable and not self.pending


class File:
    """an open file: buffered writing at a position"""
    def __init__(self, fs, node, name):
        self.fs, self.node, self.name, self.fd, self.pos, self.closed = fs, node, name, fs.newfd(node), 0, False
        self.append = False

    def fileno(self):
        return self.fd

    def write(self, b):
        self.fs.op('write')
        if self.append:
            self._drain()
            self.pos = len(self.node.data)
        self.node.pending.append((self.pos, b))
        self.pos = self.pos + len(b)
        return len(b)

    def _drain(self):
        n = self.node
        for at, b in n.pending:
            n.data = n.data[:at] + b + n.data[at + len(b):]
        n.pending = []

    def flush(self):
        if self.node.pending:
            self.fs.op('flush')
        self._drain()

    def seek(self, at, whence=0):
        self.flush()
        self.pos = at if whence == 0 else len(self.node.data) + at
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, n):
        self.flush()
        self.fs.op('truncate')
        d = self.node.data
        self.node.data = d[:n] + bytes(n - len(d[:n]))

    def read(self, n=-1):
        self.flush()
        d = self.node.data
        r = d[self.pos:] if n < 0 else d[self.pos:self.pos + n]
        self.pos = self.pos + len(r)
        return r

    def close(self):
        if not self.closed:
            self.closed = True
            try:
                if self.node.pending:
                    self.fs.op('flush at close')
                    self._drain()
            finally:
                self.node.pending = []
                self.fs.fds.pop(self.fd)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


class FS:
    def __init__(self, h, files, dirs, faults=True):
        self.h, self.faults = h, faults
        self.files, self.dirs, self.fds = dict(files), set(dirs), {}
        self.nfd = self.ntmp = self.k = 0
        self.failed, self.log, self.watch = [], [], lambda: None
        self.dirty = set()      # directories with unsynced changes
        for f, g in {builtins.open: self.open, os.open: self.osopen, os.close: self.osclose, os.rename: self.rename,
                     os.replace: self.rename, os.fsync: self.fsync, tempfile.mkdtemp: self.mkdtemp, shutil.rmtree: self.rmtree,
                     os.unlink: self.unlink, os.remove: self.unlink, os.path.exists: lambda p: p in self.files or p in self.dirs,
                     getattr(os, 'fdatasync', None): self.fsync, helpers.fsync: self.fsync}.items():
            if f is not None:
                h.stub(f, g)

    def newfd(self, what):
        self.nfd += 1
        self.fds[self.nfd] = what
        return self.nfd

    def op(self, what):
        """one step, which may fail; before each, the process or the machine may also stop"""
        self.watch()
        self.k += 1
        self.log.append(what)
        if self.faults and self.h.choice(f'{self.k} {what} fails', [False, True]):
            self.failed.append(what)
            raise Fault(5, what)

    def at(self, path, dir_fd):
        return path if dir_fd is None else self.fds[dir_fd] + b'/' + path

    def open(self, path, mode='r', buffering=-1, opener=None, **kw):
        if opener is not None:
            fd = opener(path, os.O_RDWR | os.O_CREAT | os.O_TRUNC if 'w' in mode else os.O_RDWR)
            path = self.fds.pop(fd)
        else:
            self.op('open')
        if 'w' in mode:
            self.files[path] = Node()
        if path not in self.files:
            raise FileNotFoundError(2, 'none', path)
        f = File(self, self.files[path], path)
        if 'a' in mode:
            f.append, f.pos = True, len(f.node.data)
        return f

    def osopen(self, path, flags, mode=0o777, *, dir_fd=None):
        self.op('os.open')
        p = self.at(path, dir_fd)
        self.h.check(p in self.dirs or bool(flags & os.O_CREAT), 'it opens a directory or creates a file')
        return self.newfd(p)

    def osclose(self, fd):
        self.fds.pop(fd)

    def rename(self, a, b, *, src_dir_fd=None, dst_dir_fd=None):
        self.op('rename')
        a, b = self.at(a, src_dir_fd), self.at(b, dst_dir_fd)
        self.files[b] = self.files.pop(a)
        self.dirty.add(b.rpartition(b'/')[0])
        self.log.append(('renamed', b))

    def fsync(self, fd):
        self.op('fsync')
        x = self.fds[fd]
        if isinstance(x, bytes):
            self.dirty.discard(x)
        else:
            x.durable = x.data

    def mkdtemp(self, suffix=None, prefix=None, dir=None):
        self.op('mkdtemp')
        self.ntmp += 1
        p = dir + b'/' + prefix + b'tmp%d' % self.ntmp
        self.dirs.add(p)
        return p

    def rmtree(self, p, **kw):
        self.op('rmtree')
        self.h.check(b'tmp' in p, 'only the temporary directory is removed')
        if p not in self.dirs:
            raise FileNotFoundError(2, 'none', p)
        self.dirs.discard(p)
        for x in [x for x in self.files if x.startswith(p + b'/')]:
            del self.files[x]

    def unlink(self, p):
        self.op('unlink')
        if p not in self.files:
            raise FileNotFoundError(2, 'none', p)
        del self.files[p]
        self.dirty.add(p.rpartition(b'/')[0])

    def settled(self, dirs):
        """afterwards: nothing temporary, nothing open"""
        self.h.check('rmtree' in self.failed or self.dirs == set(dirs), 'no temporary directory is left')
        self.h.check(not self.fds, 'no file is left open')


# --- atomically_replaced_file
ARF = ['bup.helpers:atomically_replaced_file.__init__', 'bup.helpers:atomically_replaced_file.__enter__',
       'bup.helpers:atomically_replaced_file.__exit__', 'bup.helpers:atomically_replaced_file.cancel',
       'bup.helpers:finalized.__exit__', 'bup.helpers:temp_dir', 'bup.helpers:open_in', 'bup.helpers:os_closed']


@unit('replacement', ARF, search=False, engine=dict(max_paths=20000))
def u_replace(h):
    data, before = h.input('data', Bytes), h.input('before', Bytes)
    h.assume(data != before)
    exists = h.choice('exists', [True, False])
    sync = h.choice('sync', [True, False])
    how = h.choice('how', ['done', 'exception', 'cancel'])
    path = h.choice('path', [b'd/f', b'f'])
    parent = b'd' if b'/' in path else b'.'
    target = parent + b'/f'
    old = Node(before)
    fs = FS(h, {target: old} if exists else {}, [parent])
    state = {'finished': False}

    def watch():
        n = fs.files.get(target)
        if n is None:
            h.check(not exists, 'the file never goes away')
        elif n is not old:
            h.check(state['finished'] and how == 'done', 'the file is replaced only when its writer is done')
            h.check(n.data == data and n.whole(), 'the file is replaced by complete content')
    fs.watch = watch

    def go():
        arf = helpers.atomically_replaced_file(path, 'wb', sync=sync)
        with arf as f:
            f.write(data)
            if how == 'exception':
                raise Body()
            if how == 'cancel':
                arf.cancel()
            f.flush()
            helpers.fsync(f.fileno())
            f.close()
            state['finished'] = True
    ex, _ = h.raises(go)
    watch()
    fs.settled([parent])
    n = fs.files.get(target)
    now = n is not None and n is not old
    h.check(set(fs.files) <= {target} or 'rmtree' in fs.failed, 'no other file is left')
    if how == 'exception' or how == 'cancel':
        h.check(not now, 'an abandoned replacement changes nothing')
    h.check((ex is not None) == (how == 'exception' or bool(fs.failed)), 'a failure is reported, and nothing else is')
    if ex is None and how == 'done':
        h.check(now, 'the new content is in place')
        if sync:
            h.check(not fs.dirty, 'the directory is synced')
    if not fs.failed:
        h.cover('no failure')


# --- its users: the content is complete and synced when it gets its name
def watching(fs, target, old, state):
    h = fs.h

    def watch():
        n = fs.files.get(target)
        if n is None:
            h.check(old is None or state.get('removed'), 'the file does not go away')
        elif n is not old:
            h.check(bool(state.get('may')), 'nothing is visible before the data is complete')
            h.check(not n.pending, 'nothing remains to be written when the file gets its name')
            h.check(n.data == state['want'], 'the file is replaced by the complete content')
            h.check(n.durable == state['want'], 'the content is synced before it gets its name')
    fs.watch = watch
    return watch


def outcome(fs, ex, dirs, target, old, wanted):
    h = fs.h
    fs.watch()
    fs.settled(dirs)
    n = fs.files.get(target)
    h.check('rmtree' in fs.failed or set(fs.files) <= {target}, 'no other file is left')
    h.check((ex is not None) == bool(fs.failed), 'a failure is reported, and nothing else is')
    if ex is None:
        h.check(n is not old if wanted else n is old, 'the file is replaced if that was wanted, and only then')
        h.check(not fs.dirty, 'the directory is synced')
    if not fs.failed:
        h.cover('no failure')


@unit('hard link database', ['bup.hlinkdb:HLinkDB.prepare_save', 'bup.hlinkdb:HLinkDB.commit_save', 'bup.hlinkdb:HLinkDB.abort_save',
                             'bup.hlinkdb:HLinkDB.__exit__'] + ARF, search=False, engine=dict(max_paths=20000))
def u_hlink(h):
    import pickle
    one, two, before = h.input('one', Bytes), h.input('two', Bytes), h.input('before', Bytes)
    exists = h.choice('exists', [True, False])
    empty = h.choice('empty', [True, False])
    commit = h.choice('commit', [True, False])
    old = Node(before) if exists else None
    fs = FS(h, {b'd/h': old} if exists else {}, [b'd'])
    state = {'want': one + two}
    watching(fs, b'd/h', old, state)
    h.stub(hlinkdb.pickle_load, lambda fn: None)
    db = hlinkdb.HLinkDB(b'd/h')
    if not empty:
        db._node_paths = {b'1:2': [b'/p', b'/q']}

    def dump(what, f, protocol):
        h.check(what is db._node_paths, 'the paths of every inode are saved')
        f.write(one)
        f.write(two)
    h.stub(pickle.dump, dump)

    def go():
        with db:
            db.prepare_save()
            if commit:
                state['may'] = True
                state['removed'] = empty
                db.commit_save()
    ex, _ = h.raises(go)
    fs.watch()
    fs.settled([b'd'])
    n = fs.files.get(b'd/h')
    h.check('rmtree' in fs.failed or set(fs.files) <= {b'd/h'}, 'no other file is left')
    h.check((ex is not None) == bool(fs.failed), 'a failure is reported, and nothing else is')
    if not commit:
        h.check(n is old, 'an abandoned save changes nothing')
    elif ex is None:
        h.check(n is None if empty else n is not None and n is not old, 'a save that succeeds is in place')
        h.check(empty or not fs.dirty, 'the directory is synced')
    h.check(db.closed, 'the database is closed')
    if not fs.failed:
        h.cover('no failure')


@unit('index', ['bup.index:Writer.__init__', 'bup.index:Writer.flush', 'bup.index:Writer.close', 'bup.index:Writer.abort',
                'bup.index:Writer.__exit__'] + ARF, search=False, engine=dict(max_paths=20000))
def u_index(h):
    body, tail, before = h.input('body', Bytes), h.input('tail', Bytes), h.input('before', Bytes)
    count = h.choice('count', [0, 3])
    exists = h.choice('exists', [True, False])
    how = h.choice('how', ['close', 'exit', 'exception'])
    old = Node(before) if exists else None
    fs = FS(h, {b'd/i': old} if exists else {}, [b'd'])
    sig = index.ENTRY_SIG.encode('ascii')
    state = {'want': index.INDEX_SIG + bytes([len(sig)]) + sig + body + tail
             + struct.pack(index.FOOTER_SIG, count + 1 if count else 0)}
    watching(fs, b'd/i', old, state)
    h.stub(index.resolve_parent, lambda p: p)

    def golevel(level, f, ename, entry, metastore, tmax):
        h.check(len(ename) == 0, 'every level is written out')
        w.rootlevel.count = count
        f.write(tail)
    h.stub(index._golevel, golevel)

    def go():
        nonlocal w
        w = index.Writer(b'd/i', None, 0)
        with w:
            w.f.write(body)
            if how == 'exception':
                raise Body()
            if how == 'close':
                state['may'] = True
                w.close()
    w = None
    ex, _ = h.raises(go)
    fs.watch()
    fs.settled([b'd'])
    n = fs.files.get(b'd/i')
    h.check('rmtree' in fs.failed or set(fs.files) <= {b'd/i'}, 'no other file is left')
    h.check((ex is not None) == (how == 'exception' or bool(fs.failed)), 'a failure is reported, and nothing else is')
    if how != 'close':
        h.check(n is old, 'an abandoned index changes nothing')
    elif ex is None:
        h.check(n is not None and n is not old, 'the new index is in place')
        h.check(not fs.dirty, 'the directory is synced')
    if w is not None:
        h.check(w.closed, 'the writer is closed')
    if not fs.failed:
        h.cover('no failure')


class Call:
    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass


@unit('fetched index', ['bup.client:Client.sync_index', 'bup.client:Client.send_index'] + ARF, search=False,
      engine=dict(max_paths=20000))
def u_fetch(h):
    one, two = h.input('one', Bytes), h.input('two', Bytes)
    n = len(one) + len(two)
    h.assume(n > 0)
    exists = h.choice('exists', [False, True])
    old = Node(b'x') if exists else None
    fs = FS(h, {b'd/i': old} if exists else {}, [b'd'])
    state = {'want': one + two, 'may': True}
    watching(fs, b'd/i', old, state)
    h.stub(client.mkdirp, lambda d: h.check(d == b'd', 'the cache is made'))
    h.stub(struct.unpack, lambda fmt, b: (n,))
    h.stub(client.progress, lambda s: None)
    h.stub(client.qprogress, lambda s: None)

    class Conn:
        def read(self, k):
            fs.op('receive')
            return b'size'

    def chunks(f, size):
        h.check(f is c.conn and size == n, 'the announced size is read')
        for b in (one, two):
            fs.op('receive')
            yield b
    h.stub(client.chunkyreader, chunks)
    c = object.__new__(client.Client)
    c.cachedir, c.conn, c.closed = b'd', Conn(), True
    c._call = lambda *a: (h.check(a[-1] == b'i', 'that index is asked for'), Call())[1]
    ex, _ = h.raises(c.sync_index, b'i')
    if exists:
        h.check(ex is not None and fs.files[b'd/i'] is old, 'an index that is there is left alone')
        return
    outcome(fs, ex, [b'd'], b'd/i', old, True)


class Map:
    def __init__(self, node):
        self.node = node

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass

    def flush(self):
        pass

    def close(self):
        pass


@unit('midx', ['bup.cmd.midx:_do_midx'] + ARF, search=False, engine=dict(max_paths=20000))
def u_midx(h):
    merged = h.input('merged', FixedBytes(4 + 20 * 3 + 4 * 3))
    exists = h.choice('exists', [False, True])
    old = Node(b'x') if exists else None
    fs = FS(h, {b'd/m.midx': old} if exists else {}, [b'd'])
    state = {'may': True, 'removed': True}
    state['want'] = b'MIDX' + struct.pack('!II', cmd_midx.midx.MIDX_VERSION, 0) + merged + b'a.idx\0b.idx'
    watching(fs, b'd/m.midx', old, state)

    class Ix:
        sha_ofs, map, shatable = 0, b'0' * 100, b'0' * 100

        def __init__(self, name, n):
            self.name, self.n, self.idxnames = name, n, [name]

        def __len__(self):
            return self.n

        def __enter__(self):
            return self

        def __exit__(self, *exc):
            pass
    h.stub(git.open_idx, lambda name: Ix(name, 1 if name == b'd/a.idx' else 2))
    h.stub(cmd_midx.unlink, lambda p: fs.unlink(p) if p in fs.files else None)
    h.stub(cmd_midx.mmap_readwrite, lambda f, close=True: (h.check(not f.node.pending, 'flushed'), Map(f.node))[1])
    h.stub(cmd_midx.debug1, lambda s: None)

    def merge(m, bits, total, inp):
        fs.op('merge')
        h.check(len(m.node.data) == 12 + len(merged), 'the file has its size')
        m.node.data = m.node.data[:12] + merged
    h.stub(cmd_midx.merge_into, merge)
    ex, _ = h.raises(cmd_midx._do_midx, b'd', b'd/m.midx', [b'd/a.idx', b'd/b.idx'], '', False, True)
    outcome(fs, ex, [b'd'], b'd/m.midx', old, True)


# --- a pack
SHA = ufn('sha1', [Bytes], FixedBytes(20))
IDX = ufn('index', [Bytes], Bytes)


class Hash:
    def __init__(self, b=b''):
        self.b = b

    def update(self, b):
        self.b = self.b + b

    def digest(self):
        return SHA(self.b)


def everything(f, count=None):
    """contract of chunkyreader: the chunks make up what there is to read, or count bytes of it"""
    if count is None:
        yield f.read()
    else:
        yield f.read(count)


PK, IX = b'r/objects/pack/pack-N.pack', b'r/objects/pack/pack-N.idx'
DIRS = [b'r', b'r/objects', b'r/objects/pack']


@unit('pack', ['bup.git:LocalPackStore._open', 'bup.git:LocalPackStore.write', 'bup.git:LocalPackStore.finish_pack',
               'bup.git:LocalPackStore.close', 'bup.git:LocalPackStore.abort'], search=False, engine=dict(max_paths=40000))
def u_pack(h):
    objs = [h.input(f'object{i}', Bytes) for i in range(h.choice('objects', [0, 1, 2]))]
    for o in objs:
        h.assume(len(o) > 0)
    how = h.choice('how', ['close', 'finish', 'abort'])
    fs = FS(h, {}, DIRS)
    state = {'done': False}
    h.stub(git.Sha1, Hash)
    h.stub(git.chunkyreader, everything)
    h.stub(zlib.crc32, lambda b, *a: 0)
    h.stub(git.hexlify, lambda b: b'N')
    header = b'PACK\0\0\0\2'

    class Idx:
        def __init__(self):
            self.n = 0

        def add(self, sha, crc, ofs):
            self.n += 1

        def write(self, name, packbin):
            h.check(self.n == len(objs), 'every object is in the index')
            fs.op('open idx')
            fs.files[name] = Node()
            fs.op('write idx')
            fs.files[name] = Node(IDX(packbin))
    h.stub(git.PackIdxV2Writer, Idx)

    def body():
        b = header + struct.pack('!i', len(objs))
        for o in objs:
            b = b + o
        return b

    def complete():
        return PK in fs.files and IX in fs.files

    def watch():
        n = fs.files.get(PK)
        if n is not None:
            h.check(how != 'abort', 'an abandoned pack does not appear')
            b = body()
            h.check(not n.pending and n.data == b + SHA(b), 'a pack is complete when it gets its name')
            h.check(n.durable == b + SHA(b), 'it is synced before it gets its name')
        n = fs.files.get(IX)
        if n is not None:
            h.check(PK in fs.files, 'an index appears only after its pack')
            h.check(n.data == IDX(SHA(body())) and n.whole(), 'the index is complete when it gets its name')
        h.check(not (state['done'] and b'r/objects/pack' in fs.dirty), 'the directory that got the names is synced')
    fs.watch = watch

    def finished(name):
        h.check(complete(), 'a finished pack is in place')
        h.check(b'r/objects/pack' not in fs.dirty, 'the directory that got the names is synced')
        state['told'] = name
        fs.op('on finish')
    h.stub(git.auto_midx, lambda d: (h.check(d == b'r/objects/pack' and complete(), 'the midx covers the pack'), fs.op('midx'))[1])
    store = git.LocalPackStore(repo_dir=b'r', on_pack_finish=finished, run_midx=h.choice('midx', [True, False]))

    def go():
        try:
            for i, o in enumerate(objs):
                store.write([o], b'%020d' % i)
                state['stored'] = i + 1
            if how == 'abort':
                store.abort()
            else:
                return store.finish_pack() if how == 'finish' else store.close()
        except BaseException:
            store.abort()
            raise
        finally:
            if how == 'finish' and store._tmpdir is None:
                store._closed = True
    ex, got = h.raises(go)
    watch()
    fs.settled(DIRS)
    h.check((ex is not None) == bool(fs.failed), 'a failure is reported, and nothing else is')
    h.check('rmtree' in fs.failed or set(fs.files) <= {PK, IX}, 'no other file is left')
    if ex is not None:
        h.check(not state.get('stored') or not isinstance(ex, OSError),
                'losing objects that were stored is not taken for a failure to read a file')
    if ex is None:
        if not objs or how == 'abort':
            h.check(got is None and not fs.files, 'no pack without objects')
        else:
            h.check(complete() and not fs.dirty, 'the pack is in place when it is said to be finished')
            h.check(got is not None and got + b'.pack' == PK and state['told'] == got, 'its name is given')
    if not fs.failed:
        h.cover('no failure')


@unit('pack index', ['bup.git:PackIdxV2Writer.write', 'bup.git:PackIdxV2Writer.add'], search=False, engine=dict(max_paths=20000))
def u_packidx(h):
    n = h.choice('n', [0, 1, 3])
    size = 8 + 1024 + 28 * n
    table = h.input('table', FixedBytes(size))
    packbin = h.input('packbin', FixedBytes(20))
    fs = FS(h, {}, [b'd'])
    h.stub(git.Sha1, Hash)
    h.stub(git.chunkyreader, everything)
    h.stub(git.mmap_readwrite, lambda f, close=True: (h.check(not f.node.pending, 'flushed'), Map(f.node))[1])

    def write_idx(name, m, idx, count):
        fs.op('write table')
        h.check(len(m.node.data) == size, 'there is room for the table')
        m.node.data = table
        return n
    h.stub(git._helpers.write_idx, write_idx)
    w = git.PackIdxV2Writer()
    for i in range(n):
        w.add(bytes([i * 100]) * 20, i, 12 + i)
    ex, _ = h.raises(w.write, b'd/i', packbin)
    h.check(not fs.fds, 'no file is left open')
    h.check((ex is not None) == bool(fs.failed), 'a failure is reported, and nothing else is')
    if ex is None:
        f = fs.files[b'd/i']
        b = table + packbin
        h.check(f.data == b + SHA(b) and not f.pending, 'the index is complete when it is said to be written')
        h.check(f.durable == b + SHA(b), 'and synced')
    if not fs.failed:
        h.cover('no failure')


# --- refs
class PackW:
    def __init__(self, h, log):
        self.h, self.log, self.pending = h, log, 0

    def write(self, *a):
        self.log.append('written')
        self.pending += 1
        return b'o' * 20
    new_blob = new_tree = new_commit = just_write = maybe_write = write

    def exists(self, *a, **k):
        return False

    def close(self):
        if self.h.choice('finishing fails', [False, True]):
            raise Fault(28, 'no space')
        self.log.append('finished')
        self.pending = 0
        return b'name'

    def abort(self):
        self.log.append('abandoned')


def use_repo(h, repo, log, writes, get_log):
    for w in writes:
        if w == 'data':
            repo.write_data(b'x')
        elif w == 'tree':
            repo.write_tree([])
        elif w == 'commit':
            repo.write_commit(b't', None, b'a', 0, 0, b'c', 0, 0, b'm')
        else:
            repo.just_write(b'o' * 20, b'blob', b'x')
    return repo.update_ref(b'refs/heads/x', b'n' * 20, b'p' * 20)


WRITES = [(), ('data',), ('tree', 'data'), ('data', 'commit'), ('just',)]


@unit('local ref', ['bup.repo.local:LocalRepo.update_ref', 'bup.repo.local:LocalRepo.finish_writing'], search=False)
def u_local(h):
    log, made = [], []
    base = type('Base', (), dict(compression_level=1, max_pack_size=10, max_pack_objects=10))
    r = object.__new__(local.LocalRepo)
    r.closed, r.repo_dir, r._base, r._on_pack_finish, r._packwriter, r.run_midx = True, b'r', base, None, None, False
    r.write_symlink = r.write_bupm = r.write_data

    def new(**k):
        made.append(PackW(h, log))
        return made[-1]
    h.stub(local.PackWriter, new)
    h.stub(git.PackWriter, new)
    h.stub(local.LocalPackStore, lambda **k: None)

    def update(name, new, old, repo_dir=None, force=False):
        h.check(all(w.pending == 0 for w in made), 'the ref is moved after everything written has been finished')
        h.check((name, new, old, repo_dir, force) == (b'refs/heads/x', b'n' * 20, b'p' * 20, b'r', False), 'that ref, if it has not moved')
        log.append('moved')
    h.stub(git.update_ref, update)
    writes = h.choice('writes', WRITES)
    ex, _ = h.raises(use_repo, h, r, log, writes, None)
    if ex is not None:
        h.check('moved' not in log, 'the ref stays when finishing fails')
    else:
        h.check(log.count('moved') == 1, 'the ref is moved')
        h.cover('moved')


@unit('remote ref', ['bup.repo.remote:RemoteRepo.update_ref', 'bup.repo.remote:RemoteRepo.finish_writing'], search=False)
def u_remote(h):
    log, made = [], []
    base = type('Base', (), dict(compression_level=1, max_pack_size=10, max_pack_objects=10))
    r = object.__new__(remote.RemoteRepo)

    class Client:
        def new_packwriter(self, **k):
            made.append(PackW(h, log))
            return made[-1]

        def update_ref(self, name, new, old):
            h.check(all(w.pending == 0 for w in made), 'the ref is moved after everything written has been finished')
            h.check((name, new, old) == (b'refs/heads/x', b'n' * 20, b'p' * 20), 'that ref, if it has not moved')
            log.append('moved')
    r.closed, r._base, r._packwriter, r.client = True, base, None, Client()
    r.write_symlink = r.write_bupm = r.write_data
    writes = h.choice('writes', WRITES)
    ex, _ = h.raises(use_repo, h, r, log, writes, None)
    if ex is not None:
        h.check('moved' not in log, 'the ref stays when finishing fails')
    else:
        h.check(log.count('moved') == 1, 'the ref is moved')
        h.cover('moved')


@unit('remote pack', ['bup.client:RemotePackStore.finish_pack', 'bup.client:RemotePackStore.close', 'bup.client:RemotePackStore.write',
                      'bup.client:RemotePackStore._open'], search=False)
def u_rpack(h):
    log = []

    class Conn:
        def write(self, b):
            if h.choice(f'write {len(log)} fails', [False, True]):
                raise Fault(32, 'gone')
            log.append('end' if b == b'\0\0\0\0' else 'data')
            return len(b)

        def has_input(self):
            return False

    def suggest():
        h.check(log[-2:] == ['end', 'unbusy'], 'the server is asked once everything is sent')
        if h.choice('the server fails', [False, True]):
            raise client.ClientError('server')
        log.append('confirmed')
        return b'name'

    def raw(conn, buf, *a):
        conn.write(buf)
        return 0, 0
    h.stub(client._raw_write_bwlimit, raw)
    h.stub(zlib.crc32, lambda b: 0)
    s = client.RemotePackStore(Conn(), cache=b'c', suggest_packs=suggest, onopen=lambda: log.append('open'),
                               onclose=lambda: log.append('unbusy'), ensure_busy=lambda: None)
    n = h.choice('objects', [0, 1, 2])

    def go():
        try:
            for i in range(n):
                s.write([h.input(f'o{i}', FixedBytes(3))], b'%020d' % i)
        finally:
            s._closed = True
        return s.close()
    ex, got = h.raises(go)
    if ex is None:
        h.check((log[-1:] == ['confirmed']) if n else log == [], 'finished only when the server says so')
        h.cover('finished')
    else:
        h.check('confirmed' not in log, 'a failure is reported, and nothing else is')
        h.check('data' not in log or not isinstance(ex, OSError),
                'losing objects that were stored is not taken for a failure to read a file')


@unit('server', ['bup.protocol:Server.receive_objects_v2', 'bup.protocol:Server.update_ref'], search=False)
def u_server(h):
    log = []
    n = h.choice('objects', [0, 1, 2])
    data = [h.input(f'o{i}', FixedBytes(3)) for i in range(n)]
    script = []
    for i in range(n):
        script += [struct.pack('!I', 27), b'%020d' % i, struct.pack('!I', 7), data[i]]
    end = h.choice('end', ['finish', 'lost'])
    script.append(bytes(4) if end == 'finish' else b'')

    class Conn:
        def read(self, k):
            b = script.pop(0)
            h.check(len(b) in (0, k), 'it reads what was sent')
            return b

        def write(self, b):
            log.append(('sent', b))

        def ok(self):
            log.append('ok')

        def readline(self):
            return script.pop(0)

    class Store:
        def write(self, datalist, sha):
            h.check(datalist[0] == data[len(stored)] and sha == b'%020d' % len(stored), 'each object is stored')
            stored.append(sha)
            return 3, 7

    class Writer:
        _store = Store()

        def object_count(self):
            return len(stored)

    class Repo:
        _packwriter = Writer()

        def _ensure_packwriter(self):
            pass

        def exists(self, oid, want_source=False):
            return None

        def abort_writing(self):
            log.append('abandoned')

        def finish_writing(self):
            if h.choice('finishing fails', [False, True]):
                raise Fault(28, 'no space')
            log.append('finished')
            return b'r/objects/pack/pack-N' if stored else None

        def update_ref(self, name, new, old):
            if h.choice('the ref has moved', [False, True]):
                raise git.GitError('moved')
            log.append('moved')
    stored = []
    sv = object.__new__(protocol.Server)
    sv.conn, sv.repo, sv.suspended, sv._deduplicate_writes, sv._vet_update_ref = Conn(), Repo(), False, True, None
    h.stub(protocol.debug1, lambda s: None)
    ex, _ = h.raises(sv.receive_objects_v2, None)
    if ex is None:
        h.check(end == 'finish', 'a lost connection is an error')
        want = ['finished'] + ([('sent', b'pack-N.idx\n')] if n else []) + ['ok']
        h.check(log == want, 'success is reported once the pack is finished')
        h.cover('finished')
    else:
        h.check('ok' not in log and 'finished' not in log, 'nothing is confirmed after a failure')
    log.clear()
    script[:] = [b'6e' * 20 + b'\n', b'70' * 20 + b'\n']
    ex, _ = h.raises(sv.update_ref, b'refs/heads/x')
    h.check(log == (['moved', 'ok'] if ex is None else []), 'a ref update is confirmed once it is done')


# --- whole commands
def tree(t, r, k):
    """some files to save, two of them linked"""
    s = t + b'/src'
    os.makedirs(s + b'/d', exist_ok=True)
    for i in range(r.choice([1, 3, 6])):
        with open(s + r.choice([b'/', b'/d/']) + b'f%d' % r.randrange(8), 'wb') as f:
            f.write(r.randbytes(r.choice([0, 10, 3000, 40000])))
    if not os.path.exists(s + b'/l1'):
        with open(s + b'/l1', 'wb') as f:
            f.write(b'linked')
        os.link(s + b'/l1', s + b'/d/l2')


WATCHED = (b'.pack', b'.idx', b'.midx', b'.bloom', b'.hlink', b'bupindex')


def files(*dirs):
    out = {}
    for d in dirs:
        for p, ds, fs in os.walk(os.path.realpath(d)):
            for f in fs:
                if f.endswith(WATCHED):
                    q = os.path.join(p, f)
                    out[q] = hashlib.sha1(open(q, 'rb').read()).hexdigest()
    return out


def temporary(*dirs):
    """what a command might leave behind"""
    out = []
    for d in dirs:
        for p, ds, fs in os.walk(d):
            out += [os.path.join(p, x) for x in ds + fs if b'tmp' in x or x.startswith((b'bupindex-', b'bupindex.hlink-'))
                    or b'.midx-' in x or b'.idx-' in x or b'.bloom' in x and not x.endswith(b'bup.bloom')]
    return sorted(out)


def commands(r, t):
    repo, other = t + b'/b', t + b'/o'
    n = r.choice([b'main', b'x'])
    yield ['index', '-u', t + b'/src'], b''
    if r.random() < .7:
        yield ['save', '--strip', '-n', n, t + b'/src'], b''
    if r.random() < .4:
        yield ['save', '--strip', '-r', b'-:' + other, '-n', n, t + b'/src'], b''
    yield r.choice([
        (['split', '-n', r.choice([n, b's'])], r.randbytes(r.choice([0, 5, 20000]))),
        (['split', '-r', b'-:' + other, '-n', b's'], r.randbytes(r.choice([0, 5, 20000]))),
        (['midx', '-f'], b''), (['midx', '-a'], b''), (['bloom'], b''), (['bloom', '-f'], b''),
        (['get', '-s', repo, '-r', b'-:' + other, '--append', n], b''),
        (['get', '-s', other, '--append', n], b''),
        (['tag', b't%d' % r.randrange(10**6), n], b''),
        (['rm', '--unsafe', n + b'/latest'], b''),
        (['prune-older', '--unsafe', '--keep-none-for', 'forever'], b'')])


@unit('commands', ['bup.cmd.index:main', 'bup.cmd.save:main', 'bup.cmd.split:main', 'bup.cmd.get:main', 'bup.cmd.midx:do_midx',
                   'bup.cmd.bloom:do_bloom', 'bup.bloom:BloomWriter.close', 'bup.git:LocalPackStore.finish_pack',
                   'bup.protocol:Server.receive_objects_v2'], prove=False, samples=24, tmp=True, weight=4)
def u_commands(h):
    r, t = h.rng, h.tmp
    repo, other, logs = t + b'/b', t + b'/o', t + b'/log'
    e = {b'BUP_DIR': repo, b'TZ': b'UTC', b'BUP_TEST_LEVEL': b'1', b'HOME': t, b'XDG_CACHE_HOME': t + b'/cache', b'TMPDIR': t}
    for d in (repo, other):
        rc, o, x = cli.bup(['-d', d, 'init'], e)
        h.check(rc == 0, 'init', detail=repr(x))
        if r.random() < .4:
            subprocess.run(['git', '--git-dir', os.fsdecode(d), 'config', 'pack.packSizeLimit', r.choice(['1k', '20k'])], check=True)
    os.mkdir(logs)

    def go(cmd, input, fail=0, kill=False):
        shutil.rmtree(logs)
        os.mkdir(logs)
        was = files(repo, other, t + b'/cache') if os.path.exists(t + b'/cache') else files(repo, other)
        env = e | ophook.environment(logs, [repo, other], fail, kill)
        rc, o, x = cli.bup(cmd, env, input, before=ophook.install)
        n, trace = ophook.read(logs)
        info = repr((cmd, fail, kill, rc, x[-600:], [y.get('failed') for y in trace if 'failed' in y]))
        bad = [y['bad'] for y in trace if 'bad' in y]
        h.check(not bad, 'at every moment the repository is complete', detail=repr((bad[:3], info)))
        bad = ophook.inspect(repo) + ophook.inspect(other)
        h.check(not bad, 'the repository is complete afterwards', detail=repr((bad[:3], info)))
        now = files(repo, other, t + b'/cache')
        last = {os.fsencode(y['to']): y for y in trace if 'to' in y}
        for p, d in now.items():
            if was.get(p) != d and not (p.endswith(b'bupindex') and cmd[0] != 'index'):
                y = last.get(p)
                if y is None:
                    if p.endswith(b'bupindex'):
                        continue        # its flags are updated in place
                    h.check(False, 'a file gets its name by renaming', detail=repr((p, info)))
                h.check(y['digest'] == d, 'a file is complete when it gets its name', detail=repr((p, info)))
                h.check(y['synced'] or p.endswith(b'.bloom'), 'a file is synced before it gets its name', detail=repr((p, info)))
        return rc, n, trace, info

    have = temporary(t)
    for step in range(2):
        tree(t, r, step)
        for cmd, input in commands(r, t):
            for _ in range(r.choice([0, 0, 1])):
                # the operation at which it fails or stops; then the same again
                kill = r.random() < .5
                save = t + b'/saved'
                os.mkdir(save)
                for d in (b'b', b'o', b'cache'):
                    if os.path.exists(t + b'/' + d):
                        subprocess.run([b'cp', b'-a', t + b'/' + d, save], check=True)
                rc, n, trace, info = go(cmd, input, fail=r.choice([1, 2, 3, 5, 8, 13, r.randint(1, 40)]), kill=kill)
                failed = [y['failed'] for y in trace if 'failed' in y]
                if failed and not kill and not failed[0].startswith(('unlink', 'remove', 'rmdir')):
                    left = [x for x in temporary(t) if not x.startswith(save) and x not in have]
                    h.check(not left, 'no temporary file is left', detail=repr((left, info)))
                if failed:
                    rc2, n, trace, info2 = go(cmd, input)
                    if cmd[0] != 'tag':
                        h.check(rc2 == 0 or cmd[0] in ('get', 'rm', 'prune-older'), 'it works afterwards', detail=repr((info, info2)))
                for d in (b'b', b'o', b'cache'):
                    if os.path.exists(t + b'/' + d):
                        shutil.rmtree(t + b'/' + d)
                    if os.path.exists(save + b'/' + d):
                        os.rename(save + b'/' + d, t + b'/' + d)
                shutil.rmtree(save)
            rc, n, trace, info = go(cmd, input)
            h.check(rc == 0 or cmd[0] in ('get', 'rm', 'tag', 'prune-older'), 'it works', detail=info)


@unit('save', ['bup.cmd.save:main', 'bup.cmd.save:save_tree', 'bup.git:LocalPackStore.finish_pack', 'bup.git:PackWriter.breakpoint',
               'bup.client:RemotePackStore.finish_pack'], prove=False, samples=16, tmp=True, weight=3)
def u_save(h):
    """many small packs, and each step of finishing one of them fails"""
    r, t = h.rng, h.tmp
    repo, other, logs = t + b'/b', t + b'/o', t + b'/log'
    e = {b'BUP_DIR': repo, b'TZ': b'UTC', b'BUP_TEST_LEVEL': b'1', b'HOME': t, b'XDG_CACHE_HOME': t + b'/cache', b'TMPDIR': t}
    there = r.random() < .25
    for d in (repo, other):
        cli.bup(['-d', d, 'init'], e)
        subprocess.run(['git', '--git-dir', os.fsdecode(d), 'config', 'pack.packSizeLimit', r.choice(['100', '1k', '20k'])], check=True)
    tree(t, r, 0)
    with open(t + b'/src/big', 'wb') as f:
        f.write(r.randbytes(60000))
    cli.bup(['index', '-u', t + b'/src'], e)
    cmd = ['save', '--strip', '-n', 'x', *(['-r', b'-:' + other] if there else []), t + b'/src']
    if r.random() < .3:
        cmd, there = ['split', '-n', 'x', *(['-r', b'-:' + other] if there else []), t + b'/src/big'], there
    for _ in range(3 if there else 6):
        k = r.choice([r.randint(1, 12), r.randint(1, 40)])
        os.mkdir(logs)
        rc, o, x = cli.bup(cmd, e | ophook.environment(logs, [], k), before=ophook.install)
        n, trace = ophook.read(logs)
        failed = [y['failed'] for y in trace if 'failed' in y]
        info = repr((cmd, k, rc, x[-600:], failed))
        bad = ophook.inspect(other if there else repo)
        h.check(not bad, 'a ref is moved only after everything it refers to has been finished', detail=repr((bad[:3], info)))
        if not failed:
            h.check(rc == 0, 'it works', detail=info)
        shutil.rmtree(logs)
        for p in (b'refs/heads/x', b'packed-refs'):
            if os.path.exists((other if there else repo) + b'/' + p):
                os.unlink((other if there else repo) + b'/' + p)
        if r.random() < .5:
            for p in os.listdir(repo + b'/objects/pack') if not there else []:
                os.unlink(repo + b'/objects/pack/' + p)


@unit('each step', ['bup.cmd.bloom:do_bloom', 'bup.cmd.midx:_do_midx', 'bup.bloom:BloomWriter.close', 'bup.bloom:BloomWriter.__init__'],
      prove=False, samples=4, tmp=True)
def u_steps(h):
    """every single operation of the commands that maintain the lookup files fails, or ends the process"""
    r, t = h.rng, h.tmp
    repo, logs = t + b'/b', t + b'/log'
    e = {b'BUP_DIR': repo, b'TZ': b'UTC', b'HOME': t, b'TMPDIR': t}
    cli.bup(['init'], e)

    def some():
        for i in range(2):
            cli.bup(['split', '-n', 'x'], e, r.randbytes(r.choice([10, 30000])))
    some()
    cmd = r.choice([['bloom'], ['bloom', '-f'], ['midx', '-f'], ['midx', '-a'], ['midx', '-o', b'x.midx']])
    if r.random() < .5:
        cli.bup(['bloom', '-f'] if cmd[0] == 'bloom' else ['midx', '-f'], e)
        some()
    if r.random() < .3 and cmd[0] == 'bloom' and os.path.exists(repo + b'/objects/pack/bup.bloom'):
        os.unlink(repo + b'/objects/pack/bup.bloom')
    pack = repo + b'/objects/pack'
    subprocess.run([b'cp', b'-a', pack, t + b'/keep'], check=True)
    k, failed = 0, True
    while failed:
        k += 1
        for kill in (True, False):
            os.mkdir(logs)
            was = files(pack)
            args = cmd + sorted(x for x in os.listdir(pack) if x.endswith(b'.idx')) if '-o' in cmd else cmd
            rc, o, x = cli.bup(args, e | ophook.environment(logs, [], k, kill), before=ophook.install, cwd=pack)
            n, trace = ophook.read(logs)
            shutil.rmtree(logs)
            failed = [y['failed'] for y in trace if 'failed' in y]
            info = repr((args, k, kill, rc, x[-600:], failed))
            h.check(rc == 0 or failed, 'it works', detail=info)
            last = {os.fsencode(y['to']): y for y in trace if 'to' in y}
            for p, d in files(pack).items():
                if was.get(p) != d and p.endswith((b'.midx', b'bup.bloom')):
                    h.check(p in last and last[p]['digest'] == d, 'a file is complete when it gets its name', detail=repr((p, info)))
            if failed and not kill and not failed[0].startswith(('unlink', 'remove', 'rmdir')):
                left = temporary(pack)
                h.check(not left, 'no temporary file is left', detail=repr((left, info)))
            if failed:
                rc, o, x2 = cli.bup(args, e, cwd=pack)
                h.check(rc == 0, 'it works afterwards', detail=repr((info, x2)))
            shutil.rmtree(pack)
            subprocess.run([b'cp', b'-a', t + b'/keep', pack], check=True)
