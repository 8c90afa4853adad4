"""C18: what one end of the remote protocol writes, the other end reads."""
import builtins, io, os, select, struct, sys, threading
from io import BytesIO
from pyvc.spec import *
from pyvc.harness import unit
from bup import helpers, metadata, protocol, vfs, vint
from bup.helpers import Conn, DemuxConn, MAX_PACKET
from bup.metadata import Metadata

PROP = 'C18'
NOTE = ('Proved: every item kind, with metadata or an integer mode, resolutions of any length and errors with any combination '
        'of details are read as written, consuming exactly the message, on top of the C03 contract of vint and the C04 contract '
        'of Metadata; mux sends every byte of each channel, in order and framed; DemuxConn hands out exactly the bytes of '
        'channel 1 in order and those of channel 2 to stderr, for every division into packets and reads, read(n) '
        'giving n bytes and readline a whole line. Real pipes, byte-level messages and truncated messages are evaluated on '
        'generated values: bounded.')
LOOPS = {'bup.protocol': ['write_resolution', 'read_resolution'],
         'bup.helpers': ['DemuxConn._read_parts', 'DemuxConn._load_buf', 'DemuxConn._next_packet', 'mux', 'checked_reader',
                         'BaseConn._check_ok']}
ASSUME = ['vint.send/recv and the read/write functions behave as proved in C03', 'Metadata.write/read behave as proved in C04',
          'a write to a blocking pipe writes everything; a read gives at least one byte unless the stream ended']

KINDS = ['Item', 'Chunky', 'RevList', 'Root', 'Tags', 'Commit', 'FakeLink']


class Wire:
    """the contract of vint and Metadata: the values read are the ones written, in the same order and encoding"""
    def __init__(self, h):
        self.h, self.q = h, []
        h.stub(vint.send, self.send)
        h.stub(vint.recv, self.recv)
        for f, c in ((vint.read_vuint, 'V'), (vint.read_vint, 'v'), (vint.read_bvec, 's')):
            h.stub(f, lambda p, c=c: self.get(c))
        for f, c in ((vint.write_vuint, 'V'), (vint.write_vint, 'v'), (vint.write_bvec, 's')):
            h.stub(f, lambda p, v, c=c: self.put(c, v))
        h.stub(Metadata.write, self.putm)
        h.stub(Metadata.read, lambda p: self.get('M'))

    def put(self, c, v):
        if c == 'V':
            self.h.check(v >= 0, 'unsigned values are not negative')
        self.q.append((c, v))

    def putm(self, m, port, include_path=True):
        self.h.check(not include_path, 'items carry no path')
        self.put('M', m)

    def get(self, c):
        if not self.q:
            return None
        f, v = self.q.pop(0)
        self.h.check(f == c, 'a value is read in the encoding it was written in')
        return v

    def send(self, port, types, *vals):
        self.h.check(len(types) == len(vals), 'a value for each field')
        for c, v in zip(types, vals):
            self.put(c, v)

    def recv(self, port, types):
        return [self.get(c) for c in types]

    # the one raw byte of the protocol
    def write(self, data):
        self.q.append(('b', data))

    def read(self, n):
        self.h.check(n == 1, 'one byte')
        return self.get('b')


def an_item(h, kind, meta):
    if kind in ('Root', 'Tags'):
        return getattr(vfs, kind)(meta=meta)
    if kind == 'Commit':
        return vfs.Commit(meta=meta, oid=h.input('oid', FixedBytes(20)), coid=h.input('coid', FixedBytes(20)))
    if kind == 'FakeLink':
        return vfs.FakeLink(meta=meta, target=h.input('target', Bytes))
    return getattr(vfs, kind)(meta=meta, oid=h.input('oid', FixedBytes(20)))


def same_item(h, a, b, what='item'):
    if a is None or b is None:
        h.check(a is None and b is None, f'{what}: present')
        return
    h.check(type(a) is type(b), f'{what}: the type is the one sent')
    for k in a._fields:
        if k != 'meta':
            h.check(getattr(a, k) == getattr(b, k), f'{what}: {k} is the one sent')
    if h.symbolic:
        h.check(a.meta is b.meta or a.meta == b.meta, f'{what}: the metadata is the one sent')
    else:
        h.check(type(a.meta) is type(b.meta) and a.meta == b.meta, f'{what}: the metadata is the one sent')


@unit('items', ['bup.protocol:write_item', 'bup.protocol:read_item'], samples=3000)
def u_items(h):
    kind = h.choice('kind', KINDS)
    if h.choice('metadata', [False, True]):
        meta = Metadata(frozen=False)
        meta.mode = h.input('mode', Nat, gen=lambda r: r.choice([0o100644, 0o40755, 0o120777]))
        h.assume(meta.mode > 0)
        meta.uid = meta.gid = meta.rdev = meta.atime = meta.mtime = meta.ctime = 0
        meta.user = meta.group = b''
    else:
        meta = h.input('imode', Nat)
    item = an_item(h, kind, meta)
    if h.symbolic:
        w = Wire(h)
        protocol.write_item(w, item)
        h.check(len(w.q) > 0, 'something is sent')
        got = protocol.read_item(w)
        h.check(w.q == [], 'exactly the message is consumed')
    else:
        b = BytesIO()
        protocol.write_item(b, item)
        b.write(b'\x55')
        b = BytesIO(b.getvalue())
        got = protocol.read_item(b)
        h.check(b.read() == b'\x55', 'exactly the message is consumed')
    same_item(h, item, got)


name_at = ufn('name_at', [Int], Bytes)
item_at = ufn('item_at', [Int], Opt(Nat))
RES = Tup(Bytes, Opt(Nat))


@rec(Nat, ret=Seq(RES))
def upto(n):
    return [] if n == 0 else upto(n - 1) + [(name_at(n - 1), item_at.raw(n - 1))]


class Thing:
    def __init__(self, v): self.v = v


class ResPort:
    """what is written, or read, of a resolution of n names: 0 count, then per name 1 name, 2 flag, 3 item"""
    def __init__(self, h, n, have):
        self.h, self.n, self.k, self.phase, self.have = h, n, 0, 0, have

    def after_name(self):
        self.phase = 2

    def next(self):
        self.k += 1
        self.phase = 1


@unit('write resolution', ['bup.protocol:write_resolution'], search=False)
def u_write_res(h):
    n = h.input('n', Nat)
    p = ResPort(h, n, None)

    def vuint(port, v):
        h.check(port is p and p.phase == 0 and v == n, 'first the number of names')
        p.phase = 1

    def bvec(port, v):
        h.check(port is p and p.phase == 1 and v == name_at(p.k), 'each name in order')
        p.phase = 2

    def flag(v):
        h.check(p.phase == 2, 'then whether there is an item')
        if item_at(p.k) is None:
            h.check(v == b'\0', 'none is marked')
            p.k += 1
            p.phase = 1
        else:
            h.check(v == b'\1', 'an item is marked')
            p.phase = 3

    def item(port, it):
        h.check(port is p and p.phase == 3 and it.v == item_at(p.k), 'each item in order')
        p.k += 1
        p.phase = 1
    p.write = flag
    h.stub(vint.write_vuint, vuint)
    h.stub(vint.write_bvec, bvec)
    h.stub(protocol.write_item, item)

    def elt(i):
        if item_at(i) is None:
            return name_at(i), None
        return name_at(i), Thing(item_at(i))
    h.loop('bup.protocol:write_resolution', 0, types={'name': Bytes, 'item': lambda e: None},
           havoc={'port.k': Nat, 'port.phase': Nat},
           inv=lambda L: L.port.k == L.idx and L.port.phase == 1)
    protocol.write_resolution(p, FnSeq(n, elt))
    h.check(p.k == n and p.phase == 1, 'all of it is written')


@unit('read resolution', ['bup.protocol:read_resolution'], search=False)
def u_read_res(h):
    n = h.input('n', Nat)
    p = ResPort(h, n, None)

    def vuint(port):
        h.check(port is p and p.phase == 0, 'first the number of names')
        p.phase = 1
        return n

    def bvec(port):
        h.check(port is p and p.phase == 1 and p.k < n, 'then each name')
        p.phase = 2
        return name_at(p.k)

    def flag(k):
        h.check(p.phase == 2 and k == 1, 'then whether there is an item')
        if item_at(p.k) is None:
            p.k += 1
            p.phase = 1
            return b'\0'
        p.phase = 3
        return b'\1'

    def item(port):
        h.check(port is p and p.phase == 3, 'then the item')
        p.k += 1
        p.phase = 1
        return item_at(p.k - 1)
    p.read = flag
    h.stub(vint.read_vuint, vuint)
    h.stub(vint.read_bvec, bvec)
    h.stub(protocol.read_item, item)
    h.loop('bup.protocol:read_resolution', 0,
           types={'result': Seq(RES), 'name': Bytes, 'have_item': Int, 'item': Opt(Nat)},
           havoc={'port.k': Nat, 'port.phase': Nat},
           inv=lambda L: L.port.k == L.idx and L.port.phase == 1 and L.result == upto(L.idx))
    got = protocol.read_resolution(p)
    h.check(p.k == n and p.phase == 1, 'all of it is read, and nothing after it')
    h.check(got == upto(n), 'every name and item is the one written, a missing item stays missing')


@unit('errors', ['bup.protocol:write_ioerror', 'bup.protocol:read_ioerror'], samples=2000)
def u_errors(h):
    no = h.input('errno', Int) if h.choice('has errno', [False, True]) else None
    msg = h.choice('message', [None, '', 'x', 'Näh \N{SNOWMAN}'])
    term = h.choice('terminus', [None, (), ((b'', None),), ((b'a', vfs.Root(meta=3)), (b'b', None))])
    ex = vfs.IOError(errno=no, message=msg, terminus=term)
    if h.symbolic:
        w = Wire(h)
        h.stub(protocol.write_resolution, lambda p, r: w.put('R', r))
        h.stub(protocol.read_resolution, lambda p: w.get('R'))
        protocol.write_ioerror(w, ex)
        got = protocol.read_ioerror(w)
        h.check(w.q == [], 'exactly the message is consumed')
    else:
        b = BytesIO()
        protocol.write_ioerror(b, ex)
        b.write(b'\x55')
        b = BytesIO(b.getvalue())
        got = protocol.read_ioerror(b)
        h.check(b.read() == b'\x55', 'exactly the message is consumed')
    h.check(isinstance(got, vfs.IOError), 'the same kind of error')
    h.check((got.errno is None) == (no is None) and (no is None or got.errno == no), 'the error number')
    h.check(got.strerror == msg, 'the message')
    h.check(got.terminus == term, 'the terminus')


# --- multiplexing
chan = ufn('chan', [Int, Int], Byte256)


class Src:
    """a stream of bytes read in pieces of any size"""
    def __init__(self, h, name):
        self.h, self.name = h, name
        self.got = b''          # read so far
        self.sent = b''         # framed and sent so far
        self.ended = False


@unit('mux', ['bup.helpers:mux'], search=False)
def u_mux(h):
    o, e = Src(h, 'out'), Src(h, 'err')
    st = Thing(0)        # 0 nothing sent, 1 in session, 2 ended

    def read(fd, n):
        s = o if fd == 3 else e
        h.check(fd == 3 or fd == 4, 'reads from the two channels')
        h.check(not s.ended, 'a channel that ended is not read again')
        b = h.fresh('data', Bytes)
        h.assume(len(b) <= n)
        if len(b) == 0:
            s.ended = True
        else:
            h.check(len(b) <= MAX_PACKET, 'a packet is not longer than the receiver accepts')
            s.got = s.got + b
        return b

    def write(fd, b):
        h.check(fd == 1, 'writes to the output')
        if st.v == 0:
            h.check(b == b'BUPMUX', 'the session starts with its mark')
            st.v = 1
        else:
            h.check(st.v == 1, 'one end')
            h.check(b == struct.pack('!IB', 0, 3), 'the session ends with the end packet')
            st.v = 2

    def writev(fd, bs):
        h.check(fd == 1 and st.v == 1, 'writes to the output, in session')
        h.check(len(bs) == 2, 'header and data')
        if bs[0] == struct.pack('!IB', len(bs[1]), 1):
            o.sent = o.sent + bs[1]
        else:
            h.check(bs[0] == struct.pack('!IB', len(bs[1]), 2), 'the header gives length and channel')
            e.sent = e.sent + bs[1]

    def sel(r, w, x):
        h.check(len(r) > 0 and all((fd == 3 and not o.ended) or (fd == 4 and not e.ended) for fd in r), 'waits for open channels')
        if len(r) == 1:
            return list(r), [], []
        k = h.choice('ready', [0, 1, 2, 3])
        return [[3], [4], [3, 4], [4, 3]][k], [], []
    h.stub(select.select, sel)
    h.stub(os.read, read)
    h.stub(os.write, write)
    h.stub(os.writev, writev)

    def fds(eng):
        k = h.choice('open', [0, 1, 2, 3])
        o.ended, e.ended = bool(k & 1), bool(k & 2)
        o.got, o.sent = h.fresh('ogot', Bytes), h.fresh('osent', Bytes)
        e.got, e.sent = h.fresh('egot', Bytes), h.fresh('esent', Bytes)
        return [[3, 4], [4], [3], []][k]
    h.loop('bup.helpers:mux', 0, types={'fds': fds, 'rl': lambda eng: None, 'fd': Int, 'buf': Bytes, '_': lambda eng: None},
           inv=lambda L: (3 in L.fds) == (not o.ended) and (4 in L.fds) == (not e.ended)
           and o.got == o.sent and e.got == e.sent)
    helpers.mux(1, 3, 4)
    h.check(o.ended and e.ended, 'both channels are read to their end')
    h.check(o.got == o.sent, 'all output is sent on channel 1, in order')
    h.check(e.got == e.sent, 'all messages are sent on channel 2, in order')
    h.check(st.v == 2, 'the session is ended')


class Reader:
    """the rest of a packet, in pieces of any size"""
    def __init__(self, h, left):
        self.h, self.left = h, left

    def __iter__(self): return self

    def __next__(self):
        if len(self.left) == 0:
            raise StopIteration
        k = self.h.fresh('k', Nat)
        self.h.assume(1 <= k and k <= len(self.left))
        b, self.left = self.left[:k], self.left[k:]
        return b


class Demux:
    """a connection of which rest is what is still to come on channel 1 after the current packet"""
    def __init__(self, h):
        self.h = h
        self.infd = 7
        self.buf = None
        self.reader = None
        self.closed = False
        self.rest = b''

    def unread(self):
        u = self.rest
        if self.reader is not None:
            u = self.reader.left + u
        if self.buf is not None:
            u = self.buf + u
        return u


def demux_state(h, d, n=''):
    d.buf = None
    if h.choice('held' + n, [False, True]):
        d.buf = h.fresh('buf' + n, Bytes)
        h.assume(len(d.buf) > 0)
    d.rest = h.fresh('rest' + n, Bytes)


@unit('DemuxConn._load_buf', ['bup.helpers:DemuxConn._load_buf'], search=False)
def u_load(h):
    d = Demux(h)
    k = h.choice('state', ['buffer', 'reader', 'idle', 'closed'])
    d.rest = h.input('rest', Bytes)
    if k == 'closed':
        h.assume(len(d.rest) == 0)
        d.closed = True
    elif k != 'idle':
        d.reader = Reader(h, h.input('left', Bytes))
    if k == 'buffer':
        d.buf = h.input('buf', Bytes)
        h.assume(len(d.buf) > 0)
    all_ = d.unread()
    ended = Thing(False)

    def packet(timeout):
        if d.closed:
            return False
        j = h.choice('packet', ['none', 'data', 'other', 'end'])
        if j == 'none':
            ended.v = True
            return False
        if j == 'data':
            k = h.fresh('size', Nat)
            h.assume(k <= len(d.rest))
            d.reader = Reader(h, d.rest[:k])
            d.rest = d.rest[k:]
        if j == 'end':
            h.assume(len(d.rest) == 0)
            d.closed = True
        return True
    d._next_packet = packet

    def state(eng):
        d.closed = h.choice('isclosed', [False, True])
        return Reader(h, h.fresh('left', Bytes)) if h.choice('isreader', [False, True]) else None

    def inv(L):
        return (d.buf is None and d.unread() == all_ and implies(d.closed, len(d.rest) == 0 and d.reader is None))
    for j in (0, 1):
        h.loop('bup.helpers:DemuxConn._load_buf', j, havoc={'self.reader': state, 'self.rest': Bytes}, inv=inv)
    ok = helpers.DemuxConn._load_buf(d, None)
    if ok:
        h.check(d.buf is not None and len(d.buf) > 0, 'there is data')
    else:
        h.check(d.buf is None and (d.closed or ended.v), 'no data only at the end, or when none came in time')
        h.check(implies(d.closed, len(all_) == 0), 'the end comes after all data')
    h.check(d.unread() == all_, 'no byte is lost, made up or reordered')


def load(h, d):
    """the contract of _load_buf"""
    def load_buf(timeout):
        if d.buf is not None:
            return True
        if len(d.rest) == 0:
            return False
        k = h.fresh('k', Nat)
        h.assume(1 <= k and k <= len(d.rest))
        d.buf, d.rest = d.rest[:k], d.rest[k:]
        return True
    d._load_buf = load_buf


@unit('DemuxConn._read', ['bup.helpers:DemuxConn._read', 'bup.helpers:DemuxConn._read_parts'], search=False)
def u_read(h):
    size = h.input('size', Nat)
    d = Demux(h)
    demux_state(h, d)
    all_ = d.unread()
    load(h, d)
    cell = Thing(None)

    def parts(f):
        cells = [c for c in f.__closure__ or () if not callable(c.cell_contents)]
        if len(cells) != 1:
            unknown('the state of the size function')
        v = cells[0].cell_contents

        class Cell:
            @property
            def v(self):
                return v[0] if isinstance(v, list) else cells[0].cell_contents

            @v.setter
            def v(self, x):
                if isinstance(v, list):
                    v[0] = x
                else:
                    cells[0].cell_contents = x
        cell.v = Cell()
        h.loop('bup.helpers:DemuxConn._read_parts', 0, out=Bytes, types={'i': lambda e: None, 'yv': Bytes},
               havoc={'self.buf': held, 'self.rest': Bytes},
               inv=lambda L: (b''.join(L.out) + d.unread() == all_ and len(b''.join(L.out)) + cell.v.v == size
                              and (cell.v.v > 0 or len(b''.join(L.out)) == 0)))
        return h.gen(h.body(helpers.DemuxConn._read_parts)(d, f), Bytes)

    def held(eng):
        cell.v.v = h.fresh('left', Nat)
        if h.choice('held now', [False, True]):
            b = h.fresh('bufnow', Bytes)
            h.assume(len(b) > 0)
            return b
        return None
    d._read_parts = parts
    got = helpers.DemuxConn._read(d, size)
    h.check(got + d.unread() == all_, 'the bytes are handed out in order, none lost')
    h.check(len(got) == size or (len(got) < size and len(d.unread()) == 0), 'as many as asked for, unless the stream ended')


nl = ufn('nl', [Bytes], Int)      # the end of the first line of a piece, -1 if it has none


@unit('DemuxConn._readline', ['bup.helpers:DemuxConn._readline', 'bup.helpers:DemuxConn._read_parts'], search=False)
def u_readline(h):
    d = Demux(h)
    demux_state(h, d)
    all_ = d.unread()
    load(h, d)

    def held(eng):
        if h.choice('held now', [False, True]):
            b = h.fresh('bufnow', Bytes)
            h.assume(len(b) > 0)
            return b
        return None

    def parts(f):
        h.loop('bup.helpers:DemuxConn._read_parts', 0, out=Bytes, types={'i': lambda e: None, 'yv': Bytes},
               havoc={'self.buf': held, 'self.rest': Bytes},
               inv=lambda L: b''.join(L.out) + d.unread() == all_ and b'\n' not in b''.join(L.out))
        return h.gen(h.body(helpers.DemuxConn._read_parts)(d, f), Bytes)
    d._read_parts = parts
    got = helpers.DemuxConn._readline(d)
    h.check(got + d.unread() == all_, 'the bytes are handed out in order, none lost')
    h.check(b'\n' not in got[:-1], 'not more than a line')
    h.check(got[-1:] == b'\n' or len(d.unread()) == 0, 'a whole line, unless the stream ended')


@unit('DemuxConn._next_packet', ['bup.helpers:DemuxConn._next_packet'], search=False)
def u_packet(h):
    d = Demux(h)
    ch = h.choice('channel', [1, 2, 3])
    n = h.input('n', Nat)
    h.assume(n <= MAX_PACKET)
    ready = h.choice('ready', [True, False])
    d.closed = h.choice('closed', [False, True])
    pay = h.input('payload', Bytes)
    h.assume(len(pay) == n)
    tail = Thing(h.input('tail', Bytes))
    all_tail = tail.v
    if ch == 3:
        h.assume(n == 0)
    seen = Thing(b'')
    st = Thing(0)
    head = h.input('head', Bytes)
    h.assume(len(head) == 5)

    def unpack(fmt, b):
        h.check(fmt == '!IB' and b == head, 'the header is taken apart as it was put together')
        return n, ch
    h.stub(struct.unpack, unpack)

    def sel(r, w, x, timeout=None):
        h.check(list(r) == [7], 'waits for the connection')
        return ([7] if ready else []), [], []

    def reader(fd, k):
        h.check(fd == 7, 'reads from the connection')
        if st.v == 0:
            h.check(k == 5, 'a header is five bytes')
            st.v = 1
            return [head[:2], head[2:]]
        h.check(st.v == 1 and k == n, 'then as many bytes as the header says')
        st.v = 2
        if ch == 2:
            ys = h.fresh('ys', Seq(Bytes))
            h.assume(b''.join(ys) == pay)
            return ys
        return Reader(h, pay)

    def read(fd, k):
        b = tail.v[:k]
        if len(tail.v) > 0:
            j = h.fresh('j', Nat)
            h.assume(1 <= j and j <= len(tail.v) and j <= k)
            b, tail.v = tail.v[:j], tail.v[j:]
        return b

    class Err:
        def write(self, b): seen.v = seen.v + b

        def flush(self): pass
    err = Err()
    err.buffer = err
    h.stub(select.select, sel)
    h.stub(helpers.checked_reader, reader)
    h.stub(os.read, read)
    h.stub(helpers.byte_stream, lambda f: err)
    h.patch(sys, stderr=err)

    def part(eng):
        seen.v = h.fresh('seen', Bytes)
        return h.fresh('b', Bytes)
    h.loop('bup.helpers:DemuxConn._next_packet', 0, types={'buf': part}, inv=lambda L: seen.v == b''.join(L.done))

    def rest(eng):
        seen.v, tail.v = h.fresh('seen', Bytes), h.fresh('tailnow', Bytes)
        return h.fresh('b', Bytes)
    h.loop('bup.helpers:DemuxConn._next_packet', 1, types={'buf': rest},
           inv=lambda L: seen.v + L.buf + tail.v == all_tail and (len(L.buf) > 0 or len(tail.v) == 0))
    was = d.closed
    got = helpers.DemuxConn._next_packet(d, None)
    if was or not ready:
        h.check(not got and st.v == 0 and d.reader is None and d.closed == was, 'nothing is taken when nothing is there')
        return
    h.check(got, 'a packet was taken')
    if ch == 1:
        h.check(d.reader is not None and st.v == 2 and d.reader.left == pay, 'the data of channel 1 is what is read next')
    else:
        h.check(d.reader is None, 'nothing of another channel is read as data')
    if ch == 2:
        h.check(seen.v == pay, 'the data of channel 2 goes to stderr')
    h.check(d.closed == (ch == 3), 'closed by the end packet alone')


@unit('checked_reader', ['bup.helpers:checked_reader'], search=False)
def u_checked(h):
    n = h.input('n', Nat)
    src = Thing(h.input('src', Bytes))
    all_ = src.v

    def read(fd, k):
        b = src.v[:0]
        h.check(k >= 1, 'asks for data')
        if len(src.v) > 0:
            j = h.fresh('j', Nat)
            h.assume(1 <= j and j <= len(src.v) and j <= k)
            b, src.v = src.v[:j], src.v[j:]
        return b
    h.stub(select.select, lambda r, w, x: ([7], [], []))
    h.stub(os.read, read)

    def left(eng):
        src.v = h.fresh('srcnow', Bytes)
        return h.fresh('n', Int)
    h.loop('bup.helpers:checked_reader', 0, out=Bytes, types={'n': left, 'buf': Bytes, 'rl': lambda e: None, '_': lambda e: None},
           inv=lambda L: b''.join(L.out) + src.v == all_ and len(b''.join(L.out)) + L.n == n and L.n >= 0)
    bad = Thing(False)

    def run():
        try:
            for b in helpers.checked_reader(7, n):
                yield b
        except Exception:
            bad.v = True
    got = b''.join(h.gen(run(), Bytes))
    if len(all_) < n:
        h.check(bad.v, 'a stream that ends early is an error')
    else:
        h.check(not bad.v and got == all_[:n] and src.v == all_[n:], 'exactly n bytes are taken')


# --- native
def gen_bytes(r, lo=0):
    n = max(lo, r.choice([0, 1, 2, 5, 30, 127, 128, 130, 300, 5000]))
    return bytes(r.choice(b'ab/\0\n\xff,:=') for _ in range(n))


def gen_meta(r):
    m = Metadata(frozen=False)
    if r.random() < .1:
        return metadata.empty_metadata
    m.mode = r.choice([0o100000, 0o40000, 0o120000, 0o20000]) | r.randrange(0o10000)
    m.uid, m.gid = r.choice([0, 1000, 2**32 - 1]), r.choice([0, 127, 128])
    m.user, m.group = gen_bytes(r), gen_bytes(r)
    m.rdev = r.choice([0, 2049, 2**63, -1])
    m.atime, m.mtime, m.ctime = (r.randrange(-2**62, 2**62) for _ in range(3))
    m.size = r.choice([None, 0, 5, 2**40])
    if r.random() < .3:
        m.symlink_target = gen_bytes(r, 1)
        m.size = len(m.symlink_target)
    if r.random() < .3:
        m.linux_xattr = [(gen_bytes(r, 1), gen_bytes(r)) for _ in range(r.choice([1, 3]))]
    if r.random() < .3:
        m.posix1e_acl = tuple([gen_bytes(r), gen_bytes(r)] + r.choice([[], [gen_bytes(r, 1), gen_bytes(r)]]))
    return m


def gen_item(r):
    kind = r.choice(KINDS)
    meta = gen_meta(r) if r.random() < .5 else r.choice([0, 0o100644, 0o40755, 2**40])
    oid, coid = r.randbytes(20), r.randbytes(20)
    if kind in ('Root', 'Tags'):
        return getattr(vfs, kind)(meta=meta)
    if kind == 'Commit':
        return vfs.Commit(meta=meta, oid=oid, coid=coid)
    if kind == 'FakeLink':
        return vfs.FakeLink(meta=meta, target=gen_bytes(r))
    return getattr(vfs, kind)(meta=meta, oid=oid)


def gen_res(r):
    return tuple((gen_bytes(r), gen_item(r) if r.random() < .8 else None) for _ in range(r.choice([0, 1, 1, 2, 4, 129])))


def gen_error(r):
    return vfs.IOError(errno=r.choice([None, 0, 2, 40, -1, 2**31]), message=r.choice([None, '', 'no such', 'äö']),
                       terminus=gen_res(r) if r.random() < .6 else None)


def write_msg(b, kind, v):
    {'item': protocol.write_item, 'resolution': protocol.write_resolution, 'error': protocol.write_ioerror}[kind](b, v)


def read_msg(b, kind):
    return {'item': protocol.read_item, 'resolution': protocol.read_resolution, 'error': protocol.read_ioerror}[kind](b)


def same_res(h, a, b):
    h.check(len(a) == len(b), 'the resolution has the names sent')
    for (n, i), (m, j) in zip(a, b):
        h.check(n == m, 'each name is the one sent')
        same_item(h, i, j)


def same_msg(h, kind, a, b):
    if kind == 'item':
        same_item(h, a, b)
    elif kind == 'resolution':
        same_res(h, a, b)
    else:
        h.check((a.errno, a.strerror) == (b.errno, b.strerror), 'number and message of the error')
        h.check((a.terminus is None) == (b.terminus is None), 'terminus present')
        if a.terminus is not None:
            same_res(h, a.terminus, b.terminus)


@unit('messages', ['bup.protocol:write_item', 'bup.protocol:read_item', 'bup.protocol:write_resolution',
                   'bup.protocol:read_resolution', 'bup.protocol:write_ioerror', 'bup.protocol:read_ioerror'],
      prove=False, samples=600)
def u_messages(h):
    """messages one after another; a cut message is the end of the stream"""
    def gen(r):
        return [(k, {'item': gen_item, 'resolution': gen_res, 'error': gen_error}[k](r))
                for k in r.choices(['item', 'resolution', 'error'], k=r.choice([1, 2, 3]))]
    seed = h.any('seed', lambda r: r.randrange(2**40))
    import random
    r = random.Random(seed)
    msgs = gen(r)
    b, ends = BytesIO(), []
    for k, v in msgs:
        write_msg(b, k, v)
        ends.append(b.tell())
    data = b.getvalue()
    b = BytesIO(data)
    for (k, v), end in zip(msgs, ends):
        same_msg(h, k, v, read_msg(b, k))
        h.check(b.tell() == end, 'exactly the message is consumed')
    k, v = msgs[0]
    for cut in {0, 1, 2, ends[0] - 1, *[r.randrange(ends[0]) for _ in range(12)]}:
        if 0 <= cut < ends[0]:
            ex, _ = h.raises(read_msg, BytesIO(data[:cut]), k)
            h.check(isinstance(ex, EOFError), 'a cut message is reported as the end of the stream', detail=repr((cut, ex)))


class Err:
    """stands in for sys.stderr"""
    def __init__(self):
        self.buffer = BytesIO()

    def write(self, s): self.buffer.write(s.encode())
    def flush(self): pass


def feed(fd, pieces):
    try:
        for p in pieces:
            while p:
                p = p[os.write(fd, p):]
    finally:
        os.close(fd)


def cut(r, data, most):
    out = []
    while data:
        k = r.randrange(1, most + 1)
        out.append(data[:k])
        data = data[k:]
    return out


def payload(r, n):
    return b''.join(r.choice([b'\n', b'abc', b'\n\n', b'BUPMUX', b'\0' * 7, bytes([r.randrange(256)]) * r.choice([1, 3, 300])])
                    for _ in range(n))


def consume(h, r, conn, want):
    """read and readline in any mix give exactly the bytes"""
    pos = 0
    for _ in range(100000):
        how = r.randrange(4)
        if how == 0:
            got = conn.readline()
            j = want.find(b'\n', pos)
            exp = want[pos:j + 1] if j >= 0 else want[pos:]
            what = 'readline gives the next whole line'
        elif how == 1 and pos < len(want):
            h.check(conn.has_input() in (True, False), 'has_input answers')
            continue
        else:
            k = r.choice([0, 1, 2, 5, 100, 70000]) if pos < len(want) else 1
            got = conn.read(k)
            exp = want[pos:pos + k]
            what = 'read gives exactly the bytes asked for'
        h.check(got == exp, what, detail=repr((pos, got[:40], exp[:40])))
        pos += len(got)
        if pos == len(want) and not got:
            break
    h.check(pos == len(want), 'everything arrives')
    h.check(conn.read(10) == b'' and conn.readline() == b'', 'and then nothing')


@unit('packets over a pipe', ['bup.helpers:DemuxConn._next_packet', 'bup.helpers:DemuxConn._load_buf',
                              'bup.helpers:DemuxConn._read', 'bup.helpers:DemuxConn._readline',
                              'bup.helpers:DemuxConn.__init__', 'bup.helpers:checked_reader'], prove=False, samples=250)
def u_pipe(h):
    seed = h.any('seed', lambda r: r.randrange(2**40))
    import random
    r = random.Random(seed)
    out, err = payload(r, r.choice([0, 1, 10, 200])), payload(r, r.choice([0, 1, 10]))
    pk = [(1, p) for p in cut(r, out, r.choice([1, 5, 1000, MAX_PACKET]))] if len(out) < 5000 or r.random() < .5 else [(1, out)]
    for p in cut(r, err, 100):
        pk.insert(r.randrange(len(pk) + 1), (2, p))
    o = b''.join(p for c, p in pk if c == 1)
    e = b''.join(p for c, p in pk if c == 2)
    if r.random() < .5:
        pk.insert(r.randrange(len(pk) + 1), (r.choice([1, 2]), b''))
    pre = r.choice([b'', b'x', b'BUPMU', b'BBUPMUXX'[:4], b'login banner\n'])
    post = r.choice([b'', b'Traceback\n' * r.choice([1, 400])])
    wire = pre + b'BUPMUX' + b''.join(struct.pack('!IB', len(p), c) + p for c, p in pk) + struct.pack('!IB', 0, 3) + post
    rd, wr = os.pipe()
    t = threading.Thread(target=feed, args=(wr, cut(r, wire, r.choice([1, 3, 60, 5000])) if len(wire) < 20000
                                           else cut(r, wire, 5000)))
    t.start()
    se = Err()
    h.patch(sys, stderr=se)
    sent = BytesIO()
    try:
        with DemuxConn(rd, sent) as conn:
            consume(h, r, conn, o)
            conn.write(b'tail')
        h.check(sent.getvalue() == b'tail', 'what is written is sent')
        h.check(se.buffer.getvalue() == pre + e + post, 'everything else goes to stderr, in order')
    finally:
        os.close(rd)
        t.join()


@unit('mux to demux', ['bup.helpers:mux', 'bup.helpers:DemuxConn.__init__'], prove=False, samples=120)
def u_mux_demux(h):
    seed = h.any('seed', lambda r: r.randrange(2**40))
    import random
    r = random.Random(seed)
    out, err = payload(r, r.choice([0, 3, 100, 3000])), payload(r, r.choice([0, 3, 40, 500]))
    if r.random() < .1:
        out *= 20
    outr, outw = os.pipe()
    errr, errw = os.pipe()
    rd, wr = os.pipe()

    def run():
        try:
            helpers.mux(wr, outr, errr)
        finally:
            os.close(wr)
    ts = [threading.Thread(target=feed, args=(outw, cut(r, out, r.choice([7, 1000, 300000])))),
          threading.Thread(target=feed, args=(errw, cut(r, err, r.choice([7, 1000, 3000])))),
          threading.Thread(target=run)]
    for t in ts:
        t.start()
    se = Err()
    h.patch(sys, stderr=se)
    try:
        with DemuxConn(rd, BytesIO()) as conn:
            consume(h, r, conn, out)
        h.check(se.buffer.getvalue() == err, 'messages arrive on stderr, in order')
    finally:
        for t in ts:
            t.join(20)
        for fd in (rd, outr, errr):
            os.close(fd)
