"""C04: stored file metadata decodes to the metadata that was captured."""
import stat
from io import BytesIO
from pyvc.spec import *
from pyvc.harness import unit
from bup import metadata, vint, xstat
from bup.metadata import Metadata

PROP = 'C04'
NOTE = ('Proved for every attribute value: encode followed by read, for every combination of present attributes, each '
        'record codec, the time conversions and the capture of stat fields, on top of the C03 contract of vint (what is '
        'packed unpacks to the same values, in order); extended attribute lists of any length. The byte-level composition, '
        'concatenation, truncation, unknown records and the legacy record versions are evaluated natively on generated '
        'records: bounded.')
LOOPS = {'bup.metadata': ['Metadata._encode_linux_xattr', 'Metadata._load_linux_xattr_rec']}
ASSUME = ['vint.pack/unpack/read_* behave as proved in C03',
          'pwd_from_uid/grp_from_gid return the account entry of the id or None']

ATTRS = ('mode', 'uid', 'gid', 'user', 'group', 'rdev', 'atime', 'mtime', 'ctime', 'path', 'size',
         'symlink_target', 'hardlink_target', 'linux_attr', 'linux_xattr', 'posix1e_acl')
TIMES = [0, 1, -1, 10**9, -10**9, 10**9 - 1, 1 - 10**9, -10**9 - 1, -5 * 10**8, 1700000000123456789,
         -1700000000123456789, 2**63, -2**63, 999999999, -999999999, 10**18 + 1]


def gen_time(r):
    if r.random() < .4:
        return r.choice(TIMES)
    if r.random() < .5:     # next to a whole second, where rounding shows
        return r.randrange(-2**r.choice([3, 20, 31, 33]), 2**r.choice([3, 20, 31, 33])) * 10**9 + r.choice([-2, -1, 0, 1, 999, 1000])
    return r.randrange(-2**65, 2**65)


class Packer:
    """the C03 contract of vint: unpack gives the values that were packed, in the same format; the
    records read are the ones written, in order"""
    def __init__(self, h):
        self.h, self.toks, self.log = h, [], []
        h.stub(vint.pack, self.pack)
        h.stub(vint.unpack, self.unpack)
        h.stub(vint.encode_vuint, self.vuint)
        h.stub(vint.encode_bvec, self.bvec)
        h.stub(vint.read_vuint, self.read)
        h.stub(vint.read_bvec, self.read)

    def pack(self, fmt, *vals):
        self.h.check(len(fmt) == len(vals), 'a value for each field of the record')
        for f, v in zip(fmt, vals):
            if f == 'V':
                self.h.check(v >= 0, 'unsigned fields are not negative')
        tok = self.h.fresh('rec', Bytes)
        self.h.assume(len(tok) > 0)
        self.toks.append((tok, fmt, vals))
        return tok

    def unpack(self, fmt, data):
        for t, f, vals in self.toks:
            if t is data:
                self.h.check(f == fmt, 'a record is unpacked with the format it was packed with')
                return list(vals)
        raise AssertionError('unpacking what was not packed')

    def vuint(self, v):
        self.log.append(v)
        return b'v'

    def bvec(self, v):
        self.log.append(v)
        return b'b'

    def read(self, port):
        if not self.log:
            return None
        return self.log.pop(0)


def common_input(h, m):
    m.mode = h.input('mode', Nat, gen=lambda r: r.choice([0o100644, 0o40755, 0o120777, 0o20600, 0o60600]))
    h.assume(m.mode > 0)
    for a in ('uid', 'gid', 'rdev'):
        setattr(m, a, h.input(a, Int if a == 'rdev' else Nat))
    for a in ('user', 'group'):
        setattr(m, a, h.input(a, Bytes))
    for a in ('atime', 'mtime', 'ctime'):
        setattr(m, a, h.input(a, Int, gen=gen_time))


def same(h, a, b, what):
    for k in ATTRS:
        x, y = getattr(a, k), getattr(b, k)
        if k == 'linux_xattr':
            x, y = x or None, y or None
        if x is None or y is None:
            h.check(x is None and y is None, f'{what}: {k}')
        else:
            h.check(x == y, f'{what}: {k}')


@unit('encode then read', ['bup.metadata:Metadata.encode', 'bup.metadata:Metadata.read',
      'bup.metadata:Metadata._encode_common', 'bup.metadata:Metadata._load_common_rec',
      'bup.metadata:Metadata._encode_posix1e_acl', 'bup.metadata:Metadata._load_posix1e_acl_rec',
      'bup.metadata:Metadata._encode_path', 'bup.metadata:Metadata._load_path_rec',
      'bup.metadata:Metadata._encode_linux_attr', 'bup.metadata:Metadata._load_linux_attr_rec',
      'bup.metadata:Metadata._load_symlink_target_rec',
      'bup.metadata:Metadata._load_hardlink_target_rec'], samples=6000)
def u_encode_read(h):
    m = Metadata(frozen=False)
    common_input(h, m)
    has = {}
    for k in ('path', 'size', 'symlink', 'hardlink', 'attr', 'acl'):
        has[k] = h.choice('has ' + k, [False, True])
    include = h.choice('include_path', [True, False])
    if has['path']:
        m.path = h.input('path', Bytes)
        h.assume(len(m.path) > 0)
    if has['symlink']:
        m.symlink_target = h.input('target', Bytes)
        h.assume(len(m.symlink_target) > 0)
        m.size = len(m.symlink_target)
    elif has['size']:
        m.size = h.input('size', Nat)
    if has['hardlink']:
        m.hardlink_target = h.input('link', Bytes)
        h.assume(len(m.hardlink_target) > 0)
    if has['attr']:
        m.linux_attr = h.input('attr', Nat)
        h.assume(m.linux_attr > 0)
    if has['acl']:
        acl = tuple(h.input(f'acl{i}', Bytes) for i in range(4))
        kind = h.choice('acl kind', [2, 4])
        h.assume(implies(kind == 4, len(acl[2]) > 0))
        m.posix1e_acl = acl[:kind]
    if h.symbolic:
        p = Packer(h)
        m.encode(include_path=include)
        h.check(m.path is None or include == any(x is 1 for x in p.log[:1]),
                'the path is recorded if and only if asked for')
        got = Metadata.read(None)
        h.check(p.log == [], 'nothing is left unread')
    else:
        data = m.encode(include_path=include)
        port = BytesIO(data + b'\x55\xaa')
        got = Metadata.read(port)
        h.check(port.read() == b'\x55\xaa', 'exactly the record is consumed')
    want = Metadata(frozen=False)
    for k in ATTRS:
        setattr(want, k, getattr(m, k))
    if not include:
        want.path = None
    same(h, want, got, 'the decoded attribute is the one encoded')
    h.check(got == want, 'the decoded metadata compares equal')


class Mem:
    """the records of an xattr list, one at a time"""
    def __init__(self, xs):
        self.xs, self.k = xs, 0


XA = Tup(Bytes, Bytes)
packV = ufn('packV', [Int], Bytes)
packss = ufn('packss', [Bytes, Bytes], Bytes)


@rec(Seq(XA), ret=Bytes)
def cat(xs):
    return b'' if len(xs) == 0 else cat(xs[:-1]) + packss(xs[-1][0], xs[-1][1])


@unit('xattr encode', ['bup.metadata:Metadata._encode_linux_xattr'], search=False)
def u_xattr_encode(h):
    m = Metadata(frozen=False)
    m.linux_xattr = h.input('xs', Seq(XA))
    xs = m.linux_xattr
    h.stub(vint.pack, lambda fmt, *v: packV(*v) if fmt == 'V' else packss(*v))
    h.loop('bup.metadata:Metadata._encode_linux_xattr', 0,
           types={'result': Bytes, 'name': Bytes, 'value': Bytes},
           inv=lambda L: L.result == packV(len(xs)) + cat(L.done))
    got = m._encode_linux_xattr()
    if len(xs) == 0:
        h.check(got is None, 'no record for no attributes')
    else:
        h.check(got == packV(len(xs)) + cat(xs), 'the count and every name with its value, in order')


@unit('xattr load', ['bup.metadata:Metadata._load_linux_xattr_rec'], search=False)
def u_xattr_load(h):
    m = Metadata(frozen=False)
    xs = h.input('xs', Seq(XA))
    mem = Mem(xs)
    port = Mem(None)

    def read_bvec(p):
        if p is port:
            return b'data'
        h.check(p is mem, 'reads from the record')
        k = p.k
        p.k = k + 1
        e = xs[k // 2]
        return e[0] if k % 2 == 0 else e[1]

    h.stub(BytesIO, lambda data: mem)
    h.stub(vint.read_bvec, read_bvec)
    h.stub(vint.read_vuint, lambda p: len(xs))
    h.loop('bup.metadata:Metadata._load_linux_xattr_rec', 0, keep=('memfile',),
           types={'result': Seq(XA), 'key': Bytes, 'value': Bytes}, havoc={'memfile.k': Nat},
           inv=lambda L: L.memfile.k == 2 * L.idx and L.result == xs[:L.idx])
    m._load_linux_xattr_rec(port)
    h.check(m.linux_xattr == xs, 'every attribute is read back')


# --- times
@unit('times', ['bup.xstat:timespec_to_nsecs', 'bup.xstat:nsecs_to_timespec',
                'bup.xstat:nsecs_to_timeval', 'bup.xstat:fstime_floor_secs'], samples=2000)
def u_times(h):
    ns = h.input('ns', Int, gen=gen_time)
    s, n = xstat.nsecs_to_timespec(ns)
    h.check(0 <= n and n < 10**9 and s * 10**9 + n == ns, 'seconds and nanoseconds of a time')
    h.check(xstat.timespec_to_nsecs((s, n)) == ns, 'the time of seconds and nanoseconds')
    s, u = xstat.nsecs_to_timeval(ns)
    h.check(0 <= u and u < 10**6 and (s * 10**6 + u) * 1000 <= ns and ns < (s * 10**6 + u + 1) * 1000,
            'seconds and microseconds of a time')
    f = xstat.fstime_floor_secs(ns)
    h.check(f * 10**9 <= ns and ns < (f + 1) * 10**9, 'whole seconds round down')


def decimal(ns):
    a = abs(ns)
    t = b'-' if ns < 0 else b''
    t += b'%d' % (a // 10**9)
    if a % 10**9:
        t += b'.%09d' % (a % 10**9)
    return t


@unit('printed times', ['bup.xstat:fstime_to_sec_bytes'], prove=False, samples=2000)
def u_printed(h):
    ns = h.input('ns', Int, gen=gen_time)
    h.check(xstat.fstime_to_sec_bytes(ns) == decimal(ns), 'a printed time is the time')


# --- capture
class St:
    pass


class Ent:
    def __init__(self, n):
        self.pw_name = self.gr_name = n


@unit('capture', ['bup.metadata:Metadata._add_common'], samples=2000)
def u_capture(h):
    st = St()
    for a in ('uid', 'gid', 'size'):
        setattr(st, 'st_' + a, h.input(a, Nat))
    for a in ('atime', 'mtime', 'ctime'):
        setattr(st, f'st_{a}_ns', h.input(a, Int, gen=gen_time))
    st.st_rdev = h.input('rdev', Int)
    st.st_mode = h.input('mode', Nat, gen=lambda r: r.choice([0o100644, 0o40755, 0o20600, 0o60600, 0o120777, 0o10600]))
    h.assume(st.st_mode < 65536)
    user = h.input('user', Bytes)
    group = h.input('group', Bytes)
    hu = h.choice('known user', [True, False])
    hg = h.choice('known group', [True, False])
    seen = []
    pwd = lambda uid: (seen.append(uid), Ent(user) if hu else None)[1]
    grp = lambda gid: (seen.append(gid), Ent(group) if hg else None)[1]
    h.stub(metadata.pwd_from_uid, pwd)
    h.stub(metadata.grp_from_gid, grp)
    if not h.symbolic:
        h.patch(metadata, pwd_from_uid=pwd, grp_from_gid=grp)
    m = Metadata(frozen=False)
    m._add_common(st)
    h.check(seen[0] == st.st_uid and seen[1] == st.st_gid, 'the names looked up are those of the ids')
    h.check(m.uid == st.st_uid and m.gid == st.st_gid and m.size == st.st_size, 'ids and size')
    h.check(m.atime == st.st_atime_ns and m.mtime == st.st_mtime_ns and m.ctime == st.st_ctime_ns, 'times')
    h.check(m.mode == st.st_mode, 'mode')
    h.check(m.user == (user if hu else b'') and m.group == (group if hg else b''), 'names')
    t = st.st_mode // 4096 % 16
    h.check(m.rdev == (st.st_rdev if t == 2 or t == 6 else 0), 'the device of device nodes')


@unit('equality', ['bup.metadata:Metadata.__eq__', 'bup.metadata:Metadata.__ne__'], samples=4000)
def u_equality(h):
    """equal exactly when every attribute agrees"""
    a, b = Metadata(frozen=False), Metadata(frozen=False)
    T = dict(user=Bytes, group=Bytes, path=Bytes, symlink_target=Bytes, hardlink_target=Bytes)
    diff = h.choice('differs in', list(ATTRS) + [None])
    for k in ATTRS:
        if k in ('posix1e_acl',):
            v = (h.input(k, Bytes), b'x')
            w = (h.input(k + "'", Bytes), b'x') if k == diff else v
        elif k == 'linux_xattr':
            v = [(h.input(k, Bytes), b'x')]
            w = [(h.input(k + "'", Bytes), b'x')] if k == diff else list(v)
        else:
            t = T.get(k, Int)
            v = h.input(k, t)
            w = h.input(k + "'", t) if k == diff else v
        if k == diff:
            h.assume(v != w)
        setattr(a, k, v)
        setattr(b, k, w)
    h.check((a == b) == (diff is None), 'equal exactly when every attribute agrees')
    h.check((a != b) == (diff is not None), 'different exactly when some attribute differs')
    if diff is None and not h.symbolic:
        h.check(hash(a) == hash(b), 'equal metadata has equal hashes')


# --- native composition
def gen_bytes(r, lo=0):
    n = max(lo, r.choice([0, 1, 2, 5, 30, 127, 128, 130, 300, 5000]))
    return bytes(r.choice(b'ab/\0\n\xff,:=') for _ in range(n))


def gen_meta(r):
    d = dict.fromkeys(ATTRS)
    ids = [0, 1, 1000, 65534, 2**31, 2**32 - 1, 127, 128, 16383, 16384]
    if r.random() < .93:
        kind = r.choice([0o100000, 0o40000, 0o120000, 0o20000, 0o60000, 0o10000, 0o140000])
        d['mode'] = kind | r.randrange(0o10000)
        d['uid'], d['gid'] = r.choice(ids), r.choice(ids)
        d['user'], d['group'] = gen_bytes(r), gen_bytes(r)
        d['rdev'] = r.choice([0, 0, 2049, 2**32, -1, 2**63])
        d['atime'], d['mtime'], d['ctime'] = gen_time(r), gen_time(r), gen_time(r)
        d['size'] = r.choice([None, 0, 1, 4096, 2**33, 2**63])
    if r.random() < .5:
        d['path'] = gen_bytes(r, 1)
    if r.random() < .3:
        d['symlink_target'] = gen_bytes(r, 1)
        d['size'] = len(d['symlink_target'])
    if r.random() < .3:
        d['hardlink_target'] = gen_bytes(r, 1)
    if r.random() < .3:
        d['posix1e_acl'] = tuple([gen_bytes(r), gen_bytes(r)] + r.choice([[], [gen_bytes(r, 1), gen_bytes(r)]]))
    if r.random() < .3:
        d['linux_attr'] = r.choice([1, 0x10, 2**31, 2**32 - 1])
    if r.random() < .4:
        d['linux_xattr'] = [(gen_bytes(r, 1), gen_bytes(r)) for _ in range(r.choice([1, 1, 2, 5, 130]))]
    if not any(v is not None for k, v in d.items() if k != 'size'):
        d['path'] = b'x'
    return d


def mk(d):
    m = Metadata(frozen=False)
    for k, v in d.items():
        setattr(m, k, v)
    return m


def unknown_record(r):
    return vint.encode_vuint(r.choice([5, 12, 13, 127, 128, 70000])) + vint.encode_bvec(gen_bytes(r))


@unit('records in a stream', ['bup.metadata:Metadata.encode', 'bup.metadata:Metadata.read',
                              'bup.metadata:Metadata.write'], prove=False, samples=1500)
def u_stream(h):
    """concatenated records, with unknown ones in between, decode one after another; a cut is an error"""
    ds = h.any('records', lambda r: [gen_meta(r) for _ in range(r.choice([1, 2, 3, 5]))])
    include = h.choice('include_path', [True, False])
    import random
    r = random.Random(h.any('seed', lambda r: r.getrandbits(30)))
    data, ends, ms = b'', [], []
    for d in ds:
        m = mk(d)
        out = BytesIO()
        m.write(out, include_path=include)
        one = out.getvalue()
        h.check(one == m.encode(include_path=include), 'writing writes the encoding')
        if r.random() < .3:                 # an unknown record somewhere in front
            one = unknown_record(r) + one
        if r.random() < .3:
            one = one[:-1] + unknown_record(r) + one[-1:]
        data += one
        ends.append(len(data))
        ms.append(m)
    port = BytesIO(data)
    for m, e in zip(ms, ends):
        try:
            got = Metadata.read(port)
        except Exception as ex:
            h.check(False, 'an encoded record is readable', detail=repr(ex))
        want = mk({k: getattr(m, k) for k in ATTRS})
        if not include:
            want.path = None
        if not any(getattr(want, k) is not None for k in ATTRS if k != 'size'):
            h.check(port.tell() == e, 'each record consumes its own bytes')
            continue
        same(h, want, got, 'the attribute read is the one written')
        h.check(want == got, 'the metadata read compares equal')
        h.check(port.tell() == e, 'each record consumes its own bytes')
    h.check(Metadata.read(port) is None, 'the end of the stream is not a record')
    one = ms[0].encode()
    for cut in sorted({1, 2, len(one) - 1, len(one) // 2, r.randrange(1, max(2, len(one)))}):
        if cut >= len(one):
            continue
        ex, got = h.raises(Metadata.read, BytesIO(one[:cut]))
        h.check(isinstance(ex, EOFError), 'a cut record is an end-of-file error',
                detail=f'cut at {cut} of {len(one)}: {ex!r} {got!r}')


@unit('old common records', ['bup.metadata:Metadata._load_common_rec'], prove=False, samples=1500)
def u_old(h):
    d = h.any('meta', gen_meta)
    version = h.choice('version', [1, 2])
    m = mk(d)
    h.assume(m.mode)
    h.assume(version == 2 or (m.rdev >= 0))
    ts = [xstat.nsecs_to_timespec(t) for t in (m.atime, m.mtime, m.ctime)]
    fmt = {1: 'VVsVsVvVvVvV', 2: 'vvsvsvvVvVvV'}[version]
    rec = vint.pack(fmt, m.mode, m.uid, m.user, m.gid, m.group, m.rdev, *ts[0], *ts[1], *ts[2])
    data = vint.encode_vuint({1: 2, 2: 9}[version]) + vint.encode_bvec(rec) + b'\0'
    got = Metadata.read(BytesIO(data))
    for k in ('mode', 'uid', 'user', 'gid', 'group', 'rdev', 'atime', 'mtime', 'ctime'):
        h.check(getattr(got, k) == getattr(m, k), f'old record: {k}')
    h.check(got.size is None, 'an old record has no size')


@unit('old acl records', ['bup.metadata:Metadata._correct_posix1e_v1_delimiters',
                          'bup.metadata:Metadata._load_posix1e_acl_rec'], prove=False, samples=600)
def u_old_acl(h):
    def gen(r):
        one = lambda: b'\n'.join(r.choice([b'user::rw-', b'u:x:r', b'mask::r', b'']) for _ in range(r.choice([1, 2, 4])))
        return [one(), one(), r.choice([b'', b'user::r\nother::x']), b'']
    acls = h.any('acls', gen)
    data = vint.encode_vuint(4) + vint.encode_bvec(vint.pack('ssss', *acls)) + b'\0'
    got = Metadata.read(BytesIO(data))
    want = [a.replace(b'\n', b',') for a in acls]
    if want[2] == b'':
        want = want[:2]
    h.check(got.posix1e_acl == tuple(want), 'old ACLs are read with corrected delimiters')


@unit('from_path', ['bup.metadata:from_path', 'bup.metadata:Metadata._add_symlink_target'],
      prove=False, samples=150, tmp=True)
def u_from_path(h):
    """capture, encode, decode, against what the system says"""
    import os
    kind = h.choice('kind', ['file', 'dir', 'symlink', 'fifo'])
    at = h.any('atime', lambda r: r.choice([0, 1, -1, 123456789, -10**9 - 1, 1600000000987654321]))
    mt = h.any('mtime', lambda r: r.choice([0, 1, -1, 123456789, -10**9 - 1, 1600000000987654321]))
    perm = h.any('perm', lambda r: r.randrange(0o10000))
    size = h.any('size', lambda r: r.choice([0, 1, 5000]))
    target = h.any('target', lambda r: r.choice([b'x', b'/a/b', b'../\xff', b'y' * 300]))
    p = os.path.join(h.tmp, b'f')
    if kind == 'file':
        with open(p, 'wb') as f:
            f.write(b'z' * size)
    elif kind == 'dir':
        os.mkdir(p)
    elif kind == 'symlink':
        os.symlink(target, p)
    else:
        os.mkfifo(p)
    if kind != 'symlink':
        os.chmod(p, perm)
    os.utime(p, ns=(at, mt), follow_symlinks=False)
    st = os.lstat(p)
    m = metadata.from_path(p, archive_path=b'a/b')
    got = Metadata.read(BytesIO(m.encode()))
    h.check(got.mode == st.st_mode and got.uid == st.st_uid and got.gid == st.st_gid, 'mode and owner')
    h.check(got.mtime == st.st_mtime_ns and got.ctime == st.st_ctime_ns and got.atime == st.st_atime_ns,
            'the times are the system\'s')
    h.check(got.symlink_target == (target if kind == 'symlink' else None), 'symlink target')
    h.check(got.path == b'a/b', 'the path to record')
    if kind == 'file':
        h.check(got.size == size, 'size')
    # and applying it gives them back
    q = os.path.join(h.tmp, b'g')
    got.create_path(q)
    got.apply_to_path(q)
    s2 = os.lstat(q)
    h.check(s2.st_mode == st.st_mode and s2.st_mtime_ns == st.st_mtime_ns, 'restored mode and times')
    if kind == 'symlink':
        h.check(os.readlink(q) == target, 'restored target')
