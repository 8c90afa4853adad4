"""C14: nothing is written outside the directory being extracted to."""
import os, shutil, signal, stat, subprocess, tempfile, io, itertools
from pyvc import cli
from pyvc.spec import *
from pyvc.harness import unit
from bup import metadata, vfs
from bup.cmd import restore as cmd_restore
from bup.cmd import ftp as cmd_ftp
from bup.metadata import Metadata

PROP = 'C14'
NOTE = ('Proved: for every path, the filter of extraction refuses one with a ".." component and makes others relative; for every archive, '
        'the three extractions change only paths the filter let through and that none of the archive\'s links leads away; creating a '
        'path and applying metadata touch only that path, never follow a link there, and open new files exclusively; for every name '
        'in a tree, restore refuses one that is not a plain name and enters only directories it has just made. What the link filter '
        'says, the path filter of archive creation, and whole extractions, restores and mget of hostile content are evaluated as an '
        'unprivileged user with everything around the target compared: bounded. Links that were in the target before are the user\'s.')
LOOPS = {'bup.metadata': ['start_extract', 'finish_extract', 'extract'],
         'bup.cmd.restore': ['restore', 'write_file_content']}
TRUSTED = ['the C functions that set attributes and times do not follow a link (O_NOFOLLOW, lutime, lchown, nofollow=True)']


# --- the filter
@unit('_clean_up_extract_path', ['bup.metadata:_clean_up_extract_path', 'bup.metadata:_risky_path'], search=False)
def u_filter(h):
    """witness: where the component is"""
    a = h.input('before', Bytes) + b'/' if h.choice('something before', [True, False]) else b''
    c = b'/' + h.input('after', Bytes) if h.choice('something after', [True, False]) else b''
    r = a + b'..' + c
    h.assume(not r.startswith(b'/'))
    p = h.input('p', Bytes)
    h.on_method['lstrip'] = lambda s, *x: r if x == (b'/',) else NotImplemented
    h.check(metadata._clean_up_extract_path(p) is None, 'a ".." component is refused')


@unit('_clean_up_extract_path: relative', ['bup.metadata:_clean_up_extract_path', 'bup.metadata:_risky_path'], search=False)
def u_relative(h):
    p = h.input('p', Bytes)
    r = h.input('r', Bytes)     # the path without the slashes in front
    h.assume(not r.startswith(b'/'))
    h.on_method['lstrip'] = lambda s, *x: r if x == (b'/',) else NotImplemented
    got = metadata._clean_up_extract_path(p)
    if got is None:
        h.check(b'..' in r, 'only a path with ".." is refused')
    else:
        h.check(len(got) > 0 and not got.startswith(b'/'), 'the result is relative')
        h.check(got == (b'.' if r == b'' else r), 'and is the path')


def climbs(p):
    return b'..' in p.split(b'/')


def all_paths(tier):
    for n in range(9 if tier == 'quick' else 12):
        for t in itertools.product((b'/', b'.', b'a'), repeat=max(0, n - 4)):
            yield {'head': b''.join(t), 'n': min(n, 4)}


@unit('paths', ['bup.metadata:_clean_up_path_for_archive', 'bup.metadata:_risky_path', 'bup.metadata:_clean_up_extract_path'],
      prove=False, samples=500, cases=all_paths)
def u_paths(h):
    """every path of slashes, dots and letters"""
    head = h.any('head', lambda r: b''.join(r.choice([b'/', b'.', b'..', b'a', b'/./', b'/../', b'\xff', b'\n', b'...'])
                                            for _ in range(r.randint(0, 30))))
    for t in itertools.product((b'/', b'.', b'a'), repeat=h.any('n', lambda r: r.randint(0, 2))):
        p = head + b''.join(t)
        x = metadata._clean_up_extract_path(p)
        h.check(x == (None if climbs(p) else p.lstrip(b'/') or b'.'), 'refused if it climbs, else made relative', detail=repr((p, x)))
        c = metadata._clean_up_path_for_archive(p)
        h.check(c and not c.startswith(b'/') and not climbs(c), 'the path in an archive is relative and does not climb', detail=repr((p, c)))


# --- what extraction does with the archive's paths
inside = ufn('inside', [Bytes], Bool)           # the filter let it through
leads = ufn('leads', [Int, Int], Bool)          # with the links known at that time, that entry leads away


class Entry:
    def __init__(self, w, xpath=None):
        self.w, self.key, self.xpath = w, w.h.fresh('key', Int), xpath
        self.path = w.h.fresh('path', Bytes)
        self.mode = w.h.fresh('mode', Int)

    def thaw(self):
        return self

    def freeze(self):
        return self

    def isdir(self):
        return stat.S_ISDIR(self.mode)

    def apply_to_path(self, path=None, restore_numeric_ids=False):
        self.w.effect(self, self.path if path is None else path)


class Links:
    """what is known of the archive's links; what it says is decided natively"""
    def __init__(self, w):
        self.w, self.when = w, w.h.fresh('when', Int)
        w.links = self

    def notice(self, meta, path):
        if stat.S_ISLNK(meta.mode):
            old = self.when
            self.when = self.w.h.fresh('when', Int)
            self.w.h.assume(leads(self.when, meta.key) == leads(old, meta.key))     # it does not lead itself away

    def followed_by(self, meta, path):
        self.w.h.check(inside(path), 'asked of a path that was let through')
        return leads(self.when, meta.key)


class Kept:
    """entries kept for later: their paths were let through"""
    def __init__(self, w, final):
        self.w, self.final = w, final
        self.when = w.links.when if final else None

    def append(self, x):
        m, p = x if isinstance(x, tuple) else (x, x.path)
        h = self.w.h
        h.check(inside(p), 'only what was let through is kept')
        if self.final:
            h.check(self.w.links.when == self.when and not leads(self.when, m.key), 'and that no link leads away')

    def sort(self, key=None, reverse=False):
        pass

    def as_fnseq(self):
        return FnSeq(self.w.h.fresh('kept', Nat), self.at)

    def at(self, i):
        w = self.w
        p = w.h.fresh('xpath', Bytes)
        w.h.assume(inside(p) and len(p) > 0)
        m = Entry(w)
        if self.final:
            w.h.assume(not leads(self.when, m.key))
        if w.pairs:
            return (m, p)
        m.path = p
        return m


class World:
    def __init__(self, h, pairs):
        self.h, self.pairs, self.links = h, pairs, None

    def effect(self, meta, path):
        self.h.cover('something is changed')
        self.h.check(inside(path), 'only a path that was let through is changed')
        self.h.check(not leads(self.links.when, meta.key), 'and that no link of the archive leads away')


def extraction(fn, pairs, loops):
    """loops: for each, (has links to notice, {what it keeps: final?})"""
    qual = 'bup.metadata:' + fn

    @unit(fn, [qual], search=False)
    def u(h):
        w = World(h, pairs)
        h.stub(metadata._ArchiveIterator, lambda f: FnSeq(h.input('n', Nat), lambda i: Entry(w)))
        h.stub(metadata.deepcopy, lambda m: m)

        def clean(p):
            if h.choice('risky', [False, True]):
                return None
            x = h.fresh('xpath', Bytes)
            h.assume(inside(x) and len(x) > 0)
            return x
        h.stub(metadata._clean_up_extract_path, clean)
        h.stub(metadata._ExtractedLinks, lambda: Links(w))
        h.stub(metadata._set_up_path, lambda meta, create_symlinks=True: w.effect(meta, meta.path))
        h.stub(os.path.isdir, lambda p: h.fresh('is a directory', Bool))
        h.stub(metadata.note_error, lambda m: None)
        for k, (notices, keeps) in enumerate(loops):
            h.loop(qual, k, types={v: (lambda e, f=f: Kept(w, f)) for v, f in keeps.items()} |
                   {v: (lambda e: None) for v in ('meta', 'xpath', 'dir')},
                   havoc={'links.when': Int} if notices else {}, inv=lambda L: True)
        getattr(metadata, fn)(None)
    return u


extraction('start_extract', False, [(True, {})])
extraction('finish_extract', True, [(True, {'items': False}), (False, {'all_dirs': True}), (False, {})])
extraction('extract', False, [(True, {'all_dirs': False}), (False, {})])


# --- what creating and applying touch
@unit('_set_up_path', ['bup.metadata:_set_up_path'], search=False)
def u_set_up(h):
    path = h.input('path', Bytes)
    parent = h.input('parent', Bytes)
    h.stub(os.path.dirname, lambda p: (h.check(p == path, 'the directory of the path'), parent)[1])
    made = []

    def mkdirp(p):
        h.check(p == path or p == parent, 'only the path and the directories above it are made')
        h.check(not made, 'before the path itself')
    h.stub(metadata.mkdirp, mkdirp)

    class M:
        def isdir(self):
            return self.d

        def create_path(self, p, create_symlinks=True):
            h.check(p == path, 'only the path is made')
            h.check(create_symlinks is links, 'links only if wanted')
            made.append(p)
    m = M()
    m.d, m.path = h.choice('directory', [True, False]), path
    links = h.choice('links', [True, False])
    metadata._set_up_path(m, create_symlinks=links)
    h.check(m.d == (not made), 'anything else than a directory is made')


def recorder(h, path, seen, ok, kinds=OSError):
    """a stand-in that may fail, for an operation on that path only"""
    def g(name, checks=None, ret=None):
        def f(p, *a, **k):
            h.check(p == path, 'only that path is touched')
            if checks:
                checks(*a, **k)
            if h.choice(f'{name} fails', [False, True]):
                e = OSError(h.fresh('errno', Int), 'x')
                raise e
            seen.append(name)
            return ret() if ret else None
        return f
    return g


def expected(h, ex):
    h.check(ex is None or isinstance(ex, (OSError, metadata.ApplyError)) or type(ex) in (Exception, AssertionError),
            f'no other failure than one of an operation: {type(ex).__name__}')


@unit('create_path', ['bup.metadata:Metadata.create_path', 'bup.metadata:Metadata._create_via_common_rec',
                      'bup.metadata:Metadata._recognized_file_type'], search=False, engine=dict(max_paths=4000))
def u_create(h):
    path = h.input('path', Bytes)
    seen = []
    g = recorder(h, path, seen, None)
    m = Metadata(frozen=False)
    m.mode = h.input('mode', Nat)
    m.rdev = h.input('rdev', Int)
    m.symlink_target = h.input('target', Bytes)
    links = h.choice('links', [True, False])

    class St:
        st_mode = None
    st = St()
    st.st_mode = h.input('what is there', Nat)
    h.stub(metadata.xstat.lstat, g('lstat', ret=lambda: st))
    h.stub(os.rmdir, g('rmdir'))
    h.stub(os.unlink, g('unlink'))
    h.stub(os.open, g('open', lambda fl, mode=0o777: h.check((fl & (os.O_EXCL | os.O_CREAT)) == os.O_EXCL | os.O_CREAT, 'a new file'), lambda: 7))
    h.stub(os.close, lambda fd: h.check(fd == 7, 'that file'))
    h.stub(os.mkdir, g('mkdir', lambda mode: h.check((mode & 0o77) == 0, 'private for now')))
    h.stub(os.mknod, g('mknod', lambda mode, dev=0: h.check((mode & 0o77) == 0, 'private for now')))
    h.stub(os.mkfifo, g('mkfifo', lambda mode: h.check((mode & 0o77) == 0, 'private for now')))

    def symlink(target, p):
        h.check(links, 'a link only if wanted')
        h.check(target == m.symlink_target, 'to where the entry says')
        return g('symlink')(p)
    h.stub(os.symlink, symlink)
    h.stub(os.umask, lambda m_: 0o22)

    class Sock:
        def __init__(self, *a):
            pass

        def bind(self, p):
            return g('bind')(p)
    h.stub(metadata.socket.socket, Sock)
    h.stub(metadata.note_error, lambda s: None)
    ex, _ = h.raises(m.create_path, path, links)
    expected(h, ex)
    there = 'lstat' in seen
    made = [x for x in seen if x not in ('lstat', 'rmdir', 'unlink')]
    h.check(len(made) <= 1, 'one thing is made')
    if made:
        h.cover('made')
        h.check(not there or seen[1] in ('rmdir', 'unlink'), 'what was there is removed first')
        h.check(seen[-1] is made[0], 'the last thing')
    if 'rmdir' in seen:
        h.check(stat.S_ISDIR(st.st_mode), 'a directory is removed only if empty')
    if 'unlink' in seen:
        h.check(not stat.S_ISDIR(st.st_mode), 'anything else is removed')


APPLIERS = ('_apply_common_rec', '_apply_posix1e_acl_rec', '_apply_linux_attr_rec', '_apply_linux_xattr_rec')


@unit('apply_to_path', ['bup.metadata:Metadata.apply_to_path', 'bup.metadata:Metadata._recognized_file_type'], search=False)
def u_apply(h):
    path = h.input('path', Bytes)
    h.assume(len(path) > 0)
    m = Metadata(frozen=False)
    m.mode = h.input('mode', Nat)
    for n in APPLIERS:
        def f(self, p, restore_numeric_ids=False, n=n):
            h.check(self is m and p == path, 'only that path is touched')
            if h.choice('fails', [None, metadata.ApplyError, OSError]):
                raise metadata.ApplyError('x')
        h.stub(getattr(Metadata, n), f)
    h.stub(metadata.note_error, lambda s: None)
    if h.choice('path given', [True, False]):
        m.path = h.input('recorded', Bytes)
        ex, _ = h.raises(m.apply_to_path, path, restore_numeric_ids=h.choice('ids', [False, True]))
    else:
        m.path = path
        ex, _ = h.raises(m.apply_to_path)
    expected(h, ex)


@unit('_apply_common_rec', ['bup.metadata:Metadata._apply_common_rec'], search=False, engine=dict(max_paths=4000))
def u_common(h):
    path = h.input('path', Bytes)
    m = Metadata(frozen=False)
    m.mode = h.input('mode', Nat)
    link = stat.S_ISLNK(m.mode)
    m.atime, m.mtime = h.input('atime', Int), h.input('mtime', Int)
    m.uid, m.gid = h.input('uid', Int), h.input('gid', Int)
    m.user, m.group = h.choice('names', [(b'', b''), (b'u', b'g')])
    g = recorder(h, path, [], None)

    def follows(*a, **k):
        h.check(not link, 'nothing that follows a link is done to one')

    class Ids:
        pw_uid = gr_gid = 7
        gr_name = b'g'
    h.stub(metadata.lutime, g('lutime'))
    h.stub(metadata.utime, g('utime', follows))
    h.stub(metadata.is_superuser, lambda: h.choice('root', [False, True]))
    h.stub(metadata.getgroups, lambda: [7])
    for f in (metadata.pwd_from_name, metadata.grp_from_name, metadata.grp_from_gid):
        h.stub(f, lambda x: Ids())
    h.stub(os.lchown, g('lchown'))
    h.stub(os.chmod, g('chmod', follows))
    h.stub(metadata.note_error, lambda s: None)
    ex, _ = h.raises(m._apply_common_rec, path, restore_numeric_ids=h.choice('ids', [False, True]))
    expected(h, ex)


@unit('other appliers', ['bup.metadata:Metadata._apply_posix1e_acl_rec', 'bup.metadata:Metadata._apply_linux_attr_rec'], search=False)
def u_others(h):
    path = h.input('path', Bytes)
    m = Metadata(frozen=False)
    m.mode = h.input('mode', Nat)
    link = stat.S_ISLNK(m.mode)
    m.posix1e_acl = h.choice('acl', [None, (b'a', b'b'), (b'a', b'b', b'c', b'd')])
    m.linux_attr = h.choice('attr', [None, 16])
    g = recorder(h, path, [], None)
    h.patch(metadata, apply_acl=g('acl', lambda *a: h.check(not link, 'nothing that follows a link is done to one')),
            set_linux_file_attr=g('attr'))
    h.stub(metadata.note_error, lambda s: None)
    for f in h.choice('which', [(m._apply_posix1e_acl_rec,), (m._apply_linux_attr_rec,)]):
        ex, _ = h.raises(f, path, restore_numeric_ids=h.choice('ids', [False, True]))
        expected(h, ex)


@unit('_apply_linux_xattr_rec', ['bup.metadata:Metadata._apply_linux_xattr_rec'], search=False)
def u_xattr(h):
    path = h.input('path', Bytes)
    m = Metadata(frozen=False)
    m.linux_xattr = h.choice('wanted', [None, [], [(b'user.a', b'1')], [(b'user.a', b'1'), (b'user.b', b'2')]])
    have = h.choice('there', [{}, {b'user.a': b'1'}, {b'user.a': b'0', b'user.c': b''}])

    class X:
        pass

    def op(ret):
        def f(p, *a, nofollow=False):
            h.check(p == path, 'only that path is touched')
            h.check(nofollow is True, 'a link is not followed')
            if h.choice('fails', [False, True]):
                raise OSError(h.choice('errno', [1, 13, 95, 5]), 'x')
            return ret(*a)
        return f
    x = X()
    x.list, x.get, x.set, x.remove = op(lambda: list(have)), op(lambda k: have[k]), op(lambda k, v: None), op(lambda k: None)
    h.patch(metadata, xattr=x)
    h.stub(metadata.note_error, lambda s: None)
    ex, _ = h.raises(m._apply_linux_xattr_rec, path)
    expected(h, ex)


# --- restore
def plain(n):
    return n != b'' and n != b'.' and n != b'..' and b'/' not in n


@unit('restore', ['bup.cmd.restore:restore', 'bup.cmd.restore:write_file_content'], search=False, engine=dict(max_paths=4000))
def u_restore(h):
    """a tree or file of any name: what it names below is the same again"""
    name, parent, top = h.input('name', Bytes), h.input('parent', Bytes), h.input('top', Bytes)
    mode = h.input('mode', Nat)
    cwd = ['here']              # 'here': where it was called, 'below': in the directory it made
    made = []
    new = []

    class It:
        pass
    item, dot = It(), It()
    meta, dotmeta = It(), It()
    meta.mode, dotmeta.mode = mode, h.input('mode of .', Nat)
    meta.symlink_target = h.choice('target', [None, b'', b'/x'])
    meta.hardlink_target = dotmeta.hardlink_target = h.choice('hard link', [None, b'/y'])
    item.meta, dot.meta = meta, dotmeta

    def create(m):
        def create_path(p, create_symlinks=True):
            h.check(cwd == ['here'] and p == name and plain(p), 'only a plain name is made')
            if h.choice('create_path fails', [False, True]):
                raise OSError(13, 'x')
            made.append(m)
        return create_path
    meta.create_path, dotmeta.create_path = create(meta), create(dotmeta)
    h.stub(vfs.item_mode, lambda i: i.meta.mode)
    h.stub(vfs.augment_item_meta, lambda repo, i, include_size=False: i)
    h.stub(cmd_restore.should_rx_exclude_path, lambda p, rxs: h.choice('excluded', [False, True]))
    n = h.input('n', Nat)

    class Subs:
        at_dot = False

        def as_fnseq(self):
            return FnSeq(n, lambda i: (h.fresh('sub name', Bytes), It()))

        def __next__(self):
            h.check(not self.at_dot, 'once')
            self.at_dot = True
            return b'.', dot

        def __iter__(self):
            return self
    h.stub(vfs.contents, lambda repo, i, want_meta=True: Subs())
    h.stub(os.getcwd, lambda: 'origin')

    def chdir(d):
        if d == 'origin':
            cwd[0] = 'here'
        elif cwd[0] == 'below' and d == b'..':
            cwd[0] = 'here'
        else:
            h.check(cwd == ['here'] and d == name and plain(d) and made == [dotmeta] and stat.S_ISDIR(dotmeta.mode),
                    'enters only a directory it has just made')
            cwd[0] = 'below'
    h.stub(os.chdir, chdir)

    def write(repo, p, i):
        h.check(cwd == ['here'] and p == name and plain(p) and made == [meta] and stat.S_ISREG(meta.mode),
                'writes only to a file it has just made')
    h.stub(cmd_restore.write_file_content, write)
    h.stub(cmd_restore.write_file_content_sparsely, write)

    def link(full, i, t, links):
        h.check(plain(name) and full == parent + b'/' + name and t == top, 'links only a plain name')
        return h.choice('linked', [False, True])
    h.stub(cmd_restore.hardlink_if_possible, link)

    def apply(m, p, ids, owners):
        h.check(cwd == ['here'] and p == name and made == [m], 'applies metadata only to what it has just made')
    h.stub(cmd_restore.apply_metadata, apply)
    h.patch(cmd_restore, add_error=lambda e: None, qprogress=lambda *a: None, total_restored=0)
    body = h.body(cmd_restore.restore)

    def again(repo, p, nm, it, t, *a):
        h.check(cwd == ['below'], 'the contents of a directory are restored inside of it')
        h.check(p == parent + b'/' + name and t == top, 'with the path to it')
    h.stub(cmd_restore.restore, again)
    h.loop('bup.cmd.restore:restore', 0, types={v: (lambda e: None) for v in ('sub_name', 'sub_item')}, inv=lambda L: cwd[0] == 'below')
    ex, _ = h.raises(body, None, parent, name, item, top, h.choice('sparse', [False, True]), False, {}, [], h.choice('verbosity', [-1, 0]), {})
    expected(h, ex)
    h.check(cwd == ['here'], 'it ends in the directory it was called in')
    h.check(plain(name) or not made, 'nothing is made for another name')
    if made:
        h.cover('made')


# --- natively, as an unprivileged user
NOBODY = 65534


def reachable(d):
    """the unprivileged user can get there"""
    while True:
        m = os.stat(d).st_mode
        if not m & 0o001:
            os.chmod(d, m & 0o7777 | 0o011)
        up = os.path.dirname(d)
        if up in (b'/', d) or os.stat(up).st_mode & 0o001:
            return
        d = up


def become_nobody():
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)
    os.umask(0o022)
    assert os.getuid() == NOBODY and os.geteuid() == NOBODY


def prepare(top):
    """a target, deep enough for paths that climb, and something outside of it"""
    t = top + b'/1/2/3/4/t'
    os.makedirs(t)
    for d in (b'/o', b'/o/d', b'/1/2/3/4/u'):
        os.mkdir(top + d)
    for f in (b'/o/f', b'/o/x', b'/o/d/x', b'/1/2/3/4/x', b'/x'):
        with open(top + f, 'wb') as fp:
            fp.write(b'old')
        os.utime(top + f, (10**9, 10**9))
    for d in (b'/o/d', b'/o', b'/1/2/3/4/u', b'/1/2/3/4', b'/1/2/3', b'/1/2', b'/1'):
        os.utime(top + d, (10**9, 10**9))
    return t


def picture(top, but):
    out = {}
    todo = [top + b'/1', top + b'/o', top + b'/x']
    for x in os.listdir(top):
        out[x] = 1
    while todo:
        p = todo.pop()
        s = os.lstat(p)
        out[p] = (s.st_mode, s.st_uid, s.st_gid, s.st_nlink, s.st_mtime_ns)
        if p == but:
            out[p] = 1
            continue
        if stat.S_ISDIR(s.st_mode):
            todo += [p + b'/' + x for x in os.listdir(p)]
        elif stat.S_ISLNK(s.st_mode):
            out[p] += (os.readlink(p),)
        elif stat.S_ISREG(s.st_mode):
            with open(p, 'rb') as f:
                out[p] += (f.read(),)
    return out


def changes(a, b):
    return sorted((k, a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k))


def as_nobody(h, fn):
    """runs fn(a directory of its own) in a child -> what it gives"""
    import pickle
    top = h.tmp + b'/n'
    shutil.rmtree(top, ignore_errors=True)
    os.mkdir(top)
    os.chown(top, NOBODY, NOBODY)
    reachable(top)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(55)
            null = os.open(os.devnull, os.O_RDWR)
            for n in (0, 1, 2):
                os.dup2(null, n)
            try:
                become_nobody()
            except OSError:
                res = ('cannot', None)
            else:
                try:
                    res = ('ok', fn(top))
                except BaseException as ex:
                    import traceback
                    res = ('error', traceback.format_exc())
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    shutil.rmtree(top, ignore_errors=True)
    kind, res = pickle.loads(data) if data else ('error', 'the child died')
    if kind == 'error':
        raise RuntimeError(res)
    h.assume(kind == 'ok')
    return res


PATHS = [b'a', b'a/', b'a/.', b'./a', b'//a', b'a/x', b'a//x', b'a/./x', b'./a/x', b'a/d/x', b'a/b', b'a/b/x', b'b', b'b/x',
         b'..', b'../', b'./..', b'../x', b'/..', b'//../x', b'../../../x', b'a/..', b'a/../x', b'a/../../x', b'a/./../../x',
         b'.', b'/', b'./', b'ABS/x', b'ABS/new', b'/ABS/d', b'..a', b'...']
TARGETS = [b'ABS', b'ABS/f', b'ABS/new', b'ABS/d', b'../../../../../o', b'../u', b'..', b'.', b'b', b'a', b'x', b'']
KINDS = [('d', None), ('f', None), ('p', None)] + [('l', t) for t in TARGETS]
FEW = [('d', None), ('f', None), ('l', b'ABS'), ('l', b'../u'), ('l', b'ABS/f'), ('l', b'ABS/new')]
HOW = ['extract', 'start/finish', 'finish', 'extract without links']
MODES = {'d': stat.S_IFDIR | 0o711, 'f': stat.S_IFREG | 0o604, 'p': stat.S_IFIFO | 0o604, 'l': stat.S_IFLNK | 0o777,
         's': stat.S_IFSOCK | 0o600, '?': 0o170604}


def meta_of(kind, target=None, acl=None, user=NOBODY):
    e = Metadata(frozen=False)
    e.mode = MODES[kind]
    e.uid = e.gid = user
    e.user = e.group = b''
    e.atime = e.mtime = e.ctime = 7 * 10**9
    e.rdev = 0
    e.posix1e_acl = acl
    if kind == 'l':
        e.symlink_target = target
        e.size = len(target)
    return e


def archive(entries, top):
    out = b''
    for path, (kind, target), acl in entries:
        m = meta_of(kind, target and target.replace(b'ABS', top + b'/o'),
                    (b'u::rwx,u:65534:rwx,g::r-x,m::rwx,o::---',) * 2 if acl else None)
        m.path = path.replace(b'ABS', top + b'/o')
        out += m.freeze().encode()
    return out


def extract_all(top, archives):
    """-> the first archive that changes something outside"""
    from bup import helpers
    made = 0
    for i, (how, entries) in enumerate(archives):
        d = top + b'/%d' % i
        os.mkdir(d)
        t = prepare(d)
        before = picture(d, t)
        data = archive(entries, d)
        os.chdir(t)
        helpers.saved_errors.clear()
        ex = None
        try:
            if how == 'extract':
                metadata.extract(io.BytesIO(data))
            elif how == 'extract without links':
                metadata.extract(io.BytesIO(data), create_symlinks=False)
            elif how == 'finish':
                # onto what another archive left there
                os.mkdir(b'b')
                for f in (b'a', b'b/x'):
                    with open(f, 'wb'):
                        pass
                metadata.finish_extract(io.BytesIO(data))
            else:
                try:
                    metadata.start_extract(io.BytesIO(data))
                finally:
                    metadata.finish_extract(io.BytesIO(data))
        except Exception as e:
            ex = e
        after = picture(d, t)
        if before != after:
            return how, entries, repr(ex), changes(before, after)
        if len(entries) == 1 and how in ('extract', 'start/finish') and entries[0][1][0] in 'df':
            p = entries[0][0]
            if not climbs(p) and not p.endswith((b'/', b'/.')) and b'ABS' not in p and p.strip(b'/.'):
                if ex or not os.path.lexists(p.lstrip(b'/')):
                    return how, entries, repr(ex), 'not extracted'
                made += 1
        os.chdir(top)
        for r, ds, fs in os.walk(d):
            for x in ds:
                if not os.path.islink(os.path.join(r, x)):
                    os.chmod(os.path.join(r, x), 0o700)
        shutil.rmtree(d)
    return None


def all_pairs(tier):
    firsts = [(p, k) for p in PATHS for k in (FEW if tier == 'quick' else KINDS) if k[0] == 'l' or p in (b'a', b'a/', b'a/b', b'..', b'.')]
    for p, k in firsts:
        yield {'first': (p, k)}


def gen_entry(r):
    return r.choice(PATHS if r.random() < .4 else PATHS[:14]), r.choice(KINDS + FEW * 3), r.random() < .1


@unit('pairs', ['bup.metadata:extract', 'bup.metadata:start_extract', 'bup.metadata:finish_extract', 'bup.metadata:_set_up_path',
                'bup.metadata:_ExtractedLinks.followed_by'], prove=False, samples=0, cases=all_pairs, tmp=True, weight=2)
def u_pairs(h):
    """every archive of an entry followed by another one"""
    p, k = h.any('first', lambda r: gen_entry(r)[:2])
    second = [(q, j) for q in PATHS for j in FEW[:4]]
    bad = as_nobody(h, lambda top: extract_all(top, [(how, [(p, k, False)]) for how in HOW] + [
        (how, [(p, k, False), (q, j, False)]) for q, j in second for how in (HOW[:2] if k[0] == 'l' or j[0] == 'l' else HOW[:1])]))
    h.check(bad is None, 'nothing outside the target changes', detail=repr(bad))


@unit('archives', ['bup.metadata:extract', 'bup.metadata:start_extract', 'bup.metadata:finish_extract', 'bup.metadata:_set_up_path',
                   'bup.metadata:_ExtractedLinks.followed_by'], prove=False, samples=12, tmp=True, weight=2)
def u_archives(h):
    r = h.rng
    batch = [(r.choice(HOW), [gen_entry(r) for _ in range(r.choice([1, 2, 3, 4, 6]))]) for _ in range(60)]
    batch = h.any('archives', lambda r: batch)
    bad = as_nobody(h, lambda top: extract_all(top, batch))
    h.check(bad is None, 'nothing outside the target changes', detail=repr(bad))


# --- hostile repositories
NAMES = [b'a', b'b', b'c', b'..', b'../x', b'../new', b'../u/new', b'ABS/x', b'ABS/new', b'b/x', b'.', b'', b'a/../../new', b'../../../../x',
         b'...bupl', b'../y.bupl', b'.bupl', b'..bupl', b'...bup', b'../z.bup']


class Objects:
    """loose objects of a repository, unchecked"""
    def __init__(self, repo):
        self.repo = repo

    def put(self, kind, data):
        import hashlib, zlib
        raw = b'%s %d\0' % (kind, len(data)) + data
        oid = hashlib.sha1(raw).digest()
        x = oid.hex().encode()
        d = self.repo + b'/objects/' + x[:2]
        os.makedirs(d, exist_ok=True)
        with open(d + b'/' + x[2:], 'wb') as f:
            f.write(zlib.compress(raw))
        return oid

    def tree(self, ents):
        return self.put(b'tree', b''.join(b'%o %s\0' % (m, n) + o for m, n, o in ents))


def gen_tree(r, depth, evil):
    """-> [(name, kind, what, metadata kind, its target)], or with the metadata of the directory"""
    ents = []
    for _ in range(r.choice([1, 2, 3, 4])):
        name = r.choice(NAMES) if r.random() < evil else r.choice([b'a', b'b', b'c', b'd'])
        kind = r.choice(['f', 'f', 'l', 'd', 'd'] if depth else ['f', 'l'])
        what = gen_tree(r, depth - 1, evil) if kind == 'd' else r.choice(TARGETS[:-1]) if kind == 'l' else b'content'
        mk = kind if r.random() < .7 or not evil else r.choice(['d', 'f', 'l', 'p', '?'])
        ents.append((name, kind, what, mk, r.choice(TARGETS[:-1])))
    dot = None if r.random() < .5 else 'd' if r.random() < .6 or not evil else r.choice(['l', 'l', 'f', '?'])
    return ents, dot, r.choice(TARGETS[:6])


def put_tree(o, t, top):
    ents, dot, target = t
    out = []
    metas = {}
    seen = set()

    def fill(x):
        return x.replace(b'ABS', top + b'/o')
    for name, kind, what, mk, mt in ents:
        name = fill(name)
        if name in seen and kind == 'f':
            continue
        seen.add(name)
        if kind == 'd':
            e = (0o40000, name, put_tree(o, what, top))
        else:
            e = (0o120000 if kind == 'l' else 0o100644, name, o.put(b'blob', fill(what)))
            m = meta_of(mk, fill(what if kind == 'l' and mk == 'l' else mt))
            if kind == 'f' and mk == 'f':
                m.size = len(what)
            m.path = b'../new'
            metas[e] = m
        out.append(e)
    out.sort(key=lambda e: e[1] + (b'/' if stat.S_ISDIR(e[0]) else b''))
    if dot:
        m = meta_of(dot, fill(target)).freeze().encode()
        bm = (0o100644, b'.bupm', o.put(b'blob', b''))
        # in the order in which they are read
        for name, mangled, kind, gitmode, oid in vfs.ordered_tree_entries([e for e in out], True):
            x = metas.get((gitmode, mangled, oid))
            if x is not None:
                m += x.freeze().encode()
        out.append((0o100644, b'.bupm', o.put(b'blob', m)))
        out.sort(key=lambda e: e[1] + (b'/' if stat.S_ISDIR(e[0]) else b''))
    return o.tree(out)


def hostile(h, tree):
    top = h.tmp + b'/n'
    shutil.rmtree(top, ignore_errors=True)
    os.mkdir(top)
    reachable(top)
    rc, o, e = cli.bup(['init'], {b'BUP_DIR': top + b'/bup'})
    h.check(rc == 0, 'init', detail=repr(e))
    os.mkdir(top + b'/n')
    t = prepare(top + b'/n')
    obj = Objects(top + b'/bup')
    root = put_tree(obj, tree, top + b'/n')
    who = b'A <a@b> 1000000000 +0000'
    c = obj.put(b'commit', b'tree %s\nauthor %s\ncommitter %s\n\nx\n' % (root.hex().encode(), who, who))
    with open(top + b'/bup/refs/heads/s', 'wb') as f:
        f.write(c.hex().encode() + b'\n')
    for r, ds, fs in os.walk(top):
        for x in [b'.'] + ds + fs:
            os.lchown(os.path.join(r, x), NOBODY, NOBODY)
    return top, t


def run_hostile(h, tree, cmd):
    top, t = hostile(h, tree)
    before = picture(top + b'/n', t)
    rc, o, e = cli.bup(cmd, {b'BUP_DIR': top + b'/bup', b'HOME': top}, before=become_nobody, cwd=t)
    h.assume(not (rc == 99 and b'setgroups' in e))
    after = picture(top + b'/n', t)
    h.check(before == after, 'nothing outside the target changes', detail=repr((changes(before, after), rc, e[-600:])))
    left = sorted(os.listdir(t))
    shutil.rmtree(top, ignore_errors=True)
    return rc, left, e


def gen_restore(r):
    return gen_tree(r, r.choice([1, 2, 2]), .4)


HOSTILE = [([(n, k, w, k, b'ABS')], None, b'ABS')
           for n in NAMES for k, w in (('f', b'content'), ('l', b'ABS'), ('d', ([(b'new', 'f', b'content', 'f', b'')], None, b'')))]
HOSTILE += [([(b'a', 'd', ([(b'new', 'f', b'content', 'f', b'')], dot, b'ABS'), 'd', b'')], top, b'ABS')
            for dot in (None, 'd', 'l', 'f', '?') for top in (None, 'd')]
HOSTILE += [([(b'a', 'l', b'ABS', 'l', b''), (b'a', 'd', ([(b'new', 'f', b'content', 'f', b'')], 'd', b'ABS'), 'd', b'')], dot, b'') for dot in (None, 'd')]
HOSTILE += [([(b'a', 'f', b'content', mk, b'ABS/new')], 'd', b'ABS') for mk in 'dflp?']


@unit('hostile repositories', ['bup.cmd.restore:restore', 'bup.cmd.restore:main', 'bup.cmd.restore:write_file_content',
                               'bup.cmd.restore:hardlink_if_possible'], prove=False, samples=12, timeout=60, tmp=True, weight=3,
      cases=lambda tier: [{'tree': t, 'what': w} for t in HOSTILE for w in ((b'/s/latest/.',) if tier == 'quick' else (b'/s/latest/.', b'/s/latest'))])
def u_hostile(h):
    tree = h.any('tree', gen_restore)
    what = h.any('what', lambda r: r.choice([b'/s/latest/.', b'/s/latest', b'/s/latest/', b'/s/latest/a', b'/s/latest/a/..', b'/s/latest/a/']))
    rc, left, e = run_hostile(h, tree, ['restore'] + (['--sparse'] if h.rng.random() < .3 else []) + [what])
    ents, dot, _ = tree
    if what == b'/s/latest/.' and len(ents) == 1 and ents[0][0] in (b'a', b'b', b'c') and (not dot or ents[0][3] == ents[0][1]) \
            and dot in (None, 'd') and (ents[0][1] != 'd' or ents[0][2][1] in (None, 'd')) and ents[0][1] != 'd':
        h.check(rc == 0 and left == [ents[0][0]], 'a plain name is restored', detail=repr((rc, left, e)))


@unit('mget', ['bup.cmd.ftp:present_interface'], prove=False, samples=3, timeout=60, tmp=True, weight=2,
      cases=lambda tier: [{'tree': ([(n, k, w, k, b'')], None, b'')} for n in NAMES for k, w in (('f', b'content'), ('l', b'/s/latest/b'))])
def u_mget(h):
    tree = h.any('tree', gen_restore)
    rc, left, e = run_hostile(h, tree, ['ftp', 'mget /s/latest/*'])
    ents = tree[0]
    if len(ents) == 1 and ents[0][1] == 'f' and ents[0][0] in (b'a', b'b', b'c') and not tree[1]:
        h.check(rc == 0 and left == [ents[0][0]], 'a plain name is fetched', detail=repr((rc, left, e)))
