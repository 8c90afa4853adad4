"""Watches the file operations of bup commands, in every process that takes part.

Before each rename, unlink and ref update the repository is inspected as a process that stopped there would leave it; what is
renamed into place is recorded with its content and whether that content had been synced; the k-th operation may be made to fail
or to end the process."""
import hashlib, json, os, subprocess, sys

_o = {n: getattr(os, n) for n in ('rename', 'replace', 'unlink', 'remove', 'fsync', 'mkdir', 'rmdir', 'link')}
_open = open


def _git(repo, *a, input=None):
    env = dict(os.environb)
    env.pop(b'PYVC_OPHOOK', None)
    p = subprocess.Popen(['git', '--git-dir', os.fsdecode(repo), *a], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=env)
    out, err = p.communicate(input)
    return p.returncode, out, err


def missing(repo, *what):
    """what is referred to but not in a finished pack (or loose)"""
    rc, out, err = _git(repo, 'rev-list', '--objects', *what)
    if rc:
        return err[:300].decode(errors='replace') or 'rev-list failed'
    ids = b''.join(x.split(b' ')[0] + b'\n' for x in out.splitlines())
    rc, out, err = _git(repo, 'cat-file', '--batch-check', input=ids)
    bad = [x for x in out.splitlines() if x.endswith(b' missing')]
    return f'{bad[:2]}' if bad or rc else ''


_good = set()


def inspect(repo):
    """-> what is wrong with the repository as it is on disk now"""
    bad = []
    d = os.path.join(os.fsencode(repo), b'objects/pack')
    names = set(os.listdir(d))
    for n in sorted(names):
        stem, ext = os.path.splitext(n)
        if ext == b'.idx' and stem + b'.pack' not in names:
            bad.append(f'{n} without its pack')
        if ext in (b'.pack', b'.idx'):
            p = os.path.join(d, n)
            st = os.stat(p)
            key = (p, st.st_ino, st.st_size, st.st_mtime_ns)
            if key not in _good:
                b = _open(p, 'rb').read()
                if len(b) < 32 or hashlib.sha1(b[:-20]).digest() != b[-20:]:
                    bad.append(f'{n} is not complete')
                elif ext == b'.pack' and stem != b'pack-' + b[-20:].hex().encode():
                    bad.append(f'{n} is not named after its content')
                else:
                    _good.add(key)
    m = missing(repo, '--all')
    if m:
        bad.append('a ref refers to what is not there: ' + m)
    return bad


class Hook:
    def __init__(self, conf):
        self.dir, self.repos, self.fail, self.kill = conf['dir'], conf['repos'], conf['fail'], conf['kill']
        self.counter = os.open(self.dir + '/count', os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
        self.trace = os.open(self.dir + '/trace', os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)

    def put(self, **k):
        os.write(self.trace, json.dumps(k).encode() + b'\n')

    def where(self, p, dir_fd):
        p = os.fsencode(p)
        if dir_fd is not None:
            p = os.path.join(os.fsencode(os.readlink(f'/proc/self/fd/{dir_fd}')), p)
        return os.path.realpath(os.path.dirname(os.path.abspath(p))) + b'/' + os.path.basename(p)

    def op(self, what, look=True):
        os.write(self.counter, b'.')
        k = os.fstat(self.counter).st_size
        if look:
            for r in self.repos:
                for b in inspect(r):
                    self.put(bad=f'before {what} (operation {k}): {b}')
        if k == self.fail:
            self.put(failed=what)
            if self.kill:
                os._exit(77)
            raise OSError(5, 'injected')

    def digest(self, path):
        with _open(path, 'rb') as f:
            return hashlib.sha1(f.read()).hexdigest()

    def install(self):
        hook = self
        synced = {}

        def rename(src, dst, *, src_dir_fd=None, dst_dir_fd=None, real):
            a, b = hook.where(src, src_dir_fd), hook.where(dst, dst_dir_fd)
            hook.op('rename ' + os.fsdecode(os.path.basename(b)))
            st = os.stat(a)
            dg = hook.digest(a)
            real(src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
            hook.put(to=os.fsdecode(b), digest=dg, synced=synced.get((st.st_dev, st.st_ino)) == dg)

        def plain(name):
            def f(p, *a, **k):
                if sys._getframe(1).f_globals.get('__name__') not in ('shutil', 'tempfile'):
                    hook.op(f'{name} {os.fsdecode(os.path.basename(os.fsencode(p)))}', look=name in ('unlink', 'remove'))
                return _o[name](p, *a, **k)
            return f

        def fsync(fd):
            hook.op('fsync', look=False)
            _o['fsync'](fd)
            n = fd if isinstance(fd, int) else fd.fileno()
            st = os.fstat(n)
            if os.path.isfile(f'/proc/self/fd/{n}'):
                synced[st.st_dev, st.st_ino] = hook.digest(f'/proc/self/fd/{n}')
        new = {'rename': lambda *a, **k: rename(*a, real=_o['rename'], **k),
               'replace': lambda *a, **k: rename(*a, real=_o['replace'], **k), 'fsync': fsync}
        for n in ('unlink', 'remove', 'mkdir', 'rmdir', 'link'):
            new[n] = plain(n)
        for n, f in new.items():
            setattr(os, n, f)
            for m in list(sys.modules.values()):
                if (getattr(m, '__name__', None) or '').split('.')[0] == 'bup':
                    for k, v in list(vars(m).items()):
                        if v is _o[n]:
                            setattr(m, k, f)
        popen = subprocess.Popen.__init__

        def spawn(p, args, *a, **k):
            if isinstance(args, (list, tuple)) and args and args[0] in (b'git', 'git') \
                    and any(x in (b'update-ref', 'update-ref') for x in args):
                l = [os.fsdecode(x) for x in args]
                hook.op('update-ref')
                l = l[l.index('update-ref') + 1:]
                if l[0] != '-d':
                    env = k.get('env') or os.environb
                    repo = env.get(b'GIT_DIR') or env.get('GIT_DIR')
                    m = missing(repo, l[1])
                    if m:
                        hook.put(bad=f'{l[0]} is moved before what it refers to is finished: {m}')
            return popen(p, args, *a, **k)
        subprocess.Popen.__init__ = spawn


def environment(dir, repos, fail=0, kill=False):
    return {b'PYVC_OPHOOK': json.dumps(dict(dir=os.fsdecode(dir), repos=[os.fsdecode(r) for r in repos], fail=fail,
                                            kill=kill)).encode()}


def install():
    c = os.environb.get(b'PYVC_OPHOOK')
    if c:
        Hook(json.loads(c)).install()


def read(dir):
    """-> operations counted, trace"""
    def get(n):
        p = os.path.join(os.fsencode(dir), n)
        return _open(p, 'rb').read() if os.path.exists(p) else b''
    return len(get(b'count')), [json.loads(x) for x in get(b'trace').splitlines()]
