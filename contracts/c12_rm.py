"""C12: rm removes exactly what is named."""
import os, subprocess, time
from binascii import hexlify, unhexlify
from pyvc import cli
from pyvc.spec import *
from pyvc.harness import unit
from bup import git, rm, vfs, helpers
from bup.git import GitError
from bup.client import ClientError

PROP = 'C12'
NOTE = ('Proved for every commit: append_commit writes its tree, author, dates and message under the new parent. filter_branch and '
        'rm_saves are decided for every history of up to 6 commits with any subset removed, dead_items and bup_rm for every mix of up '
        'to 3 requests of every kind and every failing step: bounded. Whole removals, with refs moved in between, are evaluated on '
        'generated branches: bounded. The form of a commit is C21\'s, and that a finished pack holds what was written C07\'s.')
LEVEL = 'other'
TRUSTED = ['git update-ref with an old value changes the ref only if it has that value',
           'git rev-list gives the commits of a branch child before parent']


class Stop(Exception):
    pass


class Writer:
    def __init__(self, h, log):
        self.h, self.log, self.n = h, log, 0

    def new_commit(self, tree, parent, author, sec, off, committer, csec, coff, msg):
        self.log.append((tree, parent, author, sec, off, committer, csec, coff, msg))
        self.n += 1
        return b'new%d' % self.n


# --- one commit
@unit('append_commit', ['bup.rm:append_commit'], search=False)
def u_append(h):
    from bup.commit import CommitInfo
    tree = h.input('tree', FixedBytes(20))
    f = {k: h.input(k, Bytes) for k in ('author_name', 'author_mail', 'committer_name', 'committer_mail', 'message')}
    f |= {k: h.input(k, Int) for k in ('author_sec', 'author_offset', 'committer_sec', 'committer_offset')}
    vals = dict(f, tree=HEX(tree), parents=[b'a' * 40], gpgsig=None)
    ci = CommitInfo(**{k: vals[k] for k in vals})
    seen = []
    h.stub(rm.get_commit_items, lambda oid, cp: (h.check(oid == b'oid', 'that commit'), ci)[1])
    h.stub(rm.unhexlify, lambda s: (h.check(s == HEX(tree), 'the tree of the commit'), tree)[1])
    parent = h.input('parent', FixedBytes(20)) if h.choice('has parent', [True, False]) else None

    class CP:
        get = None
    got = rm.append_commit(b'oid', parent, CP(), Writer(h, seen))
    h.check(len(seen) == 1, 'one commit')
    t, p, a, s, o, c, cs, co, m = seen[0]
    h.check(t == tree and (p is parent or p == parent), 'tree and parent')
    h.check(a == f['author_name'] + b' <' + f['author_mail'] + b'>' and c == f['committer_name'] + b' <' + f['committer_mail'] + b'>',
            'author and committer')
    h.check(s == f['author_sec'] and o == f['author_offset'] and cs == f['committer_sec'] and co == f['committer_offset'], 'dates')
    h.check(m == f['message'], 'message')
    h.check(got[0] == b'new1' and got[1] == tree, 'what it gives')


HEX = ufn('hex', [Bytes], Bytes)


# --- a branch
def chain(n):
    @unit(f'{n} commits', ['bup.rm:rm_saves', 'bup.rm:filter_branch', 'bup.rm:commit_oid'], search=False,
          engine=dict(max_paths=3000))
    def u(h):
        old = [b'%020d' % i for i in range(n)]      # parent before child
        gone = [h.choice(f'gone{i}', [False, True]) for i in range(n)]
        if not any(gone):
            return
        made = {}
        wr = Writer(h, [])

        def append(hash, parent, cp, writer):
            h.check(writer is wr, 'into the pack')
            c = b'n' + unhexlify(hash)[1:]
            made[c] = (unhexlify(hash), parent)
            return c, b'tree'
        h.stub(rm.append_commit, append)
        h.stub(git.catpipe, lambda: None)
        h.stub(git.rev_list, lambda tip: (h.check(tip == hexlify(old[-1]), 'of that branch'), [hexlify(x) for x in reversed(old)])[1])
        br = vfs.RevList(meta=0, oid=old[-1])
        saves = [(vfs.Commit(meta=0, oid=b't', coid=c), br) for c, g in zip(old, gone) if g]
        if h.choice('order', [False, True]):
            saves.reverse()
        if h.choice('twice', [False, True]):
            saves.append(saves[0])
        was, now = rm.rm_saves(saves, wr)
        h.check(was == old[-1], 'the ref must still be where it was')
        left = []
        c = now
        while c is not None and c in made:
            left.append(made[c][0])
            c = made[c][1]
        if c is not None:
            h.check(c in old, 'an old commit')
            left += list(reversed(old[:old.index(c) + 1]))
        left.reverse()
        h.check(left == [c for c, g in zip(old, gone) if not g], 'exactly the other saves are left, in order')


for n_ in range(1, 7):
    chain(n_)


# --- which branches and saves
REV = {b: vfs.RevList(meta=0, oid=b * 20) for b in (b'a', b'b')}
SAVE = {(b, s): vfs.Commit(meta=0, oid=b't' * 20, coid=(b + s) * 10) for b in REV for s in (b'1', b'2')}
REQUESTS = [(b'a',), (b'b',), (b'a', b'1'), (b'a', b'2'), (b'b', b'1'), (b'a', b'latest'), (b'a', b'1', b'f'), (b'a', b'none'),
            (b'none',), (), (b'bad',)]


def resolved(path):
    root = (b'', vfs.Root(meta=0))
    if path == (b'bad',):
        raise vfs.IOError(1, 'loop')
    if path == ():
        return (root,)
    if path == (b'none',):
        return (root, (b'none', None))
    out = (root, (path[0], REV[path[0]]))
    if len(path) > 1:
        if path[1] == b'none':
            return out + ((b'none', None),)
        out += ((path[1], SAVE[path[0], b'2' if path[1] == b'latest' else path[1]]),)
    if len(path) > 2:
        out += ((path[2], vfs.Item(meta=0o100644, oid=b'f' * 20)),)
    return out


def fine(path):
    return len(path) == 1 and path[0] in REV or len(path) == 2 and path in SAVE


@unit('dead_items', ['bup.rm:dead_items'], search=False, engine=dict(max_paths=20000))
def u_dead(h):
    n = h.choice('n', [1, 2, 3])
    # (three of them: only the kinds that can go together)
    kinds = REQUESTS if n < 3 else [x for x in REQUESTS if fine(x)] + [(b'none',)]
    reqs = [h.choice(f'request{i}', kinds) for i in range(n)]
    errors = []
    h.stub(rm.add_error, lambda e: errors.append(e))
    h.patch(rm, saved_errors=errors)
    h.stub(vfs.resolve, lambda repo, p, follow=None, want_meta=None: (h.check(follow is False, 'links are not followed'), resolved(p))[1])
    h.stub(rm.path_msg, lambda p: 'path')
    got = rm.dead_items(None, reqs)
    bad = [r for r in reqs if not fine(r)]
    h.check(len(errors) == len(bad), 'each bad request is reported')
    if bad:
        h.check(got == (None, None), 'nothing is to be removed')
        return
    branches, saves = got
    h.check(branches == {b: REV[b] for b in REV if (b,) in reqs}, 'the branches named')
    want = {b: [SAVE[r] for r in reqs if len(r) == 2 and r[0] == b] for b in REV if (b,) not in reqs}
    h.check({b: [x[0] for x in v] for b, v in saves.items()} == {b: v for b, v in want.items() if v},
            'the saves named, of branches that are not')
    h.check(all(x[1] is REV[b] for b, v in saves.items() for x in v), 'each with its branch')


@unit('bup_rm', ['bup.rm:bup_rm'], search=False, engine=dict(max_paths=20000))
def u_rm(h):
    """refs change at the very end, after the pack is complete; each only from the value it had"""
    db = h.choice('branches', [[], [b'a'], [b'a', b'b']])
    ds = h.choice('saves', [[], [b'c'], [b'c', b'd']])
    bad = h.choice('bad request', [False, True])
    result = {b: h.choice('all saves of ' + b.decode(), [False, True]) for b in ds}
    fail = h.choice('fails', [None, 'rm_saves c', 'rm_saves d', 'close', 'abort'] if ds else [None])
    ref_fails = {b: h.choice('ref of ' + b.decode(), [None, GitError, ClientError]) for b in db + ds}
    log, errors = [], []

    class Ref:
        def __init__(self, oid): self.oid = oid
    h.stub(rm.dead_items, lambda repo, paths: ((None, None) if bad else (
        {b: Ref(b * 20) for b in db}, {b: [('s', Ref(b * 20))] for b in ds})))

    def die(*a):
        if bad:
            raise Stop()
    h.stub(rm.die_if_errors, die)

    class Packs:
        def abort(self):
            log.append(('abort',))

        def close(self):
            log.append(('close',))
            if fail == 'close':
                raise OSError('close')
    h.stub(rm.PackWriter, lambda **k: Packs())
    h.stub(rm.LocalPackStore, lambda *a, **k: None)

    def rm_saves(saves, writer):
        b = saves[0][1].oid[:1]
        log.append(('rm', b))
        if fail == 'rm_saves ' + b.decode():
            raise OSError('rm')
        return b * 20, None if result[b] else b'N' + b * 19
    h.stub(rm.rm_saves, rm_saves)

    def change(name, new, old):
        h.check(bool(name.startswith(b'refs/heads/')), 'a branch')
        b = name[11:]
        h.check(b in db + ds, 'a branch that was named')
        log.append(('ref', b, new, old))
        if ref_fails[b]:
            raise ref_fails[b]('moved')
    h.stub(git.update_ref, lambda name, new, old, **k: change(name, new, old))
    h.stub(git.delete_ref, lambda name, old=None: change(name, None, unhexlify(old)))
    h.stub(rm.add_error, lambda e: errors.append(e))
    h.stub(rm.log, lambda *a: None)
    ex, _ = h.raises(rm.bup_rm, None, [b'x'], 6, h.choice('verbose', [None, 1]))
    refs = [x[1:] for x in log if x[0] == 'ref']
    if bad:
        h.check(isinstance(ex, Stop) and log == [], 'nothing is done')
        return
    failed = fail == 'close' or fail in ['rm_saves ' + b.decode() for b in ds]
    if failed:
        h.check(isinstance(ex, OSError) and refs == [], 'refs stay as they are when the new commits are not complete')
        if fail != 'close':
            h.check(('abort',) in log, 'the pack is abandoned')
        return
    h.check(ex is None, 'no error', )
    want = [(b, None, b * 20) for b in db] + [(b, None if result[b] else b'N' + b * 19, b * 20) for b in ds]
    h.check(sorted(refs, key=lambda x: x[0]) == sorted(want, key=lambda x: x[0]), 'each ref is changed once, from what it was')
    if ds:
        h.check([x[0] for x in log].index('close') == max(i for i, x in enumerate(log) if x[0] in ('rm', 'close')), 'all saves, then close')
        h.check([i for i, x in enumerate(log) if x[0] == 'ref'][0] > [x[0] for x in log].index('close'), 'refs last')
    h.check(len(errors) == len([b for b in db + ds if ref_fails[b]]), 'each ref that could not be changed is reported')


# --- native
def run(repo, *a, input=None, ok=True):
    p = subprocess.run(['git', '--git-dir', os.fsdecode(repo), *a], input=input, capture_output=True)
    assert p.returncode == 0 or not ok, p.stderr
    return p.stdout if p.returncode == 0 else None


NAMES = [b'A B', b'a', b'x, y', b'\xc3\xa9']


def branch(repo, name, n, r):
    s = b''
    t = r.choice([0, 1000000000, 2**31])
    for i in range(n):
        t += r.choice([0, 0, 1, 86400, -5 if t > 10 else 0])
        f = b'%d\n' % r.randrange(3)
        msg = r.choice([b'm', b'', b'\nx\n\n', b'gpgsig y\n', b'bup save\n\nmore\n', b'm\xff'])
        s += b'commit refs/heads/%s\nmark :%d\nauthor %s <a@b> %d %s\ncommitter %s <c@d> %d %s\ndata %d\n%s\n' % (
            name, i + 2, r.choice(NAMES), t, r.choice([b'+0000', b'-0330', b'+1400']), r.choice(NAMES), t + 7,
            r.choice([b'+0000', b'-0930']), len(msg), msg)
        if i:
            s += b'from :%d\n' % (i + 1)
        s += b'M 100644 inline f%d\ndata %d\n%s\n' % (r.randrange(3), len(f), f)
    run(repo, 'fast-import', '--quiet', '--force', input=s)


def refs(repo):
    return dict(reversed(x.split(b' ', 1)) for x in run(repo, 'for-each-ref', '--format=%(objectname) %(refname)').splitlines())


def saves(repo, oid):
    """each commit of a branch, without its parent; child before parent"""
    out = []
    for c in run(repo, 'rev-list', oid.decode()).split():
        raw = run(repo, 'cat-file', 'commit', c.decode())
        head, _, msg = raw.partition(b'\n\n')
        out.append((c, tuple(x for x in head.split(b'\n') if not x.startswith(b'parent ')), msg))
    return out


def state(repo):
    return {n: [x[1:] for x in saves(repo, o)] for n, o in refs(repo).items()}


def save_names(commits):
    """child before parent: the date; where there are several of the same second, numbered from the oldest"""
    dates = [time.strftime('%Y-%m-%d-%H%M%S', time.gmtime(int(c[1][1].split()[-2]))).encode() for c in commits]
    out = []
    for i, d in enumerate(dates):
        n = dates.count(d)
        out.append(d if n == 1 else b'%s-%0*d' % (d, len(str(n - 1)), dates[i + 1:].count(d)))
    return out


@unit('bup rm', ['bup.cmd.rm:main', 'bup.rm:bup_rm', 'bup.rm:dead_items', 'bup.rm:rm_saves', 'bup.rm:filter_branch',
                 'bup.git:update_ref', 'bup.git:delete_ref'], prove=False, samples=40, tmp=True, weight=3)
def u_cli(h):
    r, t = h.rng, h.tmp
    repo = t + b'/b'
    e = {b'BUP_DIR': repo, b'TZ': b'UTC'}
    rc, o, x = cli.bup(['init'], e)
    h.check(rc == 0, 'init', detail=repr(x))
    names = r.sample([b'main', b'other', b'x-y', b'main2', b'2020-01-01-000000', b'a b'[0:1]], 3)
    for n in names:
        branch(repo, n, r.choice([1, 2, 3, 6, 10]), r)
    run(repo, 'tag', 'keep', 'refs/heads/' + os.fsdecode(names[0]))
    for step in range(3):
        have = refs(repo)
        commits = {n: saves(repo, have[b'refs/heads/' + n]) for n in names if b'refs/heads/' + n in have}
        if not commits:
            break
        label = {n: save_names(commits[n]) for n in commits}
        was = state(repo)
        reqs = []
        gone = {}
        for _ in range(r.choice([1, 1, 2, 4, 8])):
            n = r.choice(list(commits))
            slash = r.choice([b'', b'/'])
            if r.random() < .15:
                reqs.append(slash + n)
                gone[n] = None
                continue
            i = r.choice([0, len(label[n]) - 1, r.randrange(len(label[n]))])
            reqs.append(slash + n + b'/' + label[n][i])
            if gone.get(n, ()) is not None:
                gone.setdefault(n, set()).add(i)
        if r.random() < .1:
            n = r.choice(list(commits))
            reqs += [n + b'/' + x for x in label[n]]
            gone[n] = None
        bad = r.random() < .35
        if bad:
            n = r.choice(list(commits))
            reqs.insert(r.randint(0, len(reqs)), r.choice([
                b'/', b'/none', n + b'/none', n + b'/latest', n + b'/' + label[n][0] + b'/f0', b'.tag/keep', b'/.commit',
                b'.tag', n + b'/' + label[n][0] + b'/none', b'/.tag/none', n[:-1] + b'*']))
        moved = r.choice(list(gone)) if not bad and r.random() < .3 else None
        env = dict(e)
        broken = not bad and not moved and r.random() < .15 and any(v is not None for v in gone.values())

        def before():
            if broken:
                def fail(*a, **k): raise OSError(28, 'no space')
                git.LocalPackStore.finish_pack = fail
            if not moved:
                return
            first = [True]

            def hook(real):
                def f(*a, **k):
                    if first:
                        first.clear()
                        ref = b'refs/heads/' + moved
                        tree = run(repo, 'rev-parse', os.fsdecode(ref) + '^{tree}').strip().decode()
                        c = run(repo, '-c', 'user.name=x', '-c', 'user.email=y', 'commit-tree', '-p', os.fsdecode(ref), '-m', 'new', tree)
                        run(repo, 'update-ref', os.fsdecode(ref), c.strip().decode())
                    return real(*a, **k)
                return f
            git.update_ref, git.delete_ref = hook(git.update_ref), hook(git.delete_ref)
        rc, o, x = cli.bup(['rm', '--unsafe', *reqs], env, before=before)
        now = state(repo)
        info = repr((reqs, rc, x[-1500:]))
        if bad or broken:
            h.check(rc != 0 and refs(repo) == have, 'nothing is changed', detail=info)
            continue
        want = dict(was)
        for n, v in gone.items():
            ref = b'refs/heads/' + n
            if n == moved:
                continue
            left = [c for i, c in enumerate(was[ref]) if v is not None and i not in v]
            if left:
                want[ref] = left
            else:
                del want[ref]
        if moved:
            ref = b'refs/heads/' + moved
            h.check(rc != 0 and ref in now and now[ref][1:] == was[ref], 'a ref that has moved is left alone, and reported', detail=info)
            now[ref] = was[ref]
        else:
            h.check(rc == 0, 'works', detail=info)
        h.check(now == want, 'exactly the other saves are left',
                detail=repr((info, [(n, was.get(n), want.get(n), now.get(n)) for n in was if now.get(n) != want.get(n)])))
        h.check({n: v for n, v in refs(repo).items() if n[11:] not in gone} == {n: v for n, v in have.items() if n[11:] not in gone},
                'other refs are not touched')
