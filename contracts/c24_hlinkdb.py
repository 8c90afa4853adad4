"""C24: the hard link database tells which paths share an inode."""
import os, pickle
from pyvc.spec import *
from pyvc.harness import unit
from bup import hlinkdb
from bup.hlinkdb import HLinkDB

PROP = 'C24'
NOTE = ('Proved: add_path, change_path and del_path from every consistent state (any number of paths, any path names) lead to a '
        'consistent state in which exactly the path given has moved, and every other path keeps its inode; node_paths reads it. '
        'Saving, loading and abandoning are evaluated on real files with generated histories and with failures at every '
        'file operation: bounded.')
ASSUME = ['a list of paths behaves as a multiset under append, remove, `in`, len and truth',
          'the operations use only the entries of the maps that belong to the path and the nodes given '
          '(entries of other nodes are represented by one other node)',
          '"dev:ino" names differ for different device and inode (evaluated)']

N = {0: None, 1: b'1:2', 2: b'1:3', 3: b'12:3'}
DEVINO = {1: (1, 2), 2: (1, 3), 3: (12, 3)}


def make(node_paths, path_node):
    db = object.__new__(HLinkDB)
    db.closed = True
    db._filename, db._pending_save = b'x', None
    db._node_paths, db._path_node = node_paths, path_node
    return db


class Bag:
    """a list of paths, as the number of times it holds p, q and others; refuses what it cannot tell"""
    def __init__(self, p, q, np, nq, rest):
        self.p, self.q, self.np, self.nq, self.rest = p, q, np, nq, rest

    def __len__(self):
        return self.np + self.nq + self.rest

    def __bool__(self):
        return self.np + self.nq + self.rest > 0

    def __contains__(self, x):
        if x == self.p:
            return self.np > 0
        if x == self.q:
            return self.nq > 0
        unknown('membership of some path')

    def append(self, x):
        if x == self.p:
            self.np += 1
        elif x == self.q:
            self.nq += 1
        else:
            self.rest += 1

    def remove(self, x):
        if x == self.p:
            if self.np == 0:
                raise ValueError('not in list')
            self.np -= 1
        elif x == self.q:
            if self.nq == 0:
                raise ValueError('not in list')
            self.nq -= 1
        else:
            unknown('removal of some path')

    def __iter__(self):
        unknown('iteration')

    def __getitem__(self, i):
        unknown('position')


def count(l, p, q):
    if isinstance(l, Bag):
        return l.np, l.nq, len(l)
    np = nq = 0
    for x in l:
        np += 1 if x == p else 0
        nq += 1 if x == q else 0
    return np, nq, len(l)


@unit('one operation', ['bup.hlinkdb:HLinkDB.add_path', 'bup.hlinkdb:HLinkDB.change_path', 'bup.hlinkdb:HLinkDB.del_path',
                        'bup.hlinkdb:HLinkDB._del_node_path', 'bup.hlinkdb:HLinkDB.node_paths'], search=False)
def u_op(h):
    p = h.input('p', Bytes)
    q = h.input('q', Bytes)     # any other path
    h.assume(p != q)
    old = h.choice('old', [0, 1, 2])
    oldq = h.choice('oldq', [0, 1, 2])
    op = h.choice('op', ['add', 'change', 'del'])
    node_paths, path_node, sizes = {}, {p: N[old], q: N[oldq]}, {}
    if not old:
        del path_node[p]
    if not oldq:
        del path_node[q]
    for k in (1, 2):
        rest = h.input(f'others{k}', Nat)
        bag = Bag(p, q, 1 if old == k else 0, 1 if oldq == k else 0, rest)
        sizes[k] = len(bag)
        if len(bag) > 0:
            node_paths[N[k]] = bag
    db = make(node_paths, path_node)
    if op == 'del':
        db.del_path(p)
        new = 0
    else:
        new = h.choice('new', [1, 2])
        (db.add_path if op == 'add' else db.change_path)(p, *DEVINO[new])
    for k in (1, 2):
        ex, l = h.raises(db.node_paths, *DEVINO[k])
        n = sizes[k] - (1 if old == k else 0) + (1 if new == k else 0)
        if ex is not None:
            h.check(n == 0, 'an inode with paths is known')
        else:
            np, nq, size = count(l, p, q)
            h.check(n > 0, 'an inode without paths is not kept')
            h.check(size == n, 'no other path comes or goes')
            h.check(np == (1 if new == k else 0), 'the path is listed once, under its inode only')
            h.check(nq == (1 if oldq == k else 0), 'the other paths stay where they are')
    at = db._path_node.get(p)
    h.check(at is None if new == 0 else at == N[new], 'the path is recorded with its inode')
    at = db._path_node.get(q)
    h.check(at is None if oldq == 0 else at == N[oldq], 'the other paths keep their inode')


class Model:
    """what was last recorded for each path"""
    def __init__(self):
        self.m = {}

    def groups(self):
        d = {}
        for p, n in self.m.items():
            d.setdefault(n, set()).add(p)
        return d


def gen_ops(r):
    paths = [b'/%c' % c for c in b'abcdef'[:r.choice([2, 4, 6])]] + [b'/\xff\n:1']
    nodes = [(1, 2), (1, 3), (12, 3), (1, 23), (0, 0), (2**40, 2**63)][:r.choice([2, 3, 6])]
    ops = []
    for _ in range(r.choice([1, 3, 8, 20])):
        k = r.choice(['add', 'add', 'change', 'del', 'save', 'abort', 'empty', 'fail'])
        ops.append((k, r.choice(paths), r.choice(nodes), r.randrange(12)))
    return ops


class Boom(Exception):
    pass


@unit('histories', ['bup.hlinkdb:HLinkDB.prepare_save', 'bup.hlinkdb:HLinkDB.commit_save', 'bup.hlinkdb:HLinkDB.abort_save',
                    'bup.hlinkdb:HLinkDB.__init__', 'bup.hlinkdb:pickle_load'], prove=False, samples=700, tmp=True)
def u_hist(h):
    ops = h.any('ops', gen_ops)
    fn = os.path.join(h.tmp, b'db.hlink')
    if os.path.exists(fn):
        os.unlink(fn)
    m, disk = Model(), {}
    db = HLinkDB(fn)
    real = {}

    def content():
        return open(fn, 'rb').read() if os.path.exists(fn) else None

    def leftovers():
        return [x for x in os.listdir(h.tmp) if x.startswith(b'db.hlink') and x != b'db.hlink']

    try:
        for k, p, n, at in ops:
            if k == 'add':
                db.add_path(p, *n); m.m[p] = n
            elif k == 'change':
                db.change_path(p, *n); m.m[p] = n
            elif k == 'del':
                db.del_path(p); m.m.pop(p, None)
            elif k == 'empty':
                for x in list(m.m):
                    db.del_path(x)
                m.m = {}
            else:
                before = content()
                if k == 'fail':
                    # the at'th file operation of the save fails
                    left = [at]

                    def failing(f):
                        def g(*a, **kw):
                            left[0] -= 1
                            if left[0] == 0:
                                raise Boom()
                            return f(*a, **kw)
                        return g
                    h.patch(hlinkdb, fsync=failing(hlinkdb.fsync))
                    h.patch(pickle, dump=failing(pickle.dump))
                    h.patch(hlinkdb, unlink=failing(hlinkdb.unlink))
                    h.patch(os, rename=failing(os.rename))
                try:
                    with db:
                        db.prepare_save()
                        h.check(content() == before, 'preparing a save changes nothing visible')
                        if k != 'abort':
                            db.commit_save()
                    if k != 'abort':
                        disk = dict(m.m)
                    else:
                        h.check(content() == before, 'an abandoned save changes nothing')
                except Boom:
                    h.check(content() == before, 'a failed save changes nothing')
                finally:
                    h.close()
                h.check(not leftovers(), 'no temporary file is left')
                m.m = dict(disk)
                db = HLinkDB(fn)
            for n, ps in m.groups().items():
                got = db.node_paths(*n)
                h.check(set(got) == ps and len(got) == len(ps), 'the paths of an inode', detail=f'{ops} {n} {got} {ps}')
            listed = sum(len(v) for v in db._node_paths.values())
            h.check(listed == len(m.m), 'no other path is listed')
            h.check({p: b'%d:%d' % n for p, n in m.m.items()} == db._path_node, 'the inode of each path')
    finally:
        h.close()
        db.closed = True
