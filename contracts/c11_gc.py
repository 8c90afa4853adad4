"""C11: garbage collection keeps every reachable object."""
import builtins, os, subprocess
from pyvc import cli, ophook
from pyvc.spec import *
from pyvc.harness import unit
from bup import gc, git
from bup.git import WalkItem, walk_object

PROP = 'C11'
NOTE = ('Proved for one arbitrary reachable object: walk_object lets go of no child of what it yields, find_live_objects marks '
        'everything it is given, and sweep, whatever the packs, the objects, the threshold, the names of the packs it writes (which may '
        'be names of packs it reads) and the failures, removes a pack that holds the object only when a finished pack that it will not remove '
        'holds it. Whole collections are evaluated natively, stopped at every file operation: bounded.')
LOOPS = {'bup.gc': ['sweep', 'sweep.remove_stale_packs', 'find_live_objects'], 'bup.git': ['walk_object']}
TRUSTED = ['a pack is named after its content, and the index that carries its name lists what it holds',
           'glob.glob of an escaped path and a pattern lists the names that match']
ASSUME = ['reachability follows from the three contracts: the marked set is closed (a child of a marked object is marked, by the order '
          'in which walk_object yields) and holds every ref']

D = b'/r/objects/pack'
SHA = ufn('sha', [Int, Int], Int)         # the objects that an index lists
COUNT = ufn('count', [Int], Nat)
HOLDS = ufn('holds', [Int], Bool)         # does it list the witness?
POS = ufn('pos', [Int], Int)
NAME = ufn('name', [Int], Int)
TYPE = ufn('type', [Int], Opt(Bytes))
RX = ufn('is a name of a pack', [Int], Bool)
DATA = ufn('data', [Int], Bytes)


class Stop(Exception):
    pass


class Some:
    """a set: whether it has what matters"""
    def __init__(self, w, has=False):
        self.w, self.has = w, has

    def matters(self, x):
        return x == self.w.o

    def add(self, x):
        self.has = self.has or self.matters(x)

    def exists(self, x):
        return self.__contains__(x)

    def __contains__(self, x):
        if self.matters(x):
            return self.has or self.w.h.fresh('false positive', Bool)
        return self.w.h.fresh('in', Bool)


class Strict(Some):
    def __contains__(self, x):
        if self.matters(x):
            return self.has
        return self.w.h.fresh('in', Bool)


class Names:
    """a set of names: whether it has that of the pack which keeps the witness"""
    def __init__(self, w):
        self.w = w

    def add(self, x):
        w = self.w
        if w.safe and x.id == w.safe_name:
            w.noted = True

    def __contains__(self, x):
        w = self.w
        if w.safe and w.noted and x.id == w.safe_name:
            return True
        return w.h.fresh('in', Bool)


class Path:
    """a path of the pack directory: of pack id, or a pattern"""
    def __init__(self, kind, id, more=None):
        self.kind, self.id, self.more = kind, id, more

    def endswith(self, x):
        if self.kind != 'idx' or x != b'.idx':
            unknown('end of a path')
        return True

    def __getitem__(self, s):
        if self.kind != 'idx' or not isinstance(s, slice) or (s.start, s.stop, s.step) != (None, -4, None):
            unknown('part of a path')
        return Path('stem', self.id)

    def removesuffix(self, x):
        return self[:-4] if self.endswith(x) else self

    def __add__(self, x):
        return Path(self.kind + ' ' + x.decode(), self.id)

    def __eq__(self, x):
        if not isinstance(x, Path) or self.kind != x.kind or self.kind not in ('name', 'stem'):
            unknown('equality of paths')
        if self.kind == 'stem' and bool(self.more) != bool(x.more):
            return False
        return self.id == x.id

    def __ne__(self, x):
        return not self == x

    __hash__ = None


class Kept:
    """a list of stems"""
    def __init__(self, w):
        self.w = w

    def append(self, x):
        self.w.h.check(stem_ok(self.w, x), 'a pack is to be removed once what is live in it has been written')

    def __bool__(self):
        return self.w.h.fresh('any', Bool)

    def as_fnseq(self):
        return FnSeq(self.w.h.fresh('n', Nat), self.at)

    def at(self, i):
        w = self.w
        x = Path('stem', w.h.fresh('stem', Int))
        w.h.assume(stem_ok(w, x))
        return x


def stem_ok(w, x):
    return implies(HOLDS(x.id), w.pending or w.safe)


def list_ok(w, l):
    if isinstance(l, list) and not hasattr(l.sym, 'at'):
        ok = True
        for x in l:
            ok = ok and stem_ok(w, x)
        return ok
    return True


class Idx:
    def __init__(self, w, stem):
        self.w, self.stem = w, stem
        w.h.assume(implies(HOLDS(stem), 0 <= POS(stem) and POS(stem) < COUNT(stem) and SHA(stem, POS(stem)) == w.o))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def __len__(self):
        return COUNT(self.stem)

    def as_fnseq(self):
        return FnSeq(COUNT(self.stem), lambda j: SHA(self.stem, j))


class World:
    def __init__(self, h):
        self.h = h
        self.o = h.input('o', Int)
        self.safe = self.pending = self.noted = self.over = False
        self.safe_name = -1

    def fault(self, what):
        if self.h.fresh(what + ' fails', Bool):
            raise Stop(what)


class Num:
    """some number: the part of a pack that is live, and the threshold, may be anything"""
    def __init__(self, h):
        self.h = h

    def _num(self, *a):
        return self
    __sub__ = __rsub__ = __add__ = __radd__ = __truediv__ = __rtruediv__ = __mul__ = __rmul__ = _num

    def _cmp(self, x):
        return self.h.fresh('compares', Bool)
    __lt__ = __gt__ = __le__ = __ge__ = __eq__ = __ne__ = _cmp
    __hash__ = None


class Cat:
    def __init__(self, w):
        self.w = w

    def get(self, x, include_data=True):
        self.w.fault('get')
        return x, TYPE(x), None, ((DATA(x),) if include_data else None)

    def restart(self):
        self.w.fault('restart')


class Repo:
    def __init__(self, w, finish):
        self.w, self.finish, self.aborted = w, finish, False

    def just_write(self, oid, typ, content):
        w = self.w
        w.h.check(not self.aborted, 'nothing is written after the end')
        w.h.check(typ == TYPE(oid) and content == DATA(oid), 'an object is written as it was read')
        w.fault('write')
        if oid == w.o:
            w.pending = True
            w.h.cover('the object is written')
        if w.h.fresh('full', Bool):
            self.end()

    def end(self):
        w = self.w
        w.fault('finish')
        name = w.h.fresh('packname', Int)
        if w.pending:
            w.pending = False
            if not w.safe:
                w.safe, w.safe_name, w.noted = True, name, False
        # the path to the repository may be another
        self.finish(Path('stem', name, w.h.fresh('other path', Bool)))
        w.h.check(w.noted or not w.safe, 'what has been written is known')

    def abort_writing(self):
        self.aborted = True
        self.w.pending = False

    def close(self):
        if not self.aborted and self.w.h.fresh('written', Bool):
            self.end()
        elif not self.aborted:
            self.w.h.assume(not self.w.pending)


def basename(p):
    return Path('name' if p.kind == 'stem' else 'base of ' + p.kind, p.id)


class Rx:
    """which names are names of packs"""
    def __init__(self, h):
        self.h = h

    def fullmatch(self, x):
        if x.kind != 'name':
            unknown('name')
        return RX(x.id)


ESC = b'<escaped>'


@unit('sweep', ['bup.gc:sweep'], search=False, engine=dict(max_paths=20000))
def u_sweep(h):
    w = World(h)
    h.assume(w.o >= 0)
    # the witness is there, and marked
    t = h.choice('type', [b'blob', b'tree', b'commit'])
    h.assume(TYPE(w.o) == t)
    victim = h.input('victim', Int)

    def unlink(p):
        w.fault('unlink')
        h.check(not w.over, 'nothing is removed after a failure')
        h.check(p.kind == 'stem .suffix', 'what is removed is a file of a pack')
        if p.id == victim and HOLDS(victim):
            h.cover('a pack that holds it is removed')
            h.check(w.safe, 'a pack goes after what is live in it is in a finished pack')
            h.check(victim != w.safe_name, 'which is another')
        h.check(not w.safe or p.id != w.safe_name, 'the pack that keeps the object stays')

    def listing(p):
        n = h.fresh('listed', Nat)
        if isinstance(p, Path) and p.kind == 'escaped stem .*':
            return FnSeq(n, lambda i: Path('stem .suffix', p.id))
        if isinstance(p, bytes) and p == ESC + D + b'/*.idx':
            return FnSeq(n, lambda i: Path('idx', NAME(i)))
        if isinstance(p, bytes) and p == ESC + D + b'/*.midx':
            return []
        return FnSeq(n, lambda i: Path('any file', h.fresh('any', Int)))
    h.stub(gc.glob.glob, listing)
    h.stub(gc.glob.escape, lambda p: ESC + p if isinstance(p, bytes) else Path('escaped ' + p.kind, p.id))
    h.stub(gc.os.unlink, unlink)
    h.stub(gc.os.path.exists, lambda p: False)
    h.stub(gc.basename, basename)
    h.patch(gc, _pack_stem_rx=Rx(h))
    h.stub(gc.hexlify, lambda x: x)
    h.stub(gc.git.repo, lambda p: D)
    h.stub(gc.git.repo_rel, lambda p: p)
    h.stub(gc.git.open_idx, lambda p: Idx(w, p.id))
    h.stub(gc.count_objects, lambda d, v: 0)
    for f in ('log', 'progress', 'qprogress', 'reprogress', 'path_msg'):
        h.stub(getattr(gc, f), lambda *a: '')
    made = []

    def repo(compression_level, allow_duplicates, on_pack_finish, run_midx):
        h.check(allow_duplicates is True, 'what is there is written again')
        h.check(run_midx is False, 'no midx is made meanwhile')
        r = Repo(w, on_pack_finish)
        made.append(r)
        return r
    h.patch(gc, LocalRepo=repo, set=lambda: Both(w))
    h.patch(gc, float=lambda x: Num(h))

    live_trees, live_blobs = Strict(w, t != b'blob'), Some(w, t == b'blob')
    ghost = {('w.' + n): ('obj', w, n, ty) for n, ty in (('safe', Bool), ('pending', Bool), ('noted', Bool), ('safe_name', Int))}
    known = lambda: implies(w.safe, w.noted)
    S = 'bup.gc:sweep'
    lists = {'stale_packs': lambda e: Kept(w)}
    own = {'live_in_this_pack': lambda e: Both(w, h.fresh('has', Bool))}
    scratch = {n: (lambda e: None) for n in ('typ', 'is_live', 'idx', 'sha', 'item_it', 'live_frac', 'keep_path', 'rw_path', 'idx_name', 'p', 'stem', '_')}
    h.loop(S, 0, types=dict(lists, **own, collect_count=Nat, idx_live_count=Nat, must_rewrite=Bool, **scratch), havoc=ghost,
           inv=lambda L: known() and list_ok(w, L.stale_packs))
    h.loop(S, 1, types=dict(lists, idx_live_count=Nat, must_rewrite=Bool, **scratch), havoc={'live_in_this_pack.has': Bool},
           inv=lambda L: implies(HOLDS(L.idx_name.id) and L.i > POS(L.idx_name.id), L.live_in_this_pack.has and L.idx_live_count > 0))
    h.loop(S, 2, types=dict(lists, **scratch), havoc=ghost,
           inv=lambda L: known() and list_ok(w, L.stale_packs)
           and implies(HOLDS(L.idx_name.id) and L.i > POS(L.idx_name.id) and L.live_in_this_pack.has, w.pending or w.safe))
    R = S + '.remove_stale_packs'
    h.loop(R, 0, types=dict(lists, **scratch), inv=lambda L: True)
    h.loop(R, 1, types=dict(lists, **scratch), inv=lambda L: True)
    cat = Cat(w)
    ex, _ = h.raises(gc.sweep, live_blobs, live_trees, h.input('existing', Int), cat, Num(h), 1, 0)
    if ex is not None and not isinstance(ex, (Stop, AssertionError, ZeroDivisionError)):
        h.check(False, f'unexpected {ex!r}')
    if ex is None:
        h.cover('it ends')


class Both(Names):
    """a set, of objects or of names"""
    def __init__(self, w, has=False):
        self.w, self.has = w, has

    def add(self, x):
        if not isinstance(x, Path):
            self.has = self.has or (x == self.w.o)
        else:
            Names.add(self, x)

    def __contains__(self, x):
        if not isinstance(x, Path):
            return self.has if x == self.w.o else self.w.h.fresh('in', Bool)
        return Names.__contains__(self, x)


# --- marking
class Lists(type):
    def __instancecheck__(self, x):
        return isinstance(x, builtins.list)

    def __call__(self, x):
        return x


class AnyList(metaclass=Lists):
    """list: what is given is kept as it is"""


class Marks(Some):
    """the filter, and the set"""
    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True


@unit('find_live_objects', ['bup.gc:find_live_objects'], search=False)
def u_find(h):
    """whatever an object's type, and wherever the walks of the refs come to it, it is marked"""
    w = World(h)
    h.assume(w.o >= 0)
    blob = h.choice('blob', [True, False])
    REF, ITEM, MANY = ufn('ref', [Int], Int), ufn('item', [Int, Int], Int), ufn('many', [Int], Nat)
    KIND, GONE = ufn('kind', [Int], Bytes), ufn('gone', [Int], Bool)
    n = h.input('refs', Nat)
    r, j = h.input('r', Nat), h.input('j', Nat)
    h.assume(r < n and j < MANY(REF(r)) and ITEM(REF(r), j) == w.o and (KIND(w.o) == b'blob') == blob)
    filt, trees = Marks(w), Strict(w)
    ignoring = h.choice('for_item', [False, True])

    class Refs:
        def __len__(self): return n
        def __bool__(self): return n > 0
        def as_fnseq(self): return FnSeq(n, lambda i: (b'name', REF(i)))

    def walk(get, ref, stop_at=None, include_data=None, oid_exists=None):
        h.check(get == cat.get and include_data is None, 'the walk reads from the repository')
        h.check(implies(stop_at(w.o), trees.has), 'the walk stops only at what has been marked, and is not a blob')
        h.check(oid_exists is None, 'as told')

        def item(i):
            x = ITEM(ref, i)
            data = None
            if GONE(x):
                data = False
            return [WalkItem(oid=x, name=b'', type=KIND(x), mode=0, data=data)]
        return FnSeq(MANY(ref), item)
    cat = Cat(w)
    h.stub(gc.git.repo, lambda p: D)
    h.stub(gc.tempfile.mkstemp, lambda *a: (3, b'/r/x.bloom'))
    h.stub(gc.os.close, lambda fd: None)
    h.stub(gc.os.unlink, lambda p: None)
    h.stub(gc.hexlify, lambda x: x)
    h.stub(gc.unhexlify, lambda x: x)
    h.stub(gc.git.list_refs, lambda: Refs())
    h.patch(gc, list=AnyList, enumerate=lambda x: FnSeq(n, lambda i: (i, (b'name', REF(i)))))
    h.stub(gc.walk_object, walk)

    def bloom(name, mode, expected, k):
        h.check(mode == 'w+b', 'the filter is new')
        return filt
    h.patch(gc, set=lambda: trees, **({'_LiveBlobs': bloom} if hasattr(gc, '_LiveBlobs') else {'BloomWriter': bloom}))
    for f in ('log', 'qprogress'):
        h.stub(getattr(gc, f), lambda *a: None)
    has = (lambda: filt.has) if blob else (lambda: trees.has)
    F = 'bup.gc:find_live_objects'
    scratch = {x: (lambda e: None) for x in ('item_path', 'item', 'handled_missing', 'ref_name', 'ref_id', 'msg')}
    g = {'filt.has': ('obj', filt, 'has', Bool), 'trees.has': ('obj', trees, 'has', Bool)}
    h.loop(F, 0, types=dict(scratch, approx_live_count=Int, ref_i=Int), havoc=g, inv=lambda L: implies(L.i > r, has()))
    h.loop(F, 1, types=dict(scratch, approx_live_count=Int), havoc=g,
           inv=lambda L: implies(L.ref_i > r or (L.ref_i == r and L.i > j), has()))
    h.loop(F, 2, types=scratch, inv=lambda L: True)
    k = {'for_item': lambda name, path: True} if ignoring else {}
    ex, got = h.raises(gc.find_live_objects, h.input('existing', Nat), cat, **k)
    if ex is not None:
        h.check(isinstance(ex, (git.MissingObject, AssertionError)), f'unexpected {ex!r}')
        h.check(not ignoring or not isinstance(ex, git.MissingObject), 'what is missing is an error unless it is handled')
        return
    h.cover('marked')
    h.check(got[0] is filt and got[1] is trees, 'the marks are given back')
    h.check(has(), 'every object that the walks come to is marked')


class Stack:
    """the stack of a walk: its height, and where the topmost finished entry of X and the topmost entry of C are"""
    def __init__(self, h, x, c, n, topx, topc, first):
        self.h, self.x, self.c, self.n, self.topx, self.topc, self.first = h, x, c, n, topx, topc, first
        self.top = None

    def __bool__(self):
        return self.n > 0

    def peek(self):
        if self.top is None:
            h = self.h
            finished = h.choice('finished', [True, False])
            z = h.fresh('z', Bytes)
            h.assume((finished and z == self.x) == (self.topx == self.n - 1) and (z == self.c) == (self.topc == self.n - 1))
            if finished:
                self.top = (True, Res(z))
            else:
                root = h.choice('root', [False, True])
                self.top = (False, z, [], b'name', None if root else h.fresh('mode', Nat),
                            None if root else h.choice('expected', [b'blob', b'tree', b'commit']))
        return self.top

    def __getitem__(self, i):
        if i != -1:
            unknown('entry')
        return self.peek()

    def pop(self):
        e = self.peek()
        h, self.top = self.h, None
        self.n -= 1
        if self.topx == self.n:
            self.topx = h.fresh('topx', Int)
            h.assume(-1 <= self.topx and self.topx < self.n)
        if self.topc == self.n:
            self.topc = h.fresh('topc', Int)
            h.assume(-1 <= self.topc and self.topc < self.n)
        return e

    def append(self, e):
        self.top = None
        if e[0]:
            z = oid_of(e[1])
            if z == self.x:
                self.topx = self.n
        else:
            z = e[1]
        if z == self.c:
            self.topc = self.n
        self.n += 1

    def as_fnseq(self):
        unknown('the stack')


class Res:
    """an item or a path that was put off"""
    def __init__(self, z):
        self.z = z


def oid_of(r):
    if isinstance(r, Res):
        return r.z
    return r[-1].oid if isinstance(r, list) else r.oid


@unit('walk_object', ['bup.git:walk_object'], search=False, engine=dict(max_paths=20000))
def u_walk(h):
    """what is yielded whole has had each of its children yielded, reported as missing, or let go by stop_at"""
    x, c = h.input('x', Bytes), h.input('c', Bytes)
    h.assume(x != c)
    KIND, HERE = ufn('kind', [Bytes], Bytes), ufn('here', [Bytes], Bool)
    N, CHILD, MODE = ufn('children', [Bytes], Nat), ufn('child', [Bytes, Int], Bytes), ufn('child mode', [Bytes, Int], Nat)
    TREE = ufn('tree of', [Bytes], Bytes)
    at = h.input('at', Int)
    # c is a child of x: its tree, a parent, or an entry
    direct = h.choice('tree of a commit', [True, False])
    if direct:
        h.assume(KIND(x) == b'commit' and TREE(x) == c)
    else:
        h.assume(0 <= at and at < N(x) and CHILD(x, at) == c and (KIND(x) == b'commit' or KIND(x) == b'tree'))
    st = Stack(h, x, c, 0, -1, -1, None)

    class G:
        pass
    g = G()
    g.done = False
    partial, result = h.choice('stops', [(True, 'path'), (False, 'item')])

    def stop_at(z):
        s = h.fresh('stop', Bool)
        if z == c and s:
            g.done = True
        return s

    def get(z, include_data):
        if not HERE(z):
            return None, None, None, None
        return z, KIND(z), None, ((z,) if include_data else None)

    class Commit:
        def __init__(self, z):
            self.tree, self.parents = TREE(z), Each(z)

    class Each:
        def __init__(self, z, entries=False):
            self.z, self.entries = z, entries

        def as_fnseq(self):
            z = self.z
            if self.entries:
                return FnSeq(N(z), lambda i: (MODE(z, i), b'name', CHILD(z, i)))
            return FnSeq(N(z), lambda i: CHILD(z, i))
    h.stub(git.hexlify, lambda z: z)
    h.stub(git.unhexlify, lambda z: z)
    h.stub(git.parse_commit, lambda d: Commit(d))
    h.stub(git.tree_iter, lambda d: Each(d, True))
    h.stub(git.replace, lambda item, data: item)
    W = 'bup.git:walk_object'
    scratch = {v: (lambda e: None) for v in ('completed_item', 'oidx', 'parents', 'name', 'mode', 'exp_typ', 'oid', 'item', 'got_data', 'get_oidx',
                                             'typ', '_', 'item_it', 'data', 'res', 'commit', 'commit_path', 'pid', 'tree_path', 'ent_id')}
    st_g = {'st.' + v: ('obj', st, v, Int) for v in ('n', 'topx', 'topc')}

    def ok():
        return (-1 <= st.topx and st.topx < st.n and -1 <= st.topc and st.topc < st.n and (g.done or st.topx < st.topc or st.topx < 0))

    def pending(e):
        st.top = None
        return st
    h.loop(W, 0, types=dict(scratch, pending=pending), havoc=dict(st_g, **{'g.done': ('obj', g, 'done', Bool)}), inv=lambda L: ok_list(L.pending))

    def ok_list(p):
        if getattr(p, 'sym', None) is st:
            return ok()
        # at the start
        return len(p) == 1 and p[0][0] is False and p[0][1] == x

    def children(L):
        z = L.oidx
        if not bool(z == x):
            return ok() 
        return (st.topx >= 0 and -1 <= st.topc and st.topc < st.n and st.topx < st.n
                and (g.done or st.topx < st.topc or L.i <= at or direct))
    havoc = dict(st_g)
    h.loop(W, 1, types={'_': scratch['_']}, inv=lambda L: True)
    for k in (2, 3):
        h.loop(W, k, types={v: scratch[v] for v in ('pid', 'mode', 'name', 'ent_id')}, havoc=havoc, inv=children)

    def walk():
        for got in walk_object(get, x, stop_at=stop_at if partial else None, include_data=None, result=result):
            z = oid_of(got)
            if z == c:
                g.done = True
            if isinstance(got, Res) and z == x:
                h.cover('yielded whole')
                h.check(g.done, 'no child is forgotten')
    ex, _ = h.raises(walk)
    if ex is not None and type(ex) not in (Exception, UnicodeDecodeError):
        h.check(False, f'unexpected {ex!r}')


@unit('bup_gc', ['bup.gc:bup_gc'], search=False)
def u_bup_gc(h):
    """the packs are swept with the marks of all refs, or not at all"""
    class Filter:
        def __enter__(self): return self
        def __exit__(self, *a): return None
        def pfalse_positive(self): return 0.0
    filt, trees, done = Filter(), object(), []
    fail = h.choice('fails', [None, 'find', 'midx', 'bloom', 'expire', 'sweep'])
    ignoring = h.choice('ignore', [False, True])
    n = h.input('n', Nat)

    class List:
        def __enter__(self): return self
        def __exit__(self, *a): return None
    idxl, cat = List(), Cat(None)

    def step(what):
        done.append(what)
        if fail == what:
            raise git.MissingObject(b'x' * 20) if what == 'find' else Stop()

    def find(count, pipe, refs=None, idx_list=None, for_item=None, verbosity=0):
        step('find')
        h.check(not refs and pipe is cat, 'everything that any ref leads to is marked')
        h.check((for_item is not None) == ignoring, 'what is missing is an error unless it is to be ignored')
        return filt, trees

    def sweep(blobs, others, *a):
        step('sweep')
        h.check(blobs is filt and others is trees, 'the marks are those that were found')
        h.check(done[0] == 'find', 'and first')
        h.check('midx' in done and 'bloom' in done, 'summaries of the old packs are gone')
    h.stub(gc.git.catpipe, lambda: cat)
    h.stub(gc.git.repo, lambda p: D)
    h.stub(gc.count_objects, lambda d, v: n)
    h.stub(gc.find_live_objects, find)
    h.stub(gc.sweep, sweep)
    h.patch(gc.git, PackIdxList=lambda d: idxl)
    h.stub(gc.midx.clear_midxes, lambda d: step('midx'))
    h.stub(gc.bloom.clear_bloom, lambda d: step('bloom'))

    class Result:
        returncode = 0

    def run(cmd, env, check):
        step('expire')
        return Result()
    h.stub(gc.subprocess.run, run)
    h.stub(gc.git._gitenv, lambda *a: {})
    h.stub(gc.log, lambda *a: None)
    h.stub(gc.reprogress, lambda *a: None)
    ex = None
    try:
        gc.bup_gc(h.choice('threshold', [0, 10]), 1, 0, ignoring)
    except (Stop, SystemExit) as e:
        ex = e
    h.check((ex is not None) == (fail is not None and n > 0), 'a failure is not hidden')
    if fail == 'find':
        h.check('sweep' not in done, 'nothing is removed after a failure')
    if 'sweep' in done:
        h.cover('swept')


# --- native: whole collections
def build(r, d):
    """a repository: objects of all kinds over packs of all kinds, and refs to some"""
    packs = [[] for _ in range(r.choice([1, 2, 3, 6, 12]))]
    blobs, trees, commits = [], [], []
    obj = {}

    def put(typ, data):
        oid = git.calc_hash(typ, data)
        obj[oid] = (typ, data)
        for p in r.sample(packs, min(len(packs), r.choice([1, 1, 1, 2]))):
            p.append(oid)
        return oid
    for i in range(r.choice([1, 5, 20, 60])):
        blobs.append(put(b'blob', r.choice([b'', b'%d' % r.randrange(9), r.randbytes(r.choice([1, 30, 30, 400, 3000]))])))
    for i in range(r.choice([1, 3, 10, 20])):
        ents = [(r.choice([0o100644, 0o100644, 0o120000]), b'f%d' % k, r.choice(blobs)) for k in range(r.choice([0, 1, 3]))]
        ents += [(0o40000, b'g%d' % k, r.choice(trees)) for k in range(r.choice([0, 1, 2]) if trees else 0)]
        trees.append(put(b'tree', git.tree_encode(ents)))
    for i in range(r.choice([1, 3, 8])):
        ps = r.sample(commits, min(len(commits), r.choice([0, 1, 1, 2])))
        data = b'tree %s\n' % r.choice(trees).hex().encode() + b''.join(b'parent %s\n' % p.hex().encode() for p in ps)
        who = b'a <a@b> %d +0000' % r.randrange(10**9)
        commits.append(put(b'commit', data + b'author %s\ncommitter %s\n\nm\n' % (who, who)))
    rc = []
    for p in packs:
        r.shuffle(p)
        w = git.PackWriter(store=git.LocalPackStore(repo_dir=d, allow_duplicates=True, run_midx=r.random() < .3),
                           compression_level=r.choice([0, 1, 9]), max_pack_size=r.choice([None, 500, 5000]),
                           max_pack_objects=r.choice([None, 1, 3]))
        for oid in dict.fromkeys(p):
            w.just_write(oid, *obj[oid])
        w.close()
    for i in range(r.choice([0, 1, 2, 5])):
        c = r.choice(commits)
        name = r.choice([b'refs/heads/h%d', b'refs/tags/t%d', b'refs/other/x%d']) % i
        if not name.startswith(b'refs/heads') and r.random() < .4:
            c = r.choice(trees + blobs)
        rc.append((name, c))
        sh(d, 'update-ref', os.fsdecode(name), c.hex())
    return rc


def sh(d, *a, input=None):
    env = dict(os.environ, GIT_DIR=os.fsdecode(d))
    return subprocess.run(['git', *a], env=env, input=input, stdout=subprocess.PIPE, stderr=subprocess.PIPE, check=True).stdout


def reachable(d):
    """what the refs lead to, and its content"""
    refs = sh(d, 'for-each-ref', '--format=%(objectname) %(refname)')
    ids = sorted({x.split()[0] for x in sh(d, 'rev-list', '--objects', '--all').splitlines()}) if refs else []
    return refs, sh(d, 'cat-file', '--batch', input=b''.join(x + b'\n' for x in ids))


def listing_of(d):
    return {n: open(os.path.join(d, b'objects/pack', n), 'rb').read() for n in os.listdir(os.path.join(d, b'objects/pack'))}


def collecting(h):
    r, t = h.rng, h.tmp
    name = r.choice([b'b', b'b', b'[bc]', b'b*'])
    d, decoy = t + b'/' + name, t + b'/bb'
    for x in (d, decoy, t + b'/c'):
        subprocess.run(['git', 'init', '-q', '--bare', x], check=True)
    build(r, d)
    if name != b'b':
        build(r, t + b'/c')
        build(r, decoy)
    limit = r.choice([None, '300', '1k', '5k'])
    if limit:
        sh(d, 'config', 'pack.packSizeLimit', limit)
    os.symlink(name, t + b'/link')
    return r, t, d, (t + b'/c', decoy)


def same(h, d, was, others, info):
    try:
        now = reachable(d)
    except subprocess.CalledProcessError as ex:
        now = ex.stderr
    h.check(now == was, 'every object that a ref leads to is there, unchanged', detail=repr((info, now if isinstance(now, bytes) else '')))
    for o, files in others:
        h.check(listing_of(o) == files, 'other repositories are left alone', detail=repr(info))


def collect(h, t, d, fail=0, kill=False, look=False, threshold=None):
    r = h.rng
    where = r.choice([d, t + b'/link', os.path.basename(d)])
    opts = r.choice([[], ['-v'], ['--ignore-missing']]) + ([b'--threshold=%d' % threshold] if threshold is not None else []) \
        + r.choice([[], ['-0'], ['-9']])
    logs = t + b'/log'
    subprocess.run(['rm', '-rf', logs], check=True)
    os.mkdir(logs)
    e = {b'BUP_DIR': where, b'HOME': t, b'TMPDIR': t}
    if fail or look:
        e |= ophook.environment(logs, [d] if look else [], fail, kill)
    rc, o, x = cli.bup(['gc', '--unsafe', *opts], e, before=ophook.install if fail or look else None, cwd=t)
    n, trace = ophook.read(logs)
    bad = [y['bad'] for y in trace if 'bad' in y and 'without its pack' not in y['bad']]
    info = (opts, where, fail, kill, rc, x[-400:])
    h.check(not bad, 'nothing is lost at any moment', detail=repr((bad[:2], info)))
    return rc, [y for y in trace if 'failed' in y], info


GC = ['bup.gc:bup_gc', 'bup.gc:sweep', 'bup.gc:find_live_objects', 'bup.git:walk_object', 'bup.cmd.gc:main']


@unit('collections', GC, prove=False, samples=40, tmp=True, weight=3)
def u_collections(h):
    """to the end, several times over"""
    r, t, d, others = collecting(h)
    was, others = reachable(d), [(o, listing_of(o)) for o in others]
    threshold = r.choice([None, 0, 0, 50, 100])
    for k in range(3):
        rc, failed, info = collect(h, t, d, threshold=threshold)
        h.check(rc == 0, 'it works', detail=repr(info))
        same(h, d, was, others, info)
        left = [n for n in os.listdir(d + b'/objects/pack') if not n.endswith((b'.pack', b'.idx', b'.midx', b'bup.bloom'))]
        h.check(not left, 'nothing else is left', detail=repr((left, info)))
        if r.random() < .3:
            refs = [x.split()[1] for x in was[0].splitlines()]
            if refs:
                sh(d, 'update-ref', '-d', os.fsdecode(r.choice(refs)))
                was = reachable(d)


@unit('interruptions', GC, prove=False, samples=24, tmp=True, weight=3)
def u_interruptions(h):
    """a collection stops at some operation, by an error or for good; then another is complete"""
    r, t, d, others = collecting(h)
    was, others = reachable(d), [(o, listing_of(o)) for o in others]
    threshold = r.choice([None, 0, 0, 50, 100])
    for k in range(4):
        rc, failed, info = collect(h, t, d, r.choice([r.randint(1, 8), r.randint(4, 20), r.randint(4, 20), r.randint(1, 80)]), r.random() < .5,
                                   look=r.random() < .3, threshold=threshold)
        same(h, d, was, others, info)
        if failed:
            h.check(rc != 0, 'a failure is not hidden', detail=repr((failed, info)))
        if r.random() < .5:
            rc, failed, info2 = collect(h, t, d, threshold=threshold)
            h.check(rc == 0, 'it works afterwards', detail=repr((info, info2)))
            same(h, d, was, others, (info, info2))
