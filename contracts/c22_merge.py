"""C22: merging sorted streams and reducing path lists lose nothing."""
import heapq, os
from collections import namedtuple
from pyvc.spec import *
from pyvc.harness import unit
from bup import helpers, index
from bup.helpers import MergeIterItem, merge_iter, slashappend

PROP = 'C22'
NOTE = ('Proved: merge_iter yields, for every element of every stream, of any number and length, the least element of equal '
        'name, once, in order (the start for three streams, the steps for any number of them); the order of index entries; '
        'reduce_paths leaves out a path only if it or a directory above it is kept, for lists of any length. '
        'That a kept path never covers another, the whole of merge_iter with the real heap, and reduce_paths on a real directory '
        'tree are evaluated on generated inputs: bounded.')
LOOPS = {'bup.helpers': ['merge_iter'], 'bup.index': ['reduce_paths']}
ASSUME = ['heapq: the first element of a heap is a least one; heapreplace and heappop change the first alone',
          'list.sort gives the same elements in order']

E = namedtuple('E', ['name', 'rank'])
ELT = Tup(Int, Int, cls=E)


def le(a, b):
    return (a.name < b.name) or ((a.name == b.name) and (a.rank <= b.rank))


@rec(Seq(ELT), Int, Int, ret=Bool)
def has(xs, n, r):
    """an element of that name and of no greater rank"""
    return False if len(xs) == 0 else ((xs[-1].name == n and xs[-1].rank <= r) or has(xs[:-1], n, r))


@rec(Seq(ELT), ret=Bool)
def increasing(xs):
    return True if len(xs) < 2 else ((xs[-2].name < xs[-1].name) and increasing(xs[:-1]))


class Stream:
    """the witness: elements at pos.. are still to come"""
    def __init__(self, h, xs):
        self.h, self.xs, self.pos = h, xs, 0

    def __len__(self): return len(self.xs)
    def __iter__(self): return self

    def __next__(self):
        if self.pos >= len(self.xs):
            raise StopIteration
        x = self.xs[self.pos]
        if self.pos > 0:
            self.h.assume(le(self.xs[self.pos - 1], x))
        self.pos = self.pos + 1
        return x


class Other:
    """any other stream, of which e was the last element taken"""
    def __init__(self, h, e):
        self.h, self.e, self.next = h, e, None

    def __next__(self):
        if self.h.choice('other ends', [True, False]):
            raise StopIteration
        x = self.h.fresh('next', ELT)
        self.h.assume(le(self.e, x))
        self.next = x
        return x


@unit('merge_iter steps', ['bup.helpers:merge_iter'], search=False, timeout=40)
def u_steps(h):
    """witness: the element at p of one stream; whatever is in the other streams"""
    keyed = h.choice('key', [True, False])
    w = Stream(h, h.input('xs', Seq(ELT)))
    p = h.input('p', Nat)
    h.assume(p < len(w.xs))
    n, r = w.xs[p].name, w.xs[p].rank

    def plain(x):
        if not keyed:
            h.assume(x.rank == 0)
        return x
    plain(w.xs[p])
    top = []        # the element at the top of the heap in this round

    def heapify(hp):
        h.check(len(hp) == 1 and hp[0].read_it is w and hp[0].entry == w.xs[0] and w.pos == 1, 'the first elements are in the heap')

    def heap(eng):
        """between the rounds: the heap holds the next element of each stream that has one"""
        w.pos = h.fresh('pos', Nat)         # taken from w, the last of them is in the heap unless all were used
        st.last = plain(h.fresh('last', ELT))
        st.wdone = h.choice('witness stream done', [False, True])
        h.assume(1 <= w.pos and w.pos <= len(w.xs))
        plain(w.xs[w.pos - 1])
        if st.wdone:
            h.assume(w.pos == len(w.xs))
        else:
            h.assume(implies(st.any, le(st.last, w.xs[w.pos - 1])))
        # each stream is sorted
        h.assume(implies(p < w.pos, le(w.xs[p], w.xs[w.pos - 1])))
        h.assume(implies(w.pos <= p, le(w.xs[w.pos - 1], w.xs[p])))
        k = h.choice('top', ['empty', 'witness', 'other'])
        if k == 'empty':
            if not st.wdone:
                h.assume(False)
            return []
        if k == 'witness':
            if st.wdone:
                h.assume(False)
            e, it = w.xs[w.pos - 1], w
        else:
            e = plain(h.fresh('e', ELT))
            it = Other(h, e)
            if not st.wdone:
                h.assume(le(e, w.xs[w.pos - 1]))
        h.assume(implies(st.any, le(st.last, e)))
        top[:] = [e, it]
        return [MergeIterItem(e, it)]

    class St:
        pass
    st = St()
    st.any, st.wdone, st.last = False, False, E(0, 0)

    def heappop(hp):
        if top[1] is w:
            h.check(w.pos == len(w.xs), 'a stream is dropped at its end')
            st.wdone = True
        else:
            h.check(top[1].next is None, 'a stream is dropped at its end')
        st.last, st.any = top[0], True

    def heapreplace(hp, item):
        h.check(item.read_it is top[1], 'the stream at the top moves on')
        if top[1] is w:
            h.check(item.entry == w.xs[w.pos - 1], 'to its next element')
        else:
            h.check(top[1].next is not None and item.entry == top[1].next, 'to its next element')
        st.last, st.any = top[0], True
    h.stub(heapq.heapify, heapify)
    h.stub(heapq.heappop, heappop)
    h.stub(heapq.heapreplace, heapreplace)

    def used():
        """has the witness element been at the top?"""
        return (p < w.pos) if st.wdone else (p + 1 < w.pos)

    def inv(L):
        if L.pe is None:
            return not st.any and len(L.out) == 0 and not used()
        if not st.any:
            return False
        return ((len(L.out) > 0) and L.out[-1] == L.pe and L.pe.name == st.last.name and le(L.pe, st.last)
                and increasing(L.out) and implies(used(), has(L.out, n, r) and le(w.xs[p], st.last))
                and implies(not used(), le(st.last, w.xs[p])))

    def pe(eng):
        st.any = h.choice('before', [False, True])
        return plain(h.fresh('pe', ELT)) if st.any else None
    h.loop('bup.helpers:merge_iter', 0, out=ELT, types={'heap': heap, 'pe': pe, 'e': lambda e: None, 'it': lambda e: None, 'count': Nat},
           havoc={}, inv=inv)

    class Rest:
        def __len__(self): return 0
    got = h.gen(merge_iter([w], 7, lambda c, t: None, lambda c, t: None, key='name' if keyed else None), ELT)
    h.check(has(got, n, r), 'an element of that name is yielded, the least of them')
    h.check(increasing(got), 'each name once, in order')


@unit('merge_iter start', ['bup.helpers:merge_iter'], search=False)
def u_start(h):
    """every stream that has an element enters the heap with its first"""
    ws = [Stream(h, h.input(f'xs{i}', Seq(ELT))) for i in range(3)]
    seen = []

    class Done(Exception):
        pass

    def heapify(hp):
        live = [w for w in ws if len(w.xs) > 0]
        h.check(len(hp) == len(live), 'a heap item for each stream that is not empty')
        for w, it in zip(live, hp):
            h.check(it.read_it is w and w.pos == 1 and it.entry == w.xs[0], 'with its first element')
        seen.append(1)
        raise Done
    h.stub(heapq.heapify, heapify)

    def run():
        try:
            yield from merge_iter(ws, 7, lambda c, t: None, lambda c, t: None, key='name')
        except Done:
            pass
    got = h.gen(run(), ELT)
    h.check(len(seen) == 1, 'the heap is set up')


@unit('heap order', ['bup.helpers:MergeIterItem.__lt__'], search=False)
def u_item(h):
    a, b = h.input('a', Int), h.input('b', Int)
    h.check((MergeIterItem(a, None) < MergeIterItem(b, None)) == (a < b), 'items compare as their elements')


class Ent:
    pass


@unit('entry order', ['bup.index:Entry._cmp', 'bup.index:Entry.__lt__', 'bup.index:Entry.__eq__'], samples=3000)
def u_order(h):
    """names descending; of one name, what must be saved again first, then real before fake"""
    es = []
    if h.symbolic:
        h.stub(index.bytescmp, lambda a, b: -1 if a < b else (1 if b < a else 0))
    for i in 'ab':
        e = object.__new__(index.Entry)
        e.name = h.input('name' + i, Bytes, gen=lambda r: r.choice([b'a', b'a/', b'a/b', b'b', b'']))
        e.flags = h.choice('flags' + i, [0, index.IX_EXISTS, index.IX_HASHVALID, index.IX_EXISTS | index.IX_HASHVALID, 0xffff])
        e.ctime = h.input('ctime' + i, Nat)
        e.sha, e.mode, e.gitmode, e.size = b'x' * 20, 0, 0o100644, 0
        es.append(e)
    a, b = es
    va, vb = a.is_valid(), b.is_valid()
    if a.name != b.name:
        h.check((a < b) == (a.name > b.name), 'names come in descending order')
        h.check(not (a == b), 'another name is another entry')
    elif bool(va) != bool(vb):
        h.check((a < b) == (not va), 'an entry to be saved again comes before one that is not')
    else:
        h.check((a < b) == (a.ctime != 0 and b.ctime == 0), 'a real entry comes before a fake one')
        h.check((a == b) == ((a.ctime == 0) == (b.ctime == 0)), 'else equal')


rp_of = ufn('rp_of', [Bytes], Bytes)
PATH = Tup(Bytes, Bytes)


def isdir(x):
    return x[-1:] == b'/'


@rec(Seq(PATH), Bytes, ret=Bool)
def covered(xs, w):
    """a path or a directory above it is there"""
    return False if len(xs) == 0 else ((xs[-1][0] == w or (isdir(xs[-1][0]) and w[:len(xs[-1][0])] == xs[-1][0]))
                                       or covered(xs[:-1], w))


@rec(Seq(PATH), Bytes, Bytes, ret=Bool)
def isin(xs, w, q):
    return False if len(xs) == 0 else ((xs[-1][0] == w and xs[-1][1] == q) or isin(xs[:-1], w, q))


@unit('reduce_paths', ['bup.index:reduce_paths'], search=False, timeout=40)
def u_reduce(h):
    """witness: the path at i"""
    ps = h.input('ps', Seq(Bytes))
    i = h.input('i', Nat)
    h.assume(i < len(ps))
    w = rp_of(ps[i])            # empty: no such file
    h.stub(index.resolve_parent, lambda p: p)
    h.stub(index._slashappend_or_add_error, lambda p, who: rp_of(p))
    h.assume(len(w) > 0)
    if isdir(w):
        q = slashappend(ps[i])
    else:
        q = ps[i]
    n = [0]

    def on_sort(old, new, reverse):
        n[0] += 1
        if n[0] == 1:
            h.check(not reverse, 'parents come before children')
            h.assume(isin(old, w, q) == isin(new, w, q))
        else:
            h.check(reverse, 'the last first')
            h.assume(covered(old, w) == covered(new, w))
    h.on_sort = on_sort
    h.loop('bup.index:reduce_paths', 0, types={'xpaths': Seq(PATH), 'rp': Bytes, 'p': Bytes},
           inv=lambda L: implies(L.idx > i, isin(L.xpaths, w, q)))
    h.loop('bup.index:reduce_paths', 1, types={'paths': Seq(PATH), 'prev': Opt(Bytes), 'rp': Bytes, 'p': Bytes},
           inv=lambda L: (implies(L.prev is None, len(L.paths) == 0)
                          and (True if L.prev is None else (len(L.paths) > 0 and L.paths[-1][0] == L.prev))
                          and implies(isin(L.done, w, q), covered(L.paths, w))))
    got = index.reduce_paths(ps)
    h.check(covered(got, w), 'the path or a directory above it is kept')


# --- native
def gen_streams(r):
    n = r.choice([0, 1, 2, 3, 5, 9])
    names = r.choice([3, 10, 100])
    out = []
    for _ in range(n):
        k = r.choice([0, 1, 2, 5, 30])
        out.append(sorted((r.randrange(1, names), r.randrange(3)) for _ in range(k)))
    return out


@unit('merge streams', ['bup.helpers:merge_iter', 'bup.helpers:MergeIterItem.__lt__'], prove=False, samples=4000)
def u_streams(h):
    ss = h.any('streams', gen_streams)
    freq = h.any('freq', lambda r: r.choice([1, 2, 1000]))
    kind = h.any('kind', lambda r: r.choice(['id', 'named', 'entry']))
    calls = []
    pf, pe = (lambda c, t: calls.append((c, t))), (lambda c, t: calls.append((c, t)))
    total = sum(map(len, ss))
    if kind == 'id':
        got = list(merge_iter([[b'%04d' % n for n, _ in s] for s in ss], freq, pf, pe))
        want = [b'%04d' % n for n in sorted({n for s in ss for n, _ in s})]
    else:
        best = {}
        for s in ss:
            for n, k in s:
                best[n] = min(k, best.get(n, 9))
        if kind == 'named':
            got = list(merge_iter([[E(*x) for x in s] for s in ss], freq, pf, pe, key='name'))
            want = [E(n, k) for n, k in sorted(best.items())]
        else:
            def entry(x):
                e = object.__new__(index.Entry)
                e.name = b'%04d' % (9999 - x[0])
                e.flags = (0, index.IX_EXISTS | index.IX_HASHVALID, index.IX_EXISTS | index.IX_HASHVALID)[x[1]]
                e.ctime = (5, 5, 0)[x[1]]
                e.sha, e.mode, e.gitmode, e.size = b'x' * 20, 0o100644, 0o100644, 0
                e.k = x
                return e
            got = [e.k for e in merge_iter([[entry(x) for x in s] for s in ss], freq, pf, pe, key='name')]
            want = sorted(best.items())
    h.check(got == want, 'each distinct element once, in order, the preferred one of equal ones', detail=repr((got[:20], want[:20])))
    h.check(calls[-1] == (total, total), 'every element was counted')


@unit('reduce real paths', ['bup.index:reduce_paths', 'bup.index:unique_resolved_paths',
                            'bup.index:_slashappend_or_add_error', 'bup.helpers:resolve_parent', 'bup.helpers:slashappend'],
      prove=False, samples=400, tmp=True)
def u_real(h):
    import shutil
    seed = h.any('seed', lambda r: r.randrange(2**40))
    import random
    r = random.Random(seed)
    top = os.path.realpath(os.path.join(h.tmp, b'rp'))
    os.mkdir(top)
    names = [b'a', b'ab', b'a b', b'a-', b'a.', b'a0', b'b', b'\xff', b'a\n']
    dirs, all_ = [top], []
    try:
        for _ in range(r.choice([1, 4, 12, 25])):
            d = r.choice(dirs)
            p = os.path.join(d, r.choice(names))
            if os.path.lexists(p):
                continue
            k = r.random()
            if k < .5:
                os.mkdir(p)
                dirs.append(p)
            elif k < .7:
                os.symlink(r.choice(dirs + all_ + [b'gone']), p)
            else:
                open(p, 'w').close()
            all_.append(p)
        given = []
        for _ in range(r.choice([0, 1, 2, 5, 12])):
            p = r.choice(all_ + dirs + [os.path.join(top, b'missing')])
            if os.path.isdir(p) and r.random() < .4:
                p += r.choice([b'/', b'/.', b'//'])
            if r.random() < .2 and os.path.isdir(p):
                sub = os.listdir(p)
                if sub:
                    p = os.path.join(p, r.choice(sub))
            given.append(p)
        helpers.saved_errors[:] = []
        h.patch(helpers, log=lambda *a: None)
        got = index.reduce_paths(given)

        def real(p):
            q = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p)) if os.path.islink(p) else os.path.realpath(p)
            return q + b'/' if os.path.isdir(q) and not os.path.islink(q) else q
        want = {}
        for p in given:
            if os.path.lexists(p):
                want.setdefault(real(p), set()).add(p)
        rps = [a for a, _ in got]
        under = lambda a, b: a == b or (b.endswith(b'/') and a.startswith(b))
        for a in want:
            h.check(any(under(a, b) for b in rps), 'every path given is covered', detail=repr((given, got)))
        for k, (a, p) in enumerate(got):
            h.check(a in want, 'only paths given are kept', detail=repr((given, got)))
            h.check(any(p == (slashappend(x) if a.endswith(b'/') else x) for x in want[a]), 'with the name it was given by')
            h.check(not any(under(a, b) for j, b in enumerate(rps) if j != k), 'no kept path covers another', detail=repr((given, got)))
        h.check(rps == sorted(rps, reverse=True), 'in descending order')
        h.check(bool(helpers.saved_errors) == any(not os.path.lexists(p) for p in given), 'a missing path is reported')
        h.check(index.unique_resolved_paths(given) == frozenset(want), 'the resolved paths are exactly those given')
    finally:
        helpers.saved_errors[:] = []
        shutil.rmtree(top)
