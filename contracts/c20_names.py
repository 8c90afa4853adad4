"""C20: every save and every directory entry has a distinct, resolvable name."""
import itertools, os, re, time
from binascii import hexlify
from hashlib import sha1
from pyvc.spec import *
from pyvc.harness import unit
from bup import git, helpers, tree, vfs
from bup.git import tree_encode, tree_entries
from bup.helpers import valid_save_name
from bup.metadata import Metadata
from bup.tree import Stack, StackDir, TreeItem, SplitTreeItem, _abbreviate_tree_names
from bup.vfs import _reverse_suffix_duplicates, save_names_for_commit_utcs

PROP = 'C20'
NOTE = ('Proved for any number of entries: reading a split directory gives the contents of its pieces in order, each once; '
        'a save name that is accepted has none of the parts git refuses; '
        'the depth of a split tree is read from every name of the documented form. '
        'Abbreviations (every set of up to four names from a small alphabet), the suffixes of equal save names and whole split '
        'directories written and read back are evaluated: bounded.')
LOOPS = {'bup.vfs': ['_split_subtree_items'], 'bup.helpers': ['valid_save_name']}
ASSUME = ['the parts that bytes.split(b"/") gives are the maximal ones without a slash']

# --- save names: valid for git
@unit('valid_save_name', ['bup.helpers:valid_save_name'], search=False, timeout=40)
def u_valid(h):
    """git-check-ref-format(1): what is accepted has none of the parts that git refuses"""
    name = h.input('name', Byte256)
    h.assume(b'/' not in name)
    n = h.input('n', Nat)
    h.assume(n < len(name))
    h.loop('bup.helpers:valid_save_name', 0, types={'c': Nat},
           inv=lambda L: implies(n < L.i, name[n] >= 0x20 and name[n] != 0x7f))
    got = valid_save_name(name)
    if got:
        h.check(name[n] >= 0x20 and name[n] != 0x7f, 'no control characters')
        h.check(name != b'@' and not name.endswith(b'.'), 'ends')
        h.check(not name.startswith(b'.') and not name.endswith(b'.lock'), 'neither hidden nor a lock file')
        for bad in (b'..', b'//', b'@{', b' ', b'~', b'^', b':', b'?', b'*', b'[', b'\\'):
            h.check(re.search(re.escape(bad), name) is None, 'nothing that means something else to git')


NAMES = [b'a', b'main', b'a/b', b'@', b'a@b', b'a@{b', b'@{', b'.a', b'a/.b', b'a.', b'a.lock', b'a.lock/b', b'a/b.lock', b'..', b'a..b',
         b'a b', b'a~1', b'a^', b'a:b', b'a?', b'a*', b'[a', b'a\\b', b'a//b', b'/a', b'a/', b'a\x7f', b'a\x1f', b'a\tb', b'-', b'-a',
         b'\xc3\xa9', b'\xff', b'a.b', b'a-b', b'a]', b'{', b'a}', b'HEAD', b'a\n', b'a.lockx', b'lock', b'.lock', b'a/@', b'@/a', b'a,b']


@unit('save names and git', ['bup.helpers:valid_save_name'], prove=False,
      cases=lambda tier: [{'names': NAMES[i:i + 12]} for i in range(0, len(NAMES), 12)], samples=60 )
def u_git_names(h):
    """compared with git check-ref-format"""
    import subprocess
    names = h.any('names', lambda r: [bytes(r.choice(b'ab/.@{~^:?*[\\ \x7f\x1flock-') for _ in range(r.choice([1, 2, 3, 4]))) for _ in range(6)])
    for n in names:
        if b'\0' in n:
            continue
        ok = subprocess.run([b'git', b'check-ref-format', b'refs/heads/' + n]).returncode == 0
        if valid_save_name(n):
            h.check(ok, 'what bup takes, git takes', detail=repr(n))
        else:
            # bup also refuses what git gives a meaning
            h.check(not ok or n == b'@', 'what git takes, bup takes', detail=repr(n))


# --- save names of a branch
@unit('equal times', ['bup.vfs:_reverse_suffix_duplicates'], prove=False, samples=600,
      cases=lambda tier: [{'names': list(x)} for n in range(7) for x in itertools.product([b'2020-01-01-000000', b'2020-01-01-000001'], repeat=n)]
      + [{'names': [b'2020-01-01-000000'] * n} for n in (9, 10, 11, 12, 99, 100, 101, 102, 1001)])
def u_suffixes(h):
    names = h.any('names', lambda r: [r.choice([b'2020-01-01-000000', b'2020-01-01-000001', b'1999-12-31-235959', b'12020-01-01-000000'])
                                      for _ in range(r.choice([1, 2, 5, 30, 200]))])
    got = list(_reverse_suffix_duplicates(iter(names)))
    h.check(len(got) == len(names), 'one name each')
    h.check(len(set(got)) == len(got), 'all different', detail=repr(got[:20]))
    for want in set(names):
        mine = [g for n, g in zip(names, got) if n == want]
        if len(mine) == 1:
            h.check(mine == [want], 'the time alone where it is the only one')
        else:
            h.check(all(re.fullmatch(re.escape(want) + rb'-\d+', g) for g in mine), 'a number after the time')
            h.check(mine == sorted(mine, reverse=True), 'falling, so that a listing is in order of age')
            h.check([int(g[len(want) + 1:]) for g in mine] == list(range(len(mine)))[::-1], 'numbered down to 0')


ZONES = ['UTC0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0', 'AAA-14', 'AAA12:30']


def in_zone(name, f):
    old = os.environ.get('TZ')
    os.environ['TZ'] = name
    try:
        time.tzset()
        return f()
    finally:
        if old is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = old
        time.tzset()


class RevRepo:
    """a branch: its commits, newest first"""
    id = b'repo'

    def __init__(self, revs): self.revs = revs

    def rev_list(self, refs, parse=None, format=None):
        for coid, toid, sec in self.revs:
            import io
            yield hexlify(coid), parse(io.BytesIO(b'%s %d\n' % (hexlify(toid), sec)))

    def cat(self, ref):
        for coid, toid, sec in self.revs:
            if hexlify(coid) == ref:
                data = b'tree %s\nauthor a <b> %d +0000\ncommitter a <b> %d +0000\n\nm' % (hexlify(toid), sec, sec)
                return ref, b'commit', len(data), iter([data])
        return None, None, None, None


@unit('saves of a branch', ['bup.vfs:cache_commit', 'bup.vfs:revlist_items', 'bup.vfs:save_names_for_commit_utcs',
                            'bup.vfs:_item_for_rev'], prove=False, samples=400)
def u_branch(h):
    base = h.any('base', lambda r: r.choice([0, 1, 1e9, 1603587600, 1698541200, 1700000000, 2**31, 2**33, 253402300790, 2**40]))
    n = h.any('n', lambda r: r.choice([1, 2, 3, 12, 40]))
    zone = h.any('zone', lambda r: r.choice(ZONES))
    seed = h.any('seed', lambda r: r.randrange(2**32))
    import random
    r = random.Random(seed)
    step = r.choice([0, 1, 1800, 3600])
    secs = [int(base) + step * r.choice([0, 0, i, r.randrange(n)]) for i in range(n)]
    secs.reverse()
    revs = [(r.randbytes(20), r.choice([b'\1' * 20, r.randbytes(20)]), s) for s in secs]
    if n > 2 and r.random() < .3:
        revs[2] = (revs[2][0], revs[0][1], revs[2][2])
    vfs.clear_cache()
    repo = RevRepo(revs)

    def run():
        items = dict(vfs.revlist_items(repo, revs[0][0], None, require_meta=False))
        h.check(set(items) >= {b'.', b'latest'}, 'the branch itself and its newest save')
        saves = {k: v for k, v in items.items() if k not in (b'.', b'latest')}
        h.check(sorted(v.coid for v in saves.values()) == sorted(c for c, _, _ in revs), 'every save once')
        for k, v in saves.items():
            sec = [s for c, _, s in revs if c == v.coid][0]
            h.check(k.startswith(time.strftime('%Y-%m-%d-%H%M%S', time.localtime(sec)).encode()), 'by its time')
            if r.random() < .5:
                vfs.clear_cache()
            found = list(vfs.revlist_items(repo, revs[0][0], [k], require_meta=False))
            h.check([n_ for n_, _ in found] == [k] and found[0][1].coid == v.coid, 'found by its name', detail=repr((k, found)))
        h.check(saves[items[b'latest'].target].coid == revs[0][0], 'the latest is the tip')
    in_zone(zone, run)
    vfs.clear_cache()


# --- split directories: names
ALPHA = [b'a', b'b', b'.']
SHORT = sorted({bytes(x) for n in (1, 2, 3) for x in itertools.product(b'ab.', repeat=n)} - {b'.', b'..'})


def check_abbrev(h, first, last):
    """pieces from first[i] to last[i], in order"""
    got = _abbreviate_tree_names(first + last[:-1])[:len(first)]
    h.check(len(set(got)) == len(got), 'abbreviations are all different', detail=repr((first, last, got)))
    for i, (a, f) in enumerate(zip(got, first)):
        h.check(f.startswith(a) and a not in (b'', b'.', b'..'), 'a beginning of the first name, and valid', detail=repr((first, got)))
        h.check(i == 0 or last[i - 1] < a, 'greater than everything in the piece before', detail=repr((first, last, got)))


@unit('abbreviations', ['bup.tree:_abbreviate_tree_names'], prove=False, samples=1500)
def u_abbrev(h):
    names = h.any('names', lambda r: sorted({r.choice(SHORT) if r.random() < .7 else bytes(r.choice(b'ab.-/') for _ in range(r.choice([1, 4, 9]))).replace(b'/', b'') or b'x'
                                             for _ in range(r.choice([2, 4, 8, 20]))} - {b'.', b'..'}))
    h.assume(len(names) > 0)
    cuts = h.any('cuts', lambda r: sorted(r.sample(range(1, len(names)), r.randrange(len(names)))) if len(names) > 1 else [])
    first, last = [], []
    for lo, hi in zip([0] + cuts, cuts + [len(names)]):
        first.append(names[lo])
        last.append(names[hi - 1])
    check_abbrev(h, first, last)


@unit('all abbreviations', ['bup.tree:_abbreviate_tree_names'], prove=False, samples=0,
      cases=lambda tier: [{'start': i} for i in range(len(SHORT))])
def u_all_abbrev(h):
    """every choice of up to four names in two or three pieces"""
    i = h.any('start', lambda r: 0)
    rest = SHORT[i + 1:]
    for x in itertools.combinations(rest, 3):
        ns = [SHORT[i]] + list(x)
        check_abbrev(h, [ns[0], ns[2]], [ns[1], ns[3]])
        check_abbrev(h, [ns[0], ns[1], ns[2]], [ns[0], ns[1], ns[3]])
        check_abbrev(h, ns, ns)


# --- split directories: structure
ENT = Tup(Int, Bytes, FixedBytes(20))
sub_entries = ufn('sub_entries', [Bytes], Seq(ENT))
leaf = ufn('leaf', [Int, Bytes], Seq(Int))


@rec(Seq(ENT), Int, Bool, ret=Seq(Int), fuel=1)
def in_pieces(xs, level, root):
    """what the pieces contain, in order"""
    return [] if len(xs) == 0 else in_pieces(xs[:-1], level, root) + (
        [] if (root and xs[-1][1] == b'.bupm') else leaf(level - 1, xs[-1][2]))


@unit('reading pieces', ['bup.vfs:_split_subtree_items'], search=False)
def u_reading(h):
    """an inner tree: the contents of its pieces, each once, in order"""
    xs = h.input('xs', Seq(ENT))
    level = h.input('level', Int)
    root = h.choice('root', [True, False])
    h.assume(level > 0)
    wm = h.choice('want_meta', [True, False])
    oid = h.input('oid', FixedBytes(20))

    def ent(i):
        e = xs[i]
        h.assume(e[1].endswith(b'.%d.bupd' % level) or (root and e[1] == b'.bupm'))
        return e

    def sub(repo, lev, sub_oid, entries, names, want_meta, root=True):
        h.check(lev == level - 1 and entries == sub_entries(sub_oid) and names is None and want_meta is wm and not root,
                'the piece is read as one level further down')
        return leaf(lev, sub_oid)
    h.stub(vfs._split_subtree_items, sub)
    h.stub(vfs._get_tree_object, lambda repo, o: o)
    h.stub(vfs.tree_entries, lambda o: sub_entries(o))
    h.loop('bup.vfs:_split_subtree_items', 0, out=Int, types={'_': Int, 'name': Bytes, 'sub_oid': Bytes},
           inv=lambda L: L.out == in_pieces(xs[:L.i], level, root))
    got = h.gen(h.body(vfs._split_subtree_items)(None, level, oid, FnSeq(len(xs), ent), None, wm, root), Int)
    h.check(got == in_pieces(xs, level, root), 'the contents of the pieces in order')


@unit('depth', ['bup.vfs:_parse_tree_depth'], samples=300)
def u_depth(h):
    pre = h.input('pre', Bytes, gen=lambda r: r.choice([b'', b'a', b'a.1', b'x..2.bupd', b'.', b'a\nb', b'\n']))
    d = h.input('d', Bytes, gen=lambda r: r.choice([b'1', b'2', b'10', b'007']))
    h.assume(re.fullmatch(rb'[0-9]+', d) is not None)
    n = int(d)
    h.assume(n > 0)
    h.check(vfs._parse_tree_depth(pre + b'..' + d + b'.bupd') == n, 'the depth')


# --- native: split directories written and read back
class MemRepo:
    id = b'mem'

    def __init__(self):
        self.objs = {}

    def put(self, typ, data):
        oid = sha1(typ + b' %d\0' % len(data) + data).digest()
        self.objs[oid] = (typ, data)
        return oid

    def write_tree(self, shalist): return self.put(b'tree', tree_encode(shalist))
    def write_data(self, d): return self.put(b'blob', d)
    write_bupm = write_data

    def cat(self, ref):
        from binascii import unhexlify
        o = self.objs.get(unhexlify(ref))
        if o is None:
            return None, None, None, None
        return ref, o[0], len(o[1]), iter([o[1]])


def chain_names(r):
    """names that begin with one another"""
    out = set()
    for _ in range(r.choice([2, 5, 12, 40])):
        base = r.choice([b'a', b'f', b'.x', b'file', b'-', b'z.1.bupd', b'.bupm', b'..', b'x.bup', b'\xff', b'\n'])
        for _ in range(r.randrange(6)):
            base += r.choice([b'a', b'.', b'b', b'.c', b'-', b'..1.bupd', b'.bupl', b'0', b' '])
            out.add(base)
    return sorted(out - {b'.', b'..'}) or [b'a']


def some_meta(mode, i):
    m = Metadata()
    m.mode, m.uid, m.gid, m.atime, m.mtime, m.ctime = mode, i, 0, 0, i, 0
    m.user, m.group, m.rdev = b'', b'', 0
    return m


@unit('split directories', ['bup.tree:Stack._write_split_tree', 'bup.tree:Stack._write_tree', 'bup.tree:_abbreviate_item_names',
                            'bup.tree:_abbreviate_tree_names', 'bup.vfs:tree_items', 'bup.vfs:_split_subtree_items',
                            'bup.vfs:_tree_items_except_dot'], prove=False, samples=500)
def u_split_dirs(h):
    names = h.any('names', chain_names)
    splits = h.any('splits', lambda r: [r.random() < .4 for _ in range(300)])
    kinds = h.any('kinds', lambda r: [r.choice('ffdl') for _ in names])
    with_meta = h.any('meta', lambda r: r.random() < .7)
    todo = list(splits)

    class AnySplitter:
        """splits where the hash of the names happens to"""
        def __init__(self, **k): pass
        def feed(self, name): return (todo.pop() if todo else False), 0
    h.patch(tree, RecordHashSplitter=AnySplitter)
    vfs.clear_cache()
    repo = MemRepo()
    st = Stack(repo, {'trees': True, 'blobbits': 13})
    dm = some_meta(0o40755, 1)
    st.push(b'', dm if with_meta else None)
    want = {}
    for i, (n, k) in enumerate(zip(names, kinds)):
        mode = dict(f=0o100644, d=0o40755, l=0o120777)[k]
        gm = dict(f=0o100644, d=0o40000, l=0o120000)[k]
        m = some_meta(mode, i)
        if k == 'f':
            m.size = i
        if k == 'l':
            m.symlink_target = b't'
        oid = repo.write_tree([]) if k == 'd' else repo.write_data(b'%d' % i)
        st.append_to_current(n, mode, gm, oid, (m if with_meta else None) if k != 'd' else None)
        want[n] = (k, oid, i)
    top = st.pop()
    for typ, data in repo.objs.values():
        if typ == b'tree':
            es = [(n, m) for m, n, _ in tree_entries(data)]
            h.check(len({n for n, _ in es}) == len(es), 'no name twice in any tree', detail=repr(es))
            keys = [n + (b'/' if m == 0o40000 else b'') for n, m in es]
            h.check(keys == sorted(keys), 'in git order')
    _, data = repo.objs[top]
    got = list(vfs.tree_items(repo, top, data, None))
    h.check([n for n, _ in got].count(b'.') == 1, 'the directory itself once')
    got = [(n, it) for n, it in got if n != b'.']
    h.check(sorted(n for n, _ in got) == names, 'every entry once', detail=repr([n for n, _ in got]))
    for n, it in got:
        k, oid, i = want[n]
        h.check(it.oid == oid, 'the object of that name', detail=repr(n))
        if with_meta and k != 'd':
            h.check(it.meta.uid == i and it.meta.mtime == i, 'and its metadata', detail=repr((n, it.meta)))
    some = set(names[::3]) | {b'.'}
    sel = list(vfs.tree_items(repo, top, data, some))
    h.check({n for n, _ in sel} == some and len(sel) == len(some), 'the entries asked for', detail=repr((some, sel)))
    vfs.clear_cache()
