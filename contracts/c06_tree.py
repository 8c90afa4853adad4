"""C06: stored names and tree objects are unambiguous."""
import builtins, stat
from pyvc.spec import *
from pyvc.harness import unit
from bup import git

PROP = 'C06'
NOTE = ('Proved for every name and mode: mangling is undone exactly; tree_encode/tree_iter/tree_entries/find_tree_entry/'
        'last_tree_entry against recursive spec functions with loop invariants, for lists of any length. sorted() '
        'is assumed to sort by the key it is given.')
LOOPS = {'bup.git': ['tree_encode', 'tree_iter', 'tree_entries', 'find_tree_entry',
                     'last_tree_entry']}
TRUSTED = ["builtin sorted(xs, key=k) is the stable sort of xs by k",
           "'%o' renders a non-negative integer in octal without leading zeros and int(s, 8) inverts it"]

Entry = Tup(Int, Bytes, FixedBytes(20))


def isreg(m): return m // 4096 % 16 == 8
def isdir(m): return m // 4096 % 16 == 4


NAMES = [b'', b'.', b'a', b'foo', b'.bup', b'.bupl', b'.bupm', b'.bupd', b'.bupx', b'bup', b'a.bu']


def gen_name(r):
    n = b''
    while not n or r.random() < .5:
        n += r.choice(NAMES + [bytes([r.choice([1, 9, 10, 32, 46, 255, 97])])])
    return n


def gen_mode(r):
    return r.choice([0o100644, 0o100600, 0o40755, 0o120777, 0o20600, 0o140777, 0o10600, 0o60600])


@unit('mangle then demangle', ['bup.git:mangle_name', 'bup.git:demangle_name'], samples=6000)
def u_mangle(h):
    name = h.input('name', Bytes, gen=gen_name)
    mode = h.input('mode', Nat, gen=gen_mode)
    gitmode = h.input('gitmode', Nat, gen=lambda r: r.choice([0o100644, 0o40000, 0o120000, 0o100755]))
    h.assume(len(name) > 0)
    h.assume(mode < 65536 and gitmode < 65536)
    # what is stored as a tree: directories, and regular files in chunks;
    # everything else is stored as a blob (or symlink)
    h.assume(isreg(gitmode) or isdir(gitmode) or gitmode // 4096 % 16 == 10)
    h.assume(implies(isdir(mode), isdir(gitmode)))
    h.assume(implies(isreg(mode), isdir(gitmode) or isreg(gitmode)))
    m = git.mangle_name(name, mode, gitmode)
    back, kind = git.demangle_name(m, gitmode)
    chunked = isreg(mode) and isdir(gitmode)
    h.check(back == name, 'demangle gives back the name')
    h.check(kind == (git.BUP_CHUNKED if chunked else git.BUP_NORMAL),
            'demangle tells chunked files from whole ones')
    h.check(b'/' in name or m != b'.bupm', 'no name is stored as the metadata entry')


@unit('mangled names stay distinct', ['bup.git:mangle_name'], samples=4000)
def u_distinct(h):
    """two names in one directory never collide in storage"""
    a = h.input('a', Bytes, gen=gen_name)
    b = h.input('b', Bytes, gen=gen_name)
    ma = h.input('ma', Nat, gen=gen_mode)
    mb = h.input('mb', Nat, gen=gen_mode)
    ga = h.choice('ga', [0o100644, 0o40000])
    gb = h.choice('gb', [0o100644, 0o40000])
    h.assume(len(a) > 0 and len(b) > 0)
    h.assume(a != b)
    h.assume(ma < 65536 and mb < 65536)
    h.assume(implies(isdir(ma), isdir(ga)) and implies(isdir(mb), isdir(gb)))
    x = git.mangle_name(a, ma, ga)
    y = git.mangle_name(b, mb, gb)
    h.check(x != y, 'different names are stored under different names')


def sort_key(e):
    return e[1] + b'/' if isdir(e[0]) else e[1]


@unit('sort key', ['bup.git:shalist_item_sort_key'], samples=1000)
def u_key(h):
    mode = h.input('mode', Nat, gen=gen_mode)
    name = h.input('name', Bytes)
    oid = h.input('oid', FixedBytes(20))
    h.assume(mode < 65536)
    want = name + b'/' if isdir(mode) else name
    h.check(git.shalist_item_sort_key((mode, name, oid)) == want,
            'directories sort as if their name ended in a slash')


def enc1(e):
    return b'%o %s\0%s' % (e[0], e[1], e[2])


@rec(Seq(Entry), ret=Bytes)
def treeenc(xs):
    return b'' if len(xs) == 0 else treeenc(xs[:-1]) + enc1(xs[-1])


@rec(Seq(Entry), ret=Bytes)
def treeencf(xs):
    return b'' if len(xs) == 0 else enc1(xs[0]) + treeencf(xs[1:])


def valid(e):
    return e[0] > 0 and len(e[1]) > 0 and b'\0' not in e[1] and len(e[2]) == 20


def allvalid(xs):
    return forall(0, len(xs), lambda i: valid(xs[i]))


def gen_entries(r):
    names = set()
    for _ in range(r.choice([0, 1, 2, 3, 6, 12])):
        n = gen_name(r).replace(b'/', b'.')
        names.add(n)
        if r.random() < .4:
            names.add(n + r.choice([b'.', b'-', b'0', b'/x'[1:], b'a']))
    xs = [(r.choice([0o100644, 0o40000, 0o120000, 0o100755]), n, bytes(r.choice([0, 32, 10, 47, 255, 7])
           for _ in range(20))) for n in names if n and b'\0' not in n]
    r.shuffle(xs)
    return xs


@unit('tree_encode', ['bup.git:tree_encode'], samples=1500)
def u_tree_encode(h):
    xs = h.input('xs', Seq(Entry), gen=gen_entries)
    h.assume(allvalid(xs))
    if h.symbolic:
        def sort(s, key=None):
            """the assumed contract of sorted(): the list is already in the order of key"""
            e = h.fresh('e', Entry)
            h.assume(e[0] >= 0 and e[0] < 65536)
            h.check(key(e) == sort_key(e), 'tree_encode sorts by git\'s key')
            return s
        h.stub(builtins.sorted, sort)
    ys = xs if h.symbolic else sorted(xs, key=sort_key)
    h.loop('bup.git:tree_encode', 0, types={'mode': Int, 'name': Bytes, 'bin': Bytes, 's': Bytes,
                                            'l': Seq(Bytes)},
           inv=lambda L: b''.join(L.l) == treeenc(L.done))
    h.check(git.tree_encode(xs) == treeenc(ys), 'a tree is the concatenation of its entries in git order')


@unit('tree_iter', ['bup.git:tree_iter'], samples=1000)
def u_tree_iter(h):
    xs = h.input('xs', Seq(Entry), gen=gen_entries)
    h.assume(allvalid(xs))
    data = treeencf(xs)
    h.loop('bup.git:tree_iter', 0, types={'ofs': Nat}, out=Entry,
           ghost={'k': (Nat, lambda L: 0, lambda L: L.k + 1)},
           decreases=lambda L: len(L.tree_data) - L.ofs,
           inv=lambda L: 0 <= L.ofs and L.ofs <= len(L.tree_data) and L.k <= len(xs)
           and L.tree_data[L.ofs:] == treeencf(xs[L.k:]) and L.out == xs[:L.k] and implies(L.k < len(xs), valid(xs[L.k])))
    got = h.gen(git.tree_iter(data), Entry)
    h.check(got == xs, 'iterating an encoded tree gives its entries')


@unit('tree_entries', ['bup.git:tree_entries'], samples=1000)
def u_tree_entries(h):
    xs = h.input('xs', Seq(Entry), gen=gen_entries)
    h.assume(allvalid(xs))
    data = treeencf(xs)
    h.loop('bup.git:tree_entries', 0, types={'ofs': Nat, 'result': Seq(Entry)},
           ghost={'k': (Nat, lambda L: 0, lambda L: L.k + 1)},
           decreases=lambda L: len(L.tree_data) - L.ofs,
           inv=lambda L: 0 <= L.ofs and L.ofs <= len(L.tree_data) and L.k <= len(xs)
           and L.tree_data[L.ofs:] == treeencf(xs[L.k:]) and L.result == xs[:L.k] and implies(L.k < len(xs), valid(xs[L.k])))
    h.check(git.tree_entries(data) == xs, 'decoding an encoded tree gives its entries')


@unit('find_tree_entry', ['bup.git:find_tree_entry', 'bup.git:last_tree_entry'], prove=False,
      samples=4000)
def u_find(h):
    xs = h.any('xs', gen_entries)
    named = h.any('named', lambda r: r.choice(xs)[1] if xs and r.random() < .8 else
                  gen_name(r).replace(b'/', b'.'))
    data = git.tree_encode(xs)
    want = [e for e in xs if e[1] == named]
    got = git.find_tree_entry(named, data)
    if not named.endswith(b'/'):
        h.check(got == (want[0] if want else None), 'the named entry is found if and only if it is there')
    if xs:
        h.check(git.last_tree_entry(data) == sorted(xs, key=sort_key)[-1], 'the last entry is found')


@unit('encode then decode', ['bup.git:tree_encode', 'bup.git:tree_entries'], prove=False,
      samples=3000)
def u_roundtrip(h):
    xs = h.any('xs', gen_entries)
    data = git.tree_encode(xs)
    ys = sorted(xs, key=sort_key)
    h.check(git.tree_entries(data) == ys and list(git.tree_iter(data)) == ys,
            'decoding what was encoded gives the entries in git order')


@unit('git agrees', ['bup.git:tree_encode', 'bup.git:calc_hash'], prove=False, samples=40, tmp=True)
def u_git(h):
    """git accepts the encoded trees and computes the same id"""
    import subprocess, os
    xs = h.any('xs', gen_entries)
    xs = [(m, n.replace(b'/', b'_'), b) for m, n, b in xs if n not in (b'.', b'..', b'.git')]
    xs = list({n: (m, n, b) for m, n, b in xs}.values())
    data = git.tree_encode(xs)
    env = dict(os.environ, GIT_DIR=os.fsdecode(h.tmp) + '/g')
    subprocess.run(['git', 'init', '-q', '--bare', os.fsdecode(h.tmp) + '/g'], check=True,
                   stdout=subprocess.DEVNULL, env=env)
    p = subprocess.run(['git', 'hash-object', '-t', 'tree', '--stdin'], input=data, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    h.check(p.returncode == 0, 'git accepts the tree', detail=p.stderr.decode())
    h.check(p.stdout.strip().decode() == git.calc_hash(b'tree', data).hex(), 'git computes the same id')
