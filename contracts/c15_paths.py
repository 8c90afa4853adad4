"""C15: stripping and grafting map each path to the right place."""
import builtins, itertools, os, re
from pyvc.spec import *
from pyvc.harness import unit
from bup import helpers
from bup.helpers import grafted_path_components, path_components, stripped_path_components

PROP = 'C15'
NOTE = ('Proved for every normal path and any number of strip prefixes: the components spell the path that is left when the longest '
        'prefix of whole components is taken away, each with the real path it stands for. Grafts of every path of up to four components '
        'under every pair of prefixes, and whole saves with strip and graft options read back, are evaluated: bounded. With several '
        'grafts that cover a path the first one given applies. Real paths start with one slash; two (whose meaning POSIX leaves open) '
        'are not claimed, nor are grafts that put two directories into one place.')
LOOPS = {'bup.helpers': ['path_components', 'stripped_path_components']}
TRUSTED = ['os.path.abspath of a path without empty, "." and ".." components is the path itself; '
           'bytes.split("/") gives components that, each after a slash, spell the path']

parts = ufn('parts', [Bytes], Seq(Bytes))
COMP = Tup(Bytes, Bytes)


@rec(Seq(Bytes), Int, ret=Bytes)
def spell(ps, n):
    """the first n components after the empty one"""
    return b'' if n <= 0 else spell(ps, n - 1) + b'/' + ps[n]


@rec(Bytes, Seq(Bytes), Int, ret=Seq(COMP))
def below(pre, ps, n):
    """the first n components below a directory"""
    return [] if n <= 0 else below(pre, ps, n - 1) + [(ps[n], pre + spell(ps, n))]


def normal(p):
    return p.startswith(b'/') and (p == b'/' or not p.endswith(b'/')) and b'//' not in p


def setup(h, one_by_one=False):
    def split(s, *a):
        if a != (b'/',):
            return NotImplemented
        xs = parts(s)
        h.check(s == b'' or s.startswith(b'/'), 'whole components')
        h.assume(len(xs) > 0)
        h.assume(xs[0] == b'')
        h.assume(spell(xs, len(xs) - 1) == s)
        # (of a normal path other than the root)
        def component(i):
            h.assume(i == 0 or len(xs[i]) > 0)
            return xs[i]
        return FnSeq(len(xs), component) if one_by_one else xs
    h.on_method['split'] = split
    h.stub(os.path.abspath, lambda p: p)


@unit('path_components', ['bup.helpers:path_components'], search=False)
def u_components(h):
    path = h.input('path', Bytes)
    h.assume(normal(path))
    setup(h)
    h.loop('bup.helpers:path_components', 0, types={'result': Seq(COMP), 'full_path': Bytes, 'p': Bytes},
           inv=lambda L: L.result == [(b'', b'/')] + below(b'', parts(path), L.i) and L.full_path == spell(parts(path), L.i))
    got = path_components(path)
    if path == b'/':
        h.check(got == [(b'', b'/')], 'the root')
    else:
        h.check(got == [(b'', b'/')] + below(b'', parts(path), len(parts(path)) - 1), 'the root and each component with the path that leads to it')
        h.check(spell(parts(path), len(parts(path)) - 1) == path, 'which spell the path')


@unit('relative path', ['bup.helpers:path_components'], search=False)
def u_relative(h):
    path = h.input('path', Bytes)
    h.assume(not path.startswith(b'/'))
    exc, _ = h.raises(path_components, path)
    h.check(exc is not None, 'is refused')


def covers(bp, path):
    return path == bp or path.startswith(bp + b'/')


@unit('stripped_path_components', ['bup.helpers:stripped_path_components'], search=False, timeout=40)
def u_stripped(h):
    path = h.input('path', Bytes)
    h.assume(normal(path))
    setup(h, True)
    ys = h.input('prefixes', Seq(Bytes))
    j = h.input('j', Nat)               # any prefix
    h.assume(j < len(ys) and normal(ys[j]))

    def prefix(i):
        b = ys[i]
        h.assume(normal(b))
        # they are visited in order of length
        h.assume(implies(j >= i, len(ys[j]) <= len(b)) and implies(j == i, ys[j] == b))
        return b
    h.stub(builtins.sorted, lambda xs, key=None, reverse=False:
           FnSeq(len(ys), prefix) if key is len and reverse is True and xs is marker else h.check(False, 'longest first'))
    marker = object()
    plain = []

    def components(p):
        plain.append(p)
        return 'plain'
    h.stub(path_components, components)
    h.loop('bup.helpers:stripped_path_components', 0,
           types={'bp': Bytes, 'normalized_bp': Bytes, 'prefix': lambda e: None, 'result': lambda e: None, 'p': lambda e: None},
           inv=lambda L: implies(j < L.i and ys[j] != b'/', not covers(ys[j], path)))

    def rest(L):
        return parts(path[len(L.normalized_bp):])
    h.loop('bup.helpers:stripped_path_components', 1, types={'prefix': Bytes, 'result': Seq(COMP), 'p': Bytes},
           inv=lambda L: ite(L.i == 0, len(L.result) == 0 and L.prefix == L.normalized_bp,
                             L.result == [(b'', L.normalized_bp)] + below(L.normalized_bp, rest(L), L.i - 1)
                             and L.prefix == L.normalized_bp + spell(rest(L), L.i - 1)))
    got = stripped_path_components(path, marker)
    if plain:
        h.check(got == 'plain' and plain == [path], 'nothing stripped: the components of the path')
        h.check(ys[j] == b'/' or not covers(ys[j], path), 'and no prefix covers it')
    else:
        b = got[0][1]
        left = path[len(b):]
        h.check(exists(0, len(ys), lambda i: ys[i] == b), 'one of the prefixes')
        h.check(b != b'/' and covers(b, path), 'a prefix of whole components')
        h.check(implies(covers(ys[j], path), len(ys[j]) <= len(b)), 'the longest')
        h.check(got == [(b'', b)] + below(b, parts(left), len(parts(left)) - 1), 'its directory is the root, and below is what is left')
        h.check(spell(parts(left), len(parts(left)) - 1) == left, 'which spells the rest of the path')


# --- native: against component lists
NAMES = [b'a', b'ab', b'b', b'\\1', b'a.b', b'\\n', b'a b', b'\xff']


def text(cs):
    return b'/' + b'/'.join(cs)


def real(cs):
    """the components of a real path"""
    return [(b'', b'/')] + [(c, text(cs[:i + 1])) for i, c in enumerate(cs)]


def any_path(r, most=4):
    return [r.choice(NAMES) for _ in range(r.randrange(most + 1))]


def spelt(r, cs):
    """one of the ways to write it"""
    t = text(cs)
    return t + b'/' if r.random() < .3 and cs else t


def is_below(cs, pre):
    return cs[:len(pre)] == pre


SMALL = [list(x) for n in range(4) for x in itertools.product([b'a', b'ab'], repeat=n)]


def check_strip(h, path, pres):
    got = stripped_path_components(text(path), [text(p) for p in pres])
    best = max([p for p in pres if p and is_below(path, p)], key=lambda p: len(text(p)), default=[])
    want = real(path)[len(best):]
    want[0] = (b'', want[0][1])
    h.check(got == want, 'the longest prefix of whole components is taken away', detail=repr((path, pres, got)))


@unit('every small strip', ['bup.helpers:stripped_path_components'], prove=False, samples=400,
      cases=lambda tier: [{'path': p, 'pres': None} for p in SMALL])
def u_small_strip(h):
    path = h.any('path', any_path)
    pres = h.any('pres', lambda r: [any_path(r, 3) if r.random() < .5 else path[:r.randrange(5)] for _ in range(r.randrange(4))])
    if pres is not None:
        return check_strip(h, path, pres)
    for a in SMALL:
        for b in SMALL[:7]:
            check_strip(h, path, [a, b])


def check_graft(h, path, grafts, given=None):
    got = grafted_path_components([(text(o), text(n)) for o, n in grafts] if given is None else given, text(path))
    want = real(path)
    for old, new in grafts:
        if is_below(path, old):
            want = [(c, None) for c in ([b''] + new)[:len(new)]] + real(path)[len(old):]
            want[len(new)] = (([b''] + new)[-1], want[len(new)][1])
            break
    h.check(got == want, 'the old prefix is replaced by the new, and real directories are where they belong',
            detail=repr((path, grafts, got, want)))


@unit('every small graft', ['bup.helpers:grafted_path_components'], prove=False, samples=1500,
      cases=lambda tier: [{'path': p, 'grafts': None} for p in SMALL])
def u_small_graft(h):
    path = h.any('path', any_path)
    grafts = h.any('grafts', lambda r: [(any_path(r, 3) if r.random() < .4 else path[:r.randrange(5)], any_path(r, 3))
                                        for _ in range(r.choice([1, 1, 2, 3]))])
    if grafts is not None:
        seed = h.any('spelling', lambda r: r.randrange(2**32))
        import random
        r = random.Random(seed)
        return check_graft(h, path, grafts, [(spelt(r, o), spelt(r, n)) for o, n in grafts])
    for old in SMALL:
        for new in SMALL:
            check_graft(h, path, [(old, new)])


@unit('names of components', ['bup.helpers:path_components'], prove=False, samples=400,
      cases=lambda tier: [{'path': p} for p in SMALL])
def u_names(h):
    path = h.any('path', any_path)
    seed = h.any('spelling', lambda r: r.randrange(2**32))
    import random
    h.check(path_components(spelt(random.Random(seed), path)) == real(path), 'every component and its path')


# --- native: whole saves
@unit('saves', ['bup.cmd.save:main', 'bup.tree:Stack.push', 'bup.tree:Stack.pop', 'bup.helpers:stripped_path_components',
                'bup.helpers:grafted_path_components'], prove=False, samples=100, tmp=True)
def u_saves(h):
    """every file is found at its new place, with its content and the metadata of its real directory"""
    import random
    from bup import git, vfs
    from bup.repo import LocalRepo
    from pyvc.cli import bup
    r = random.Random(h.any('seed', lambda r: r.randrange(2**32)))
    base = [c for c in os.path.realpath(h.tmp).split(b'/') if c] + [b't']
    names = [b'a', b'ab', b'b', b'c']
    files, dirs = {}, {tuple(base)}
    for _ in range(r.choice([3, 8, 14])):
        cs = tuple(base) + tuple(r.choice(names) for _ in range(r.randrange(1, 4)))
        if any(cs[:n] in files for n in range(len(cs) + 1)) or cs in dirs:
            continue
        files[cs] = b'%d' % r.randrange(10**9)
        dirs |= {cs[:n] for n in range(len(base), len(cs))}
    for i, d in enumerate(sorted(dirs, key=len)):
        os.makedirs(text(d), exist_ok=True)
    for f, data in files.items():
        with open(text(f), 'wb') as o:
            o.write(data)
    uids = {}
    for i, d in enumerate(sorted(dirs, key=len, reverse=True)):
        uids[d] = 1000000000 + 1000 * i
        os.utime(text(d), (uids[d], uids[d]))
    below_base = sorted(d for d in dirs if len(d) > len(base))
    srcs = r.sample(below_base, r.randrange(1, min(4, len(below_base) + 1))) if below_base and r.random() < .8 else [tuple(base)]
    srcs = [s for s in srcs if not any(s != t and is_below(s, t) for t in srcs)]
    env = {b'BUP_DIR': h.tmp + b'/repo', b'HOME': h.tmp, b'XDG_CACHE_HOME': h.tmp + b'/cache', b'GIT_CONFIG_NOSYSTEM': b'1'}
    opts, kind = [], r.choice(['none', 'strip', 'strip-path', 'graft', 'graft'])
    grafts, pres = [], []
    if kind == 'strip':
        opts, pres = [b'--strip'], srcs
    elif kind == 'strip-path':
        p = tuple(base) + tuple(r.choice(names) for _ in range(r.randrange(2)))
        opts, pres = [b'--strip-path', text(p)], [p]
    elif kind == 'graft':
        news = [(b'x', b'z'), (b'w', b'y'), (b'w', b'q', b'y'), (b'x', b'n'), (b'm',), ()]
        for s in r.sample(sorted(dirs), min(len(dirs), r.randrange(1, 4))):
            n = news.pop(r.randrange(len(news)))
            grafts.append((s, n))
            opts += [b'--graft', text(s) + b'=' + text(n)]

    def place(cs):
        """-> ((name, real directory or None)... without the root, the root's real directory)"""
        comps = real(list(cs))
        for old, new in grafts:
            if is_below(cs, old):
                comps = [(c, None) for c in ([b''] + list(new))[:len(new)]] + real(list(cs))[len(old):]
                comps[len(new)] = (([b''] + list(new))[-1], comps[len(new)][1])
                return comps
        best = max([p for p in pres if p and is_below(cs, p)], key=len, default=())
        return comps[len(best):]
    # two real directories in one place are not claimed, except the root
    used, clash = {}, False
    for f in [f for f in files if any(is_below(f, s) for s in srcs)]:
        comps = place(f[:-1])
        for n in range(2, len(comps) + 1):
            at = tuple(c for c, _ in comps[1:n])
            clash |= used.setdefault(at, comps[n - 1][1]) != comps[n - 1][1]
        at = tuple(c for c, _ in comps[1:]) + (f[-1],)
        clash |= used.setdefault(at, f) != f
    # a place below a fake directory is met in another order than the real paths: only unmixed subtrees
    h.assume(not clash)
    for a in ([b'init'], [b'index', b'-u'] + [text(s) for s in srcs], [b'save', b'-n', b'm'] + opts + [text(s) for s in srcs]):
        rc, out, err = bup(a, env, before=lambda: setattr(__import__('time'), 'sleep', lambda s: None))
        h.check(rc == 0 or b'duplicate path' in err, 'saved', detail=repr((a, rc, err)))
        if rc:
            return      # one directory, met twice: refused, not misplaced
    with LocalRepo(h.tmp + b'/repo') as repo:
        vfs.clear_cache()
        found = {}

        def walk(item, at):
            for name, sub in vfs.contents(repo, item, want_meta=True):
                if name == b'.':
                    continue
                import stat
                if stat.S_ISDIR(vfs.item_mode(sub)):
                    walk(sub, at + (name,))
                else:
                    with vfs.fopen(repo, sub) as o:
                        found[at + (name,)] = o.read()
        top = vfs.resolve(repo, b'/m/latest')
        walk(top[-1][1], ())
        want = {tuple(c for c, _ in place(f[:-1])[1:]) + (f[-1],): data for f, data in files.items() if any(is_below(f, s) for s in srcs)}
        h.check(found == want, 'every file at its place, and nothing else', detail=repr((opts, srcs, found, want)))
        for f in files:
            if not any(is_below(f, s) for s in srcs):
                continue
            comps = place(f[:-1])
            for n in range(2, len(comps) + 1):
                item = vfs.resolve(repo, b'/m/latest/' + b'/'.join(c for c, _ in comps[1:n]))[-1][1]
                fs = comps[n - 1][1]
                meta = vfs.augment_item_meta(repo, item).meta
                if fs and tuple(c for c in fs.split(b'/') if c) in uids:
                    h.check(meta.mtime == uids[tuple(c for c in fs.split(b'/') if c)] * 10**9, 'the metadata of the real directory',
                            detail=repr((comps, meta)))
                elif fs is None:
                    h.check(meta.mtime in (None, 0), 'none for a directory that is not real', detail=repr((comps, meta)))
    vfs.clear_cache()
