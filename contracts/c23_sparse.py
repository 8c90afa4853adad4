"""C23: sparse writing reproduces the data exactly."""
import os, tempfile
from pyvc import cli
from pyvc.spec import *
from pyvc.harness import unit
from bup import _helpers, vfs
from bup.cmd import restore
from bup.cmd.restore import write_file_content_sparsely

PROP = 'C23'
NOTE = ('Proved with loop and function contracts for every buffer (below 2**40 bytes), hole length, amount of pending zeros, short '
        'or failing write and failing seek, no bound: after write_sparsely the file holds, up to its end, exactly what was there, the '
        'pending zeros and the buffer, less the zeros it reports as pending; and that restore carries these on from buffer to buffer, '
        'for any number of buffers, and adds them at the end. Whole files through save and restore --sparse are evaluated: bounded.')
LOOPS = {'bup.cmd.restore': ['write_file_content_sparsely']}
TRUSTED = ['write(2) takes a prefix of what it is given, at the file offset; lseek(2) beyond the end leaves zeros to be read; '
           'the hole length is at least 1 (restore gives 512)']


def job(name, fn, func, loops=(), replace=(), **k):
    return dict(name='sparse.c/' + name, harness='sparse.c', function=fn, funcs=['_helpers.c:' + func], timeout=600,
                dfcc=dict(enforce=func, replace=list(replace), loops={func: [
                    dict(loop_id='0', **l) for l in loops]} if loops else None), **k)


def loop(func, invariants, assigns, names, decreases=None):
    d = dict(invariants=invariants, assigns=assigns, symbol_map=';'.join(
        f'{n},{func}::{p}{n}' for n, p in names.items()))
    if decreases:
        d['decreases'] = decreases
    return d


def O(p):
    return f'((unsigned long) {p})'


def order(*ps):
    """the pointers are in the same buffer, in this order"""
    return ' && '.join([f'__CPROVER_same_object({p}, {ps[0]})' for p in ps[1:]] +
                       [f'{O(a)} <= {O(b)}' for a, b in zip(ps, ps[1:])])


def zero(a, b):
    return f"(!({O('gp')} >= {O(a)} && {O('gp')} < {O(b)}) || *gp == 0)"


CBMC = [
    job('write_all', 'h_write_all', 'write_all', [loop(
        'write_all', 'written <= count && pos <= 0x7fffffffffffffffULL && '
        'extent == (written ? pos : __CPROVER_loop_entry(extent)) && extent <= pos && pos - __CPROVER_loop_entry(pos) == written && pos >= __CPROVER_loop_entry(pos) && '
        'at_G == (G >= __CPROVER_loop_entry(pos) && G - __CPROVER_loop_entry(pos) < written ? '
        '((const unsigned char *) buf)[G - __CPROVER_loop_entry(pos)] : __CPROVER_loop_entry(at_G))',
        'written, pos, at_G, extent', {'written': '1::', 'count': '', 'buf': ''})]),
    job('append_sparse_region', 'h_append', 'append_sparse_region', [loop(
        'append_sparse_region',
        'n <= __CPROVER_loop_entry(n) && pos <= 0x7fffffffffffffffULL && pos >= __CPROVER_loop_entry(pos) && raised == __CPROVER_loop_entry(raised) && '
        'pos - __CPROVER_loop_entry(pos) == __CPROVER_loop_entry(n) - n',
        'n, pos, raised', {'n': ''}, decreases='n')]),
    job('record_sparse_zeros', 'h_record', 'record_sparse_zeros', replace=['append_sparse_region']),
    job('find_not_zero', 'h_not_zero', 'find_not_zero', [loop(
        'find_not_zero', order('start', 'cur', 'end') + ' && ' + zero('start', 'cur'),
        'cur', {'cur': '1::', 'start': '', 'end': ''}, decreases=f"{O('end')} - {O('cur')}")]),
    job('find_trailing_zeros', 'h_trailing', 'find_trailing_zeros', [loop(
        'find_trailing_zeros',
        order('start', 'cur', 'end') + ' && ' + zero('cur', 'end') + f" && ({O('cur')} == {O('end')} || *cur == 0)",
        'cur', {'cur': '1::', 'start': '', 'end': ''}, decreases=f"{O('cur')} - {O('start')}")]),
    job('find_non_sparse_end', 'h_end', 'find_non_sparse_end', [loop(
        'find_non_sparse_end',
        order('start', 'candidate', 'end_of_known_zeros', 'end') + ' && ' +
        f"{O('end_of_known_zeros')} - {O('candidate')} < (unsigned long) min_len && " +
        f"({O('candidate')} == {O('end_of_known_zeros')} || *candidate == 0) && "
        f"({O('candidate')} != {O('start')} || {O('end_of_known_zeros')} == {O('start')}) && " +
        zero('candidate', 'end_of_known_zeros'),
        'candidate, end_of_known_zeros, untouched',
        {'candidate': '1::', 'end_of_known_zeros': '1::', 'start': '', 'end': '', 'min_len': ''},
        decreases=f"{O('end')} - {O('candidate')}")], replace=['find_trailing_zeros']),
    job('bup_write_sparsely', 'h_sparse', 'bup_write_sparsely', [loop(
        'bup_write_sparsely',
        order('buf', 'block', 'end') + ' && pos >= pos0 && pos <= 0x7fffffffffffffffULL && extent == pos && raised == 0 && '
        f"(unsigned __int128) pos + zeros == (unsigned __int128) pos0 + prev0 + ({O('block')} - {O('buf')}) && "
        'at_G == (G < pos ? (G < pos0 ? at_G0 : G < (unsigned __int128) pos0 + prev0 ? 0 : *gp) : 0) && '
        '(!(G >= pos && G < (unsigned __int128) pos + zeros) || '
        '(G < (unsigned __int128) pos0 + prev0 ? 0 : *gp) == 0)',
        'block, zeros, pos, at_G, extent, raised, untouched',
        {'block': '1::', 'zeros': '1::', 'buf': '1::', 'end': '1::'}, decreases=f"{O('end')} - {O('block')}")],
        replace=['find_non_sparse_end', 'append_sparse_region', 'write_all', 'find_not_zero', 'record_sparse_zeros'],
        args=['--object-bits', '9', '--sat-solver', 'cadical']),
]


chunk = ufn('chunk', [Int], Bytes)


# --- restore: the zeros that are pending go from call to call and are added at the end
@unit('write_file_content_sparsely', ['bup.cmd.restore:write_file_content_sparsely'], search=False)
def u_restore(h):
    n = h.input('n', Nat)
    chunks = FnSeq(n, chunk)

    class St:
        def __init__(s):
            s.n, s.pending, s.end, s.closed, s.size = 0, 0, None, 0, None
    st = St()

    class Reader:
        def __enter__(self): return self
        def __exit__(self, *a): return False
    h.stub(vfs.fopen, lambda repo, f: Reader())
    h.stub(restore.chunkyreader, lambda f: chunks)
    h.stub(os.open, lambda path, flags, mode: (h.check(
        path == b'dest' and bool(flags & os.O_TRUNC) and bool(flags & os.O_CREAT), 'into an empty file'), st)[1])

    def write_sparsely(fd, b, least, pending):
        h.check(fd is st and least > 0, 'into that file')
        h.check(b == chunk(st.n), 'each buffer, in order')
        h.check(pending == st.pending, 'with the zeros left over from the last')
        st.n = st.n + 1
        st.pending = h.fresh('pending', Nat)
        return st.pending
    h.stub(restore.write_sparsely, write_sparsely)

    def lseek(fd, by, whence):
        h.check(fd is st and whence == os.SEEK_END and by == st.pending and st.n == n, 'beyond the end by the zeros pending')
        st.end = h.fresh('end', Nat)
        return st.end
    h.stub(os.lseek, lseek)

    def ftruncate(fd, size):
        h.check(fd is st and st.end is not None and size == st.end, 'the file ends there')
        st.size = size
    h.stub(os.ftruncate, ftruncate)

    def close(fd):
        h.check(fd is st, 'that file')
        st.closed += 1
    h.stub(os.close, close)
    h.loop('bup.cmd.restore:write_file_content_sparsely', 0, types={'trailing_zeros': Nat, 'b': lambda e: None},
           havoc={'outfd.n': Nat, 'outfd.pending': Nat},
           inv=lambda L: st.n == L.idx and L.trailing_zeros == st.pending)
    write_file_content_sparsely(None, b'dest', None)
    h.check(st.size is not None and st.closed == 1, 'the end is set, the file closed')


# --- native
def pattern(r, n):
    """zero runs and data around the hole length"""
    out = b''
    while len(out) < n:
        k = r.choice([1, 2, 3, 7, 8, 9, 15, 16, 17, 511, 512, 513, 1023, 1024, 1025, r.randint(1, 3000)])
        if r.random() < .5:
            out += b'\0' * k
        else:
            k = min(k, r.choice([1, 2, 20, 3000]))
            out += bytes(r.choice([1, 255, 0, 1]) for _ in range(k)) if r.random() < .5 else b'x' * k
    return out[:n] if r.random() < .7 else out


def gen_write(r):
    data = pattern(r, r.choice([0, 1, 5, 20, 300, 5000]))
    if r.random() < .3:
        data = bytes(r.choice([0, 0, 1]) for _ in range(r.randint(0, 12)))
    cuts = sorted(r.randint(0, len(data)) for _ in range(r.choice([0, 1, 2, 5, 30])))
    return dict(data=data, cuts=cuts, least=r.choice([1, 2, 3, 4, 8, 16, 512, r.randint(1, 1000)]),
                before=r.choice([b'', b'abc', b'\0\0']))


def all_write(tier):
    import itertools
    for n in range(6 if tier == 'quick' else 9):
        for d in itertools.product(b'\0x', repeat=n):
            for least in (1, 2, 3):
                for cuts in ([], [1], [2], [1, 3]):
                    yield {'write': dict(data=bytes(d), cuts=[c for c in cuts if c <= n], least=least, before=b'')}


@unit('write_sparsely', ['_helpers.c:bup_write_sparsely'], prove=False, samples=1500, cases=all_write)
def u_write(h):
    w = h.any('write', gen_write)
    data, cuts, least, before = w['data'], w['cuts'], w['least'], w['before']
    with tempfile.TemporaryFile() as f:
        fd = f.fileno()
        os.write(fd, before)
        pending = 0
        done = 0
        for a, b in zip([0] + cuts, cuts + [len(data)]):
            pending = _helpers.write_sparsely(fd, data[a:b], least, pending)
            done = b
            h.check(os.lseek(fd, 0, os.SEEK_CUR) + pending == len(before) + done, 'the file offset and the zeros pending add up')
            h.check(os.fstat(fd).st_size + pending == len(before) + done, 'nothing is beyond the file offset')
        os.ftruncate(fd, os.lseek(fd, pending, os.SEEK_END))
        h.check(os.pread(fd, len(before) + len(data) + 10, 0) == before + data, 'the file reads back as the data')


@unit('write_sparsely fails', ['_helpers.c:bup_write_sparsely', '_helpers.c:append_sparse_region'], prove=False, samples=20)
def u_fails(h):
    """a file that cannot seek or be written: an error, no silent loss"""
    r = h.rng
    data = b'\0' * r.choice([1, 600]) + b'x' * r.randint(1, 600)
    a, b = os.pipe()
    try:
        ex, got = h.raises(_helpers.write_sparsely, b, data, 512, r.choice([0, 5]))
        h.check(isinstance(ex, OSError), 'a hole in a pipe is an error', detail=repr((ex, got)))
        ex, got = h.raises(_helpers.write_sparsely, a, b'x', 512, 0)
        h.check(isinstance(ex, OSError), 'a failing write is an error', detail=repr((ex, got)))
    finally:
        os.close(a)
        os.close(b)


@unit('restore --sparse', ['bup.cmd.restore:write_file_content_sparsely', 'bup.cmd.restore:restore', 'bup.helpers:chunkyreader'],
      prove=False, samples=3, tmp=True, weight=2)
def u_cli(h):
    r, t = h.rng, h.tmp
    files = {b'f%d' % i: pattern(r, n) for i, n in enumerate([0, 1, 600, 5000, 70000, r.randint(0, 300000)])}
    files[b'holes'] = b'\0' * r.choice([512, 65536, 100000, 1 << 20])
    files[b'tail'] = b'a' * r.choice([65536, 65535, 10]) + b'\0' * r.choice([511, 512, 65536, 200000])
    os.mkdir(t + b'/src')
    for n, d in files.items():
        with open(t + b'/src/' + n, 'wb') as f:
            f.write(d)
    e = {b'BUP_DIR': t + b'/b'}
    for c in (['init'], ['index', '-u', t + b'/src'], ['save', '-n', 's', '--strip', t + b'/src'],
              ['restore', '--sparse', '-C', t + b'/out', '/s/latest/.']):
        rc, o, x = cli.bup(c, e)
        h.check(rc == 0, 'works', detail=repr((c, rc, x[-500:])))
    got = {}
    for n in os.listdir(t + b'/out'):
        with open(t + b'/out/' + n, 'rb') as f:
            got[n] = f.read()
    h.check(got == files, 'every file reads back as it was saved',
            detail=repr([(n, len(files.get(n, b'')), len(got.get(n, b''))) for n in set(got) | set(files) if got.get(n) != files.get(n)]))
