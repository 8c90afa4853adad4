"""C21: commits parse back to what was written."""
import builtins, os, re, time
from binascii import hexlify
from pyvc.spec import *
from pyvc.harness import unit
from bup import commit, helpers
from bup.commit import create_commit_blob, parse_commit, parse_commit_gpgsig, parse_tz_offset, _git_date_str

PROP = 'C21'
NOTE = ('Proved for every tree, parent, name, date and message: create_commit_blob writes the fields in the form git defines, and '
        'parse_commit returns what the fields of a commit of that form are, given what the regular expression does. The zone '
        'offset codec is evaluated for every offset that its four digits can hold (complete). The regular expression, signatures, '
        'merge tags and the local time zone are evaluated on generated commits: bounded.')
ASSUME = ['the regular expressions split a commit of the canonical form into its fields (evaluated)',
          'int() of the decimal digits of a number is the number']

tz = ufn('tz', [Int], Bytes)
hexof = ufn('hexof', [Bytes], Bytes)
local_tz = ufn('local_tz', [Int], Bytes)
off_of = ufn('off_of', [Bytes], Int)
digits = ufn('digits', [Int], Bytes)
num = ufn('num', [Bytes], Int)


class Match:
    def __init__(self, d): self.d = d
    def groupdict(self, default=None): return dict(self.d)
    def group(self, *ks): return self.d[ks[0]] if len(ks) == 1 else tuple(self.d[k] for k in ks)


@unit('create then parse', ['bup.commit:create_commit_blob', 'bup.commit:parse_commit', 'bup.commit:_local_git_date_str'],
      search=False)
def u_create(h):
    tree = h.input('tree', FixedBytes(20))
    parent = h.input('parent', FixedBytes(20)) if h.choice('has parent', [False, True]) else None
    names = [h.input(k, Bytes) for k in ('author name', 'author mail', 'committer name', 'committer mail')]
    secs = [h.input('asec', Nat), h.input('csec', Nat)]
    offs = [h.input(k, Int) if h.choice('given ' + k, [True, False]) else None for k in ('aoff', 'coff')]
    msg = h.input('message', Bytes)

    def datestr(sec, off):
        return digits(sec) + b' ' + tz(off)
    zones = []
    for s, o in zip(secs, offs):
        h.assume(num(digits(s)) == s)
        if o is None:
            zones.append(local_tz(s))
        else:
            h.assume(off_of(tz(o)) == o)
            zones.append(tz(o))
    h.stub(commit._git_date_str, datestr)
    h.stub(commit._local_git_date_str, lambda s: digits(s) + b' ' + local_tz(s))
    h.stub(commit.hexlify, lambda b: hexof(b))
    blob = create_commit_blob(tree, parent, names[0] + b' <' + names[1] + b'>', secs[0], offs[0],
                              names[2] + b' <' + names[3] + b'>', secs[1], offs[1], msg)
    parents = b'' if parent is None else b'parent ' + hexof(parent) + b'\n'
    want = b'tree ' + hexof(tree) + b'\n' + parents \
        + b'author ' + names[0] + b' <' + names[1] + b'> ' + digits(secs[0]) + b' ' + zones[0] + b'\n' \
        + b'committer ' + names[2] + b' <' + names[3] + b'> ' + digits(secs[1]) + b' ' + zones[1] + b'\n\n' + msg
    h.check(blob == want, 'the commit has the form git defines')

    def match(rx, s, *a):
        h.check(s == want, 'the commit is parsed')
        return Match(dict(tree=hexof(tree), parents=parents, author_name=names[0], author_mail=names[1], asec=digits(secs[0]),
                          atz=zones[0], committer_name=names[2], committer_mail=names[3], csec=digits(secs[1]),
                          ctz=zones[1], mergetag=b'', gpgsig=None, message=msg))

    def findall(rx, s):
        h.check(s == parents, 'parents come from the parent lines')
        return [] if parent is None else [hexof(parent)]
    h.stub(re.match, match)
    h.stub(re.findall, findall)
    h.stub(builtins.int, lambda s, *a: num(s))
    h.stub(commit.parse_tz_offset, lambda s: off_of(s))
    got = parse_commit(blob)
    h.check(got.tree == hexof(tree), 'tree')
    h.check(len(got.parents) == (0 if parent is None else 1), 'as many parents')
    if parent is not None:
        h.check(got.parents[0] == hexof(parent), 'parent')
    h.check(got.author_name == names[0] and got.author_mail == names[1], 'author')
    h.check(got.committer_name == names[2] and got.committer_mail == names[3], 'committer')
    h.check(got.author_sec == secs[0] and got.committer_sec == secs[1], 'dates')
    h.check(got.author_offset == (off_of(zones[0]) if offs[0] is None else offs[0])
            and got.committer_offset == (off_of(zones[1]) if offs[1] is None else offs[1]), 'zones')
    h.check(got.message == msg, 'message')
    h.check(got.gpgsig is None, 'no signature')


@unit('every offset', ['bup.commit:_git_date_str', 'bup.commit:parse_tz_offset'], prove=False,
      cases=lambda tier: [{'hours': x} for x in range(-99, 100)], samples=0)
def u_offsets(h):
    hours = h.any('hours', lambda r: 0)
    for m in range(60):
        if hours < 0:
            m = -m
        for off in {(hours * 60 + m) * 60} | ({-m * 60} if hours == 0 else set()):
            s = _git_date_str(12345, off)
            h.check(re.fullmatch(br'12345 [-+]\d\d[0-5]\d', s) is not None, 'a date in the form git defines', detail=repr(s))
            h.check((s[6:7] == b'-') == (off < 0), 'the sign of the offset')
            h.check(int(s[7:9]) * 60 + int(s[9:]) == abs(off) // 60, 'hours and minutes')
            h.check(parse_tz_offset(s[6:]) == off, 'the offset is read back', detail=repr((off, s)))


# --- native
NAMES = [b'A', b'Some One', b'Jr.', b'Some One Jr.', b'"Bob"', b'a', b'ab', b'abc', b"o'neil", b'\xc3\xa9\xff', b' x', b'x ',
         b'a,b', b';', b'user:x', b'', b'x' * 300, b'tree', b'author x', b'a  b']
MSGS = [b'', b'\n', b'm', b'm\n', b'\n\nm', b'gpgsig x\n y\n', b'gpgsig x', b'tree ' + b'a' * 40, b'parent ' + b'b' * 40 + b'\n',
        b'\0\xff', b'a\r\nb', b'\nmergetag object ' + b'a' * 40, b'mergetag object ' + b'a' * 40, b' x', b'author a <b> 1 +0000',
        b'x\n' * 4000]
ZONES = [('AAA0', 0), ('AAA-05:30', 19800), ('AAA+03:30', -12600), ('AAA12', -43200), ('AAA-14', 50400), ('AAA+00:30', -1800),
         ('AAA-00:01', 60)]


def in_zone(name, f):
    old = os.environ.get('TZ')
    os.environ['TZ'] = name
    try:
        time.tzset()
        return f()
    finally:
        if old is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = old
        time.tzset()


def gen_sig(r):
    return b'-----BEGIN PGP SIGNATURE-----\n' + b'\n'.join(
        r.choice([b'', b'iQ=', b'abc def', b' lead', b'gpgsig x', b'author a <b> 1 +0000']) for _ in range(r.choice([1, 3, 9]))) \
        + b'\n-----END PGP SIGNATURE-----'


@unit('commits', ['bup.commit:create_commit_blob', 'bup.commit:parse_commit', 'bup.commit:parse_commit_gpgsig',
                  'bup.commit:parse_tz_offset', 'bup.commit:_git_date_str', 'bup.commit:_local_git_date_str',
                  'bup.helpers:utc_offset_str'], prove=False, samples=4000)
def u_commits(h):
    a = h.any('author', lambda r: (r.choice(NAMES), r.choice([b'a@b', b'', b'x.', b'u@[::1]', b'a b'])))
    c = h.any('committer', lambda r: (r.choice(NAMES), r.choice([b'a@b', b'', b'x.', b'u@[::1]', b'a b'])))
    sec = lambda r: r.choice([0, 1, 2**31 - 1, 2**31, 1700000000, r.randrange(2**33)])
    asec, csec = h.any('asec', sec), h.any('csec', sec)
    off = lambda r: r.choice([None, 0, 60, -60, 3600, -3600, -12600, 20700, -34200, 50400, 60 * r.randrange(-5999, 6000)])
    aoff, coff = h.any('aoff', off), h.any('coff', off)
    tree, parent = h.any('tree', lambda r: r.randbytes(20)), h.any('parent', lambda r: r.choice([None, r.randbytes(20)]))
    msg = h.any('message', lambda r: r.choice(MSGS) if r.random() < .7 else r.randbytes(r.randrange(40)))
    zone, zoff = h.any('zone', lambda r: r.choice(ZONES))
    more = h.any('extra parents', lambda r: [r.randbytes(20) for _ in range(r.choice([0, 0, 1, 4]))])
    tag = h.any('merge tag', lambda r: r.random() < .2)
    sig = h.any('signature', lambda r: gen_sig(r) if r.random() < .4 else None)
    blob = in_zone(zone, lambda: create_commit_blob(tree, parent, b'%s <%s>' % a, asec, aoff, b'%s <%s>' % c, csec, coff, msg))
    ps = [parent] if parent else []
    if more:        # as other writers of commits have them
        i = blob.index(b'\nauthor ')
        blob = blob[:i] + b''.join(b'\nparent ' + hexlify(p) for p in more) + blob[i:]
        ps += more
    i = blob.index(b'\n\n')
    if tag:
        t = b'\nmergetag object ' + b'a' * 40 + b'\n type commit\n tag v1\n tagger x <y> 1 +0000\n \n some\n \n text'
        blob = blob[:i] + t + blob[i:]
        i += len(t)
    if sig:
        blob = blob[:i] + b'\ngpgsig ' + sig.replace(b'\n', b'\n ') + blob[i:]
    got = parse_commit(blob)
    h.check(got.tree == hexlify(tree), 'tree')
    h.check(got.parents == [hexlify(p) for p in ps], 'parents, in order')
    h.check((got.author_name, got.author_mail) == a, 'author', detail=repr(got))
    h.check((got.committer_name, got.committer_mail) == c, 'committer', detail=repr(got))
    h.check((got.author_sec, got.committer_sec) == (asec, csec), 'dates')
    h.check(got.author_offset == (zoff if aoff is None else aoff), 'zone of the author', detail=repr((got.author_offset, aoff, zone)))
    h.check(got.committer_offset == (zoff if coff is None else coff), 'zone of the committer')
    h.check(got.message == msg, 'message', detail=repr(got.message))
    if sig:
        h.check(got.gpgsig is not None and got.gpgsig.rstrip(b'\n') == sig, 'signature', detail=repr(got.gpgsig))
    else:
        h.check(got.gpgsig is None, 'no signature')


@unit('not commits', ['bup.commit:parse_commit'], prove=False, samples=1500)
def u_not(h):
    """what is not a commit is refused, not read as one"""
    blob = create_commit_blob(b'\1' * 20, b'\2' * 20, b'a <b>', 5, 0, b'c <d>', 6, 60, b'm')
    head = blob[:-1]
    cut = h.any('cut', lambda r: r.randrange(len(head)))
    ex, got = h.raises(parse_commit, blob[:cut])
    h.check(ex is not None, 'a cut commit is refused', detail=repr((blob[:cut], got)))
    bad = h.any('bad', lambda r: r.choice([b'tree', b'parent 02', b'author ', b'committer ', b'> 5 +', b'> 6 +00']))
    i = blob.index(bad)
    ex, got = h.raises(parse_commit, blob[:i] + b'!' + blob[i + 1:])
    h.check(ex is not None, 'a malformed header is refused', detail=repr((bad, got)))


@unit('commit messages', ['bup.commit:commit_message', 'bup.commit:has_trailers'], prove=False, samples=1000)
def u_messages(h):
    msg = h.any('message', lambda r: r.choice([b'', b'bup save', b'a\n\nb\n', b'x\n\nKey: v', b'x\n\nKey: v\n', b'no key : v', b'  \n']))
    argv = h.any('argv', lambda r: r.choice([[], [b'bup', b'save'], [b'bup', b'a b', b"it's", b'\xff\n']]))
    extra = h.any('extra', lambda r: r.choice([None, [], [b'Bup-Get: x'.replace(b' ', b'')]]))
    got = commit.commit_message(msg, argv, extra)
    h.check(got.startswith(msg.rstrip()), 'the message given comes first')
    lines = got.split(b'\n')
    tail = [b'Bup-Version: ' + commit.version]
    i = lines.index(tail[0])
    h.check(lines[i + 1].startswith(b'Bup-Argv: '), 'what made the commit follows')
    h.check(not extra or lines[-len(extra):] == extra, 'then what was asked for')
    h.check(got.split(b'\nBup-Version: ')[0].rstrip() == msg.rstrip(), 'and nothing else')
