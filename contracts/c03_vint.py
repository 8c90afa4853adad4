"""C03: variable-length integers, byte vectors and records decode to what was
encoded."""
from io import BytesIO
from pyvc.spec import *
from pyvc.harness import unit
from bup import vint

PROP = 'C03'
NOTE = ('Proved for all integers, byte strings and the record layouts listed: Python encoders and decoders '
        'against a recursive spec function (loop invariants), C encoders bit-precisely for every long long. '
        'Assumes the stream contract of read(); limited_vint_pack itself is compared by bounded evaluation.')
LOOPS = {'bup.vint': ['encode_vuint', 'read_vuint', 'read_vint']}
TRUSTED = ['the stream contract of Port: read(n) returns the next n bytes, fewer only at the end',
           'CBMC 6.11 (bit-precise, loops unwound past their width bound with unwinding assertions)',
           'Python C API stubs of cbmc/vint.c (argument parsing, bytes construction)']
ASSUME = ['Python integers are mathematical integers (they are); C long long is 64-bit, -fwrapv',
          'limited_vint_pack is compared with the encoders by bounded evaluation only']
CBMC = [
    dict(name='vint.c/vuint_encode', harness='vint.c', function='h_vuint', unwind=12,
         funcs=['_helpers.c:vuint_encode']),
    dict(name='vint.c/vint_encode', harness='vint.c', function='h_vint', unwind=12,
         funcs=['_helpers.c:vint_encode']),
    dict(name='vint.c/bup_vuint_encode', harness='vint.c', function='h_entry_vuint', unwind=12,
         funcs=['_helpers.c:bup_vuint_encode']),
    dict(name='vint.c/bup_vint_encode', harness='vint.c', function='h_entry_vint', unwind=12,
         funcs=['_helpers.c:bup_vint_encode']),
]


class Port:
    """The assumed contract of a binary stream: read(n) returns the next n
    bytes, fewer at the end."""
    def __init__(self, data):
        self.data = data
        self.pos = 0

    def read(self, n):
        r = self.data[self.pos:self.pos + n]
        self.pos = self.pos + len(r)
        return r

    def write(self, b):
        self.data = self.data + b


@rec(Nat, ret=Bytes)
def enc(x):
    return byte(x) if x < 128 else byte(x % 128 + 128) + enc(x // 128)


def encs(x):
    """the signed encoding"""
    return enc_sm(-x if x < 0 else x, 64 if x < 0 else 0)


def enc_sm(m, s):
    return byte(m + s) if m < 64 else byte(128 + s + m % 64) + enc(m // 64)


def _no_c(*_):
    raise OverflowError()


def _pure(h):
    """the C encoders give up on values over 63 bits: verify the Python path
    for every value (the C path is CBMC's)"""
    if h.symbolic:
        h.stub(vint._helpers.vuint_encode, _no_c)
        h.stub(vint._helpers.vint_encode, _no_c)
        h.stub(vint._helpers.limited_vint_pack, _no_c)


@unit('encode_vuint', ['bup.vint:encode_vuint'], samples=2000)
def u_encode(h):
    x = h.input('x', Nat)
    _pure(h)
    if h.symbolic:
        h.assume(x != 0)
    h.loop('bup.vint:encode_vuint', 0, types={'x': Nat, 'ret': Bytes},
           decreases=lambda L: L.x,
           inv=lambda L: L.x >= 0 and L.ret + enc(L.x) == enc(L.entry.x))
    h.check(vint.encode_vuint(x) == enc(x), 'encode_vuint(x) == enc(x)')


@unit('encode_vuint rejects negatives', ['bup.vint:encode_vuint'])
def u_encode_neg(h):
    x = h.input('x', Int)
    h.assume(x < 0)
    _pure(h)
    ex, r = h.raises(vint.encode_vuint, x)
    h.check(isinstance(ex, ValueError), 'encode_vuint raises ValueError for a negative value')


@unit('encode_vint', ['bup.vint:encode_vint'], samples=2000)
def u_encode_vint(h):
    x = h.input('x', Int)
    _pure(h)
    if h.symbolic:
        h.assume(x >= 64 or x <= -64)
        h.stub(vint.encode_vuint, enc_contract(h))
    h.check(vint.encode_vint(x) == encs(x), 'encode_vint(x) == encs(x)')


def enc_contract(h):
    def stub(v):
        h.check(v >= 0, 'requires of encode_vuint', 'pre')
        return enc(v)
    return stub


@unit('read_vuint', ['bup.vint:read_vuint'], samples=2000)
def u_read(h):
    x = h.input('x', Nat)
    tail = h.input('tail', Bytes)
    p = Port(enc(x) + tail)
    h.loop('bup.vint:read_vuint', 0, types={'c': Bytes, 'result': Nat, 'offset': Nat, 'b': Int},
           havoc={'port.pos': Nat}, decreases=lambda L: len(L.port.data) - L.port.pos,
           ghost={'rest': (Nat, lambda L: x, lambda L: L.rest // 128)},
           inv=lambda L: L.offset >= 0 and L.result >= 0 and L.result < 2 ** L.offset
           and L.port.pos >= 1 and L.port.pos <= len(L.port.data) and len(L.c) == 1
           and L.rest >= 0 and x == L.result + L.rest * 2 ** L.offset
           and L.c + L.port.data[L.port.pos:] == enc(L.rest) + tail)
    r = vint.read_vuint(p)
    h.check(r == x, 'read_vuint decodes enc(x) to x')
    h.check(p.data[p.pos:] == tail, 'read_vuint consumes exactly the encoding')


@unit('read_vint', ['bup.vint:read_vint'], samples=2000)
def u_read_vint(h):
    x = h.input('x', Int)
    tail = h.input('tail', Bytes)
    p = Port(encs(x) + tail)
    m = -x if x < 0 else x
    h.loop('bup.vint:read_vint', 0, types={'c': Bytes, 'result': Nat, 'offset': Nat, 'b': Int},
           havoc={'port.pos': Nat}, decreases=lambda L: len(L.port.data) - L.port.pos,
           ghost={'rest': (Nat, lambda L: m // 64, lambda L: L.rest // 128)},
           inv=lambda L: L.offset >= 0 and L.result >= 0 and L.result < 2 ** L.offset
           and L.port.pos >= 1 and L.port.pos <= len(L.port.data) and len(L.c) == 1
           and L.rest >= 0 and m == L.result + L.rest * 2 ** L.offset
           and L.negative == (x < 0)
           and L.c + L.port.data[L.port.pos:] == enc(L.rest) + tail)
    r = vint.read_vint(p)
    h.check(r == x, 'read_vint decodes encs(x) to x')
    h.check(p.data[p.pos:] == tail, 'read_vint consumes exactly the encoding')


@unit('reads at the end', ['bup.vint:read_vuint', 'bup.vint:read_vint', 'bup.vint:read_bvec',
                           'bup.vint:skip_bvec'])
def u_eof(h):
    which = h.choice('which', [vint.read_vuint, vint.read_vint, vint.read_bvec])
    h.check(which(Port(b'')) is None, 'reading at EOF gives None')
    ex, _ = h.raises(vint.skip_bvec, Port(b''))
    h.check(isinstance(ex, EOFError), 'skip_bvec at EOF raises EOFError')


def vuint_contract(h, script):
    """The contract of read_vuint, instantiated with the values the caller's
    stream holds: requires the next bytes to be enc(v), ensures the result."""
    def stub(port):
        v = script.pop(0)
        e = enc(v)
        h.check(port.data[port.pos:port.pos + len(e)] == e, 'requires of read_vuint', 'pre')
        port.pos = port.pos + len(e)
        return v
    return stub


def vint_contract(h, script):
    def stub(port):
        v = script.pop(0)
        e = encs(v)
        h.check(port.data[port.pos:port.pos + len(e)] == e, 'requires of read_vint', 'pre')
        port.pos = port.pos + len(e)
        return v
    return stub


@unit('read_bvec', ['bup.vint:read_bvec', 'bup.vint:encode_bvec', 'bup.vint:write_bvec'])
def u_bvec(h):
    b = h.input('b', Bytes)
    tail = h.input('tail', Bytes)
    _pure(h)
    if h.symbolic:
        h.stub(vint._helpers.vuint_encode, enc_contract(h))
        h.stub(vint.encode_vuint, enc_contract(h))
        h.stub(vint.read_vuint, vuint_contract(h, [len(b)]))
    e = vint.encode_bvec(b)
    w = Port(b'')
    vint.write_bvec(w, b)
    h.check(w.data == e, 'write_bvec writes encode_bvec')
    h.check(e == enc(len(b)) + b, 'encode_bvec(b) == enc(len(b)) + b')
    p = Port(e + tail)
    h.check(vint.read_bvec(p) == b, 'read_bvec returns the bytes')
    h.check(p.data[p.pos:] == tail, 'read_bvec consumes exactly the encoding')


@unit('skip_bvec', ['bup.vint:skip_bvec'])
def u_skip(h):
    b = h.input('b', Bytes)
    tail = h.input('tail', Bytes)
    p = Port(enc(len(b)) + b + tail)
    if h.symbolic:
        h.stub(vint.read_vuint, vuint_contract(h, [len(b)]))
    vint.skip_bvec(p)
    h.check(p.data[p.pos:] == tail, 'skip_bvec consumes exactly the encoding')


@unit('truncated bvec', ['bup.vint:read_bvec', 'bup.vint:skip_bvec'])
def u_trunc(h):
    n = h.input('n', Nat, gen=lambda r: r.randrange(300))
    b = h.input('b', Bytes)
    skip = h.choice('skip', [False, True])
    h.assume(len(b) < n)
    if h.symbolic:
        h.stub(vint.read_vuint, vuint_contract(h, [n]))
    ex, _ = h.raises(vint.skip_bvec if skip else vint.read_bvec, Port(enc(n) + b))
    h.check(isinstance(ex, EOFError), 'a truncated bvec raises EOFError')


def _layouts():
    return ['s', 'v', 'V', 'ss', 'vv', 'VV', 'svs', 'ssv', 'vVs', 'Vvsv', 'sss', 'vvsvsvvVvV',
            'vvVvsvsvVvVv']


def enc_item(t, v):
    if t == 'V':
        return enc(v)
    if t == 'v':
        return encs(v)
    return enc(len(v)) + v


@unit('records', ['bup.vint:pack', 'bup.vint:unpack', 'bup.vint:send', 'bup.vint:recv'],
      samples=3000)
def u_records(h):
    """every record layout used by the metadata format, and then some"""
    types = h.choice('types', _layouts())
    vals = []
    for i, t in enumerate(types):
        vals.append(h.input(f'v{i}', Nat if t == 'V' else Int if t == 'v' else Bytes))
    _pure(h)
    if h.symbolic:
        h.stub(vint.encode_vuint, enc_contract(h))
        h.stub(vint.encode_vint, encs)
        h.stub(vint._helpers.vuint_encode, enc_contract(h))
        script = []
        vscript = []
        for t, v in zip(types, vals):
            if t == 'v':
                vscript.append(v)
            else:
                script.append(v if t == 'V' else len(v))
        h.stub(vint.read_vuint, vuint_contract(h, script))
        h.stub(vint.read_vint, vint_contract(h, vscript))
        h.stub(vint.BytesIO, Port)
    want = b''
    for t, v in zip(types, vals):
        want = want + enc_item(t, v)
    e = vint.pack(types, *vals)
    h.check(e == want, 'pack is the concatenation of the item encodings')
    p = Port(b'')
    vint.send(p, types, *vals)
    h.check(p.data == want, 'send writes what pack returns')
    got = vint.unpack(types, e)
    h.check(len(got) == len(vals), 'unpack gives one value per type')
    for i in range(len(vals)):
        h.check(got[i] == vals[i], 'unpack returns the packed values')


def _trunc_cases(tier):
    xs = [1, 127, 128, 300, 16384, 2**32, 2**56, 2**63, 2**64, 2**70]
    for x in xs:
        for s in (1, -1):
            for k in range(1, 11):
                yield dict(x=x * s, k=k)


@unit('truncated integers', ['bup.vint:read_vuint', 'bup.vint:read_vint'], prove=False,
      cases=_trunc_cases, samples=500)
def u_trunc_int(h):
    x = h.input('x', Int)
    k = h.input('k', Nat, gen=lambda r: r.randrange(1, 11))
    fn, e = (vint.read_vint, encs(x))
    h.assume(k < len(e))
    ex, _ = h.raises(fn, BytesIO(e[:k]))
    h.check(isinstance(ex, EOFError), 'a truncated vint raises EOFError')
    if x >= 0 and k < len(enc(x)):
        ex, _ = h.raises(vint.read_vuint, BytesIO(enc(x)[:k]))
        h.check(isinstance(ex, EOFError), 'a truncated vuint raises EOFError')
