"""C19: remote URLs parse and render consistently."""
from ipaddress import IPv4Address, IPv6Address
import ipaddress, random
from pyvc.spec import *
from pyvc.harness import unit
from bup import config, url
from bup.url import URL, parse_path_oriented_url, render_url

PROP = 'C19'
NOTE = ('Proved for every scheme, user, host name, port and path of any length: what render_url writes, parse_path_oriented_url '
        'takes apart into the same values, given what the two regular expressions and percent encoding of a component do; '
        'those, IP address hosts, malformed ports and hosts, and the remote option on top are evaluated on generated and '
        'enumerated values: bounded.')
ASSUME = ['a percent encoded component contains no "/", ":", "@" or "[", is empty exactly when the component is, '
          'and decodes to it (evaluated)',
          'the regular expressions split a URL into scheme, slashes and rest, and an authority made of such components into '
          'user, host and port (evaluated)', 'int() of the decimal digits of a number is the number']

enc = ufn('pct', [Bytes], Bytes)


def encoded(h, x):
    """the contract of percent encoding"""
    e = enc(x)
    h.assume(b':' not in e)
    h.assume(e[:1] != b'[')
    h.assume((len(e) == 0) == (len(x) == 0))
    return e


class Rest:
    """what follows scheme://, of which it is known that the first slash ends the authority"""
    def __init__(self, auth, path):
        self.auth, self.path = auth, path

    def partition(self, sep):
        if sep != b'/':
            unknown('partition')
        if len(self.path) > 0:
            return self.auth, b'/', self.path[1:]
        return self.auth, b'', b''


class Match:
    def __init__(self, gs):
        self.gs = gs

    def group(self, *ks):
        return self.gs[ks[0] - 1] if len(ks) == 1 else tuple(self.gs[k - 1] for k in ks)

    def groups(self, default=None):
        return tuple(default if g is None else g for g in self.gs)


class Rx:
    def __init__(self, f):
        self.fullmatch = f


@unit('render then parse', ['bup.url:render_url', 'bup.url:parse_path_oriented_url', 'bup.url:dot_encode_path'],
      search=False, timeout=40)
def u_round(h):
    scheme = h.input('scheme', Bytes)
    user = h.input('user', Bytes)
    host = h.input('host', Bytes)
    path = h.input('path', Bytes)
    port = h.input('port', Nat) if h.choice('port', [False, True]) else None
    dot = h.choice('dot encode', [False, True])
    h.assume(len(scheme) > 0 and b':' not in scheme)
    h.assume(path[:3] != b'/./')    # the notation of a relative path
    euser, ehost = encoded(h, user), encoded(h, host)
    u = object.__new__(URL)
    for k, v in dict(scheme=scheme, user=user, host=host, port=port, path=path).items():
        object.__setattr__(u, k, v)
    h.patch(url, _pct_encode=lambda x, rx: encoded(h, x))
    ex, text = h.raises(render_url, u, dot)
    auth = len(user) > 0 or len(host) > 0 or port is not None
    if ex is not None:
        h.check(auth and not dot and len(path) > 0 and path[:1] != b'/', 'only a relative path with an authority cannot be rendered')
        return

    def authority():
        r = euser + b'@' if len(user) > 0 else b''
        return r + ehost if port is None else r + ehost + b':' + b'%d' % port

    def scheme_rx(t):
        h.check(t[:len(scheme) + 1] == scheme + b':', 'the scheme comes first')
        rest = t[len(scheme) + 1:]
        if rest[:2] == b'//':
            tail = b'/./' + path if dot and auth and len(path) > 0 and path[:1] != b'/' else path
            h.check(rest[2:] == authority() + tail, 'the authority, then the path')
            h.check(len(tail) == 0 or tail[:1] == b'/', 'the path starts with the slash that ends the authority')
            return Match((scheme, b'//', Rest(authority(), tail)))
        return Match((scheme, None, rest))

    def auth_rx(t):
        h.check(t == authority(), 'the authority')
        eu = None
        if len(user) > 0:
            eu = euser
        if port is not None:
            h.assume(len(b'%d' % port) > 0)
        return Match((eu, ehost, None if port is None else b'%d' % port))

    def unquote(x):
        h.check(x == euser or x == ehost, 'what was encoded is decoded')
        if x == euser:
            h.assume(implies(euser == ehost, user == host))
            return user
        return host
    def number(t):
        h.check(port is not None and t == b'%d' % port, 'the port is read from its digits')
        return port
    h.stub(int, number)
    h.patch(url, _scheme_and_rest_rx=Rx(scheme_rx), _userinfo_host_port_rx=Rx(auth_rx),
            _host_reg_name_rx=Rx(lambda t: h.check(t == ehost, 'the host is checked') or True), unquote_to_bytes=unquote)

    def not_an_address(a):
        raise ValueError('not an address')
    h.patch(url, ip_address=not_an_address)
    got = parse_path_oriented_url(text)
    h.check(isinstance(got, URL), 'a rendered URL is a URL')
    h.check(got.scheme == scheme, 'the scheme')
    h.check(got.user == user, 'the user')
    h.check(got.host == host, 'the host')
    h.check((got.port is None) == (port is None) and (port is None or got.port == port), 'the port')
    h.check(got.path == path, 'the path')


CHARS = b'ab/:@%[].-_~!$&\'()*+,;=? #\\"\n\r\t\0\x7f\x80\xff0'


def text(r, n=None):
    return bytes(r.choice(CHARS) for _ in range(r.choice([0, 0, 1, 1, 2, 4, 9]) if n is None else n))


def gen_host(r):
    k = r.random()
    if k < .15:
        return IPv4Address(r.choice([0, 1, 2**32 - 1, r.randrange(2**32)]))
    if k < .35:
        a = IPv6Address(r.choice([0, 1, 2**128 - 1, r.randrange(2**128), 0xffff << 32 | 5, 0xfe80 << 112 | 1]))
        return IPv6Address(str(a) + '%eth0') if r.random() < .1 else a
    return r.choice([b'', b'h', b'host.example', text(r), text(r)])


def gen_url(r):
    path = r.choice([b'', b'/', b'p', b'/p', b'//p', b'///', b'./p', b'.', b'/.', b'..//x', b'/x/./y', b'/\n', text(r), b'/' + text(r), b'//' + text(r)])
    return dict(scheme=r.choice([b'ssh', b'x', b'Bup-rev', b'f+i.l-e9']), host=gen_host(r), path=path,
                port=r.choice([None, None, 0, 1, 22, 80, 65535, 99999]), user=r.choice([b'', b'', b'u', b'u:p', b'u@v', b'%75', text(r)]))


def looks_like_address(b):
    try:
        ipaddress.ip_address(b.decode('ascii'))
        return True
    except ValueError:
        return False


def one_char(tier):
    for c in range(256):
        c = bytes([c])
        for d in (dict(user=c), dict(host=c), dict(path=c), dict(path=b'/' + c), dict(user=c, host=c, path=b'/' + c, port=7), dict(path=b'/a' + c + b'b'),
                  dict(user=b'a' + c + b'b', host=b'a' + c + b'b')):
            yield {'u': dict(dict(scheme=b'ssh', host=b'', path=b'', port=None, user=b''), **d)}
    for p in range(0, 65536, 257):
        yield {'u': dict(scheme=b'ssh', host=b'h', path=b'', port=p, user=b'')}


@unit('URL values', ['bup.url:render_url', 'bup.url:parse_path_oriented_url'], prove=False, samples=6000, cases=one_char)
def u_values(h):
    d = h.any('u', gen_url)
    h.assume(not d['path'].startswith(b'/./') and d['path'] != b'/.' or d['path'] == b'/.')
    h.assume(not (isinstance(d['host'], bytes) and looks_like_address(d['host'])))
    u = URL(**d)
    for dot in (False, True):
        try:
            t = render_url(u, dot_encode=dot)
        except ValueError:
            h.check(not dot and not u.path.startswith(b'/') and bool(u.path) and u._has_auth(), 'only a relative path with an authority cannot be rendered')
            continue
        got = parse_path_oriented_url(t)
        h.check(got == u and type(got.host) is type(u.host), 'parsing what was rendered gives the same value', detail=f'{u} {t} {got}')
        got = parse_path_oriented_url(t, require_auth=True)
        h.check(got == u if t[len(u.scheme):len(u.scheme) + 3] == b'://' else got is None, 'an authority is required exactly when asked')


def gen_text(r):
    good = render_url(URL(**dict(gen_url(r), path=b'/' + text(r))))
    b = bytearray(good)
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        i = r.randrange(len(b) + 1)
        if r.random() < .5:
            b[i:i + 1] = b''
        else:
            b[i:i] = bytes([r.choice(CHARS)])
    return bytes(b) if r.random() < .8 else r.choice([b'ssh', b'x:', b'ssh://']) + text(r, 12)


def expected(t):
    """the URL a text is, computed from the grammar; None: no URL, 'bad': invalid"""
    i = t.find(b':')
    if i < 1 or not t[:1].isalpha() or any(c not in b'-+.abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789' for c in t[:i]):
        return None
    scheme, rest = t[:i], t[i + 1:]

    def rel(p):
        return p[3:].lstrip(b'/') if p[:3] == b'/./' else p
    if rest[:2] != b'//':
        return URL(scheme=scheme, path=rel(rest))
    j = rest.find(b'/', 2)
    auth, path = (rest[2:], b'') if j < 0 else (rest[2:j], rel(rest[j:]))
    name = b"-._~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ!$&'()*+,;=%"
    user = b''
    if b'@' in auth:
        x, y = auth.split(b'@', 1)
        if all(c in name + b':' for c in x):
            user, auth = x, y
    port = None
    k = auth.rfind(b':')
    if k >= 0 and all(c in b'0123456789' for c in auth[k + 1:]):
        port = int(auth[k + 1:]) if auth[k + 1:] else None
        auth = auth[:k]

    def unpct(b):
        out = b''
        while b:
            if b[:1] == b'%' and len(b) > 2 and all(c in b'0123456789abcdefABCDEF' for c in b[1:3]):
                out, b = out + bytes([int(b[1:3], 16)]), b[3:]
            else:
                out, b = out + b[:1], b[1:]
        return out
    user = unpct(user.split(b':')[0])

    def ip(cls, b):
        try:
            return cls(b.decode('ascii'))
        except ValueError:
            return None
    host = ip(IPv6Address, auth[1:-1]) if auth[:1] == b'[' and auth[-1:] == b']' else None
    host = host or ip(IPv4Address, auth)
    if host is None:
        if any(c not in name for c in auth):
            return 'bad'
        host = unpct(auth)
    return URL(scheme=scheme, host=host, port=port, user=user, path=path)


@unit('texts', ['bup.url:parse_path_oriented_url'], prove=False, samples=8000)
def u_texts(h):
    t = h.any('t', gen_text)
    want = expected(t)
    got = parse_path_oriented_url(t)
    h.check((type(got) is str) if want == 'bad' else got == want, 'a URL is what its text says, or rejected', detail=f'{t} {got} {want}')


@unit('remote option', ['bup.config:url_for_remote_opt'], prove=False, samples=4000)
def u_remote(h):
    t = h.any('t', lambda r: gen_text(r) if r.random() < .6 else text(r) + r.choice([b'', b'@', b'host']) + text(r) + b':' + text(r))
    u = expected(t)
    got = config.url_for_remote_opt(t)
    i = t.find(b':')
    if u is None or t[i + 1:i + 3] != b'//':
        k = t.rfind(b'@')
        user, rest = (t[:k], t[k + 1:]) if k >= 0 else (b'', t)
        j = rest.find(b':')
        if j < 1:
            h.check(type(got) is str, 'a remote without a host is rejected')
        else:
            host = b'' if rest[:j] == b'-' else rest[:j]
            h.check(got == URL(scheme=b'ssh', host=host, user=b'' if rest[:j] == b'-' else user, path=rest[j + 1:]), 'an ssh style remote')
        return
    bad = (u == 'bad' or u.scheme not in (b'ssh', b'bup', b'bup-rev') or (u.scheme == b'bup' and u.user)
           or (u.scheme == b'ssh' and not u.host)
           or (u.scheme == b'bup-rev' and (u.user or u.path or u.port is not None)))
    h.check(type(got) is str if bad else got == u, 'a remote URL is what its text says, or rejected', detail=f'{t} {got} {u}')
