"""Units of verification, shared by the proving and the native process.

A unit is one function h -> None: it declares inputs (h.input), states the
precondition (h.assume), runs the real code, and states the postcondition
(h.check).  Executed by the engine the inputs are symbolic and every check is
a proof obligation; executed natively the inputs are concrete values and the
very same checks are evaluated on the real, uninstrumented code."""
import random

UNITS = []


class Unit:
    def __init__(self, fn, name, funcs, prove, search, samples, cases, timeout, kw):
        self.fn, self.name, self.funcs = fn, name, funcs
        self.prove, self.search, self.samples, self.cases = prove, search, samples, cases
        self.timeout = timeout
        self.kw = kw
        self.doc = (fn.__doc__ or '').strip()


def unit(name, funcs=(), prove=True, search=True, samples=300, cases=None, timeout=25, **kw):
    def deco(fn):
        UNITS.append(Unit(fn, name, list(funcs), prove, search, samples, cases, timeout, kw))
        return fn
    return deco


class Skip(Exception):
    """a concrete sample outside the precondition"""


class Fail(Exception):
    def __init__(self, name, detail=''):
        Exception.__init__(self, name)
        self.name, self.detail = name, detail


INTS = [0, 1, 2, 3, 5, 7, 8, 10, 62, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 1000, 4095, 4096,
        8191, 8192, 8193, 16383, 16384, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32,
        2**53, 2**56 - 1, 2**56, 2**62, 2**63 - 1, 2**63, 2**64 - 1, 2**64, 2**70]


def gen_type(r, t, depth=0):
    n = type(t).__name__
    tn = repr(t)
    if tn in ('Int', 'Nat'):
        v = r.choice(INTS) if r.random() < .6 else r.getrandbits(r.choice([3, 8, 16, 33, 64, 70]))
        if r.random() < .2:
            v += r.choice([-1, 1])
        if tn == 'Int' and r.random() < .35:
            v = -v
        return max(v, 0) if tn == 'Nat' else v
    if tn == 'Bool':
        return r.random() < .5
    if n == 'FixedBytes':
        return bytes(r.randrange(256) for _ in range(t.n))
    if tn in ('Bytes', 'Byte256'):
        k = r.choice([0, 1, 1, 2, 3, 4, 8, 20])
        alpha = r.choice([b'ab', b'ab/.', bytes(range(256)), b'\0\n\\\'" ;', b'a./-_0'])
        return bytes(r.choice(alpha) for _ in range(k))
    if tn == 'Str':
        return gen_bytes_str(r)
    if n == 'Seq':
        return [gen_type(r, t.elt, depth + 1) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
    if n == 'Tup':
        v = tuple(gen_type(r, x, depth + 1) for x in t.ts)
        return t.cls(*v) if t.cls else v
    if n == 'Opt':
        return None if r.random() < .3 else gen_type(r, t.t, depth + 1)
    raise TypeError(f'no generator for {tn}')


def gen_bytes_str(r):
    return ''.join(r.choice('abz/.:0') for _ in range(r.choice([0, 1, 2, 4])))


class NativeH:
    symbolic = False
    on_sort = None
    on_method = {}

    def __init__(self, given=None, rng=None, tmp=None, tier='quick'):
        self.given = given
        self.rng = rng or random.Random(0)
        self.inputs = {}
        self.checked = 0
        self.tmp = tmp
        self.tier = tier
        self._undo = []
        self.crumb = None

    def _crumb(self, name, v):
        # so that a crash of the process still tells its input
        if self.crumb:
            self.crumb.write(repr((name, v)) + '\n')
            self.crumb.flush()

    def input(self, name, t, gen=None):
        if self.given is not None and name in self.given:
            v = self.given[name]
            if isinstance(v, tuple) and v and v[0] == 'opaque':
                v = v[1].encode()
        else:
            v = gen(self.rng) if gen else gen_type(self.rng, t)
        self.inputs[name] = v
        self._crumb(name, v)
        cls = getattr(t, 'cls', None)
        if cls and isinstance(v, tuple) and type(v) is tuple:
            v = cls(*v)
        return v

    fresh = input

    def choice(self, name, options, weights=None):
        if self.given is not None and name in self.given:
            k = self.given[name]
        else:
            k = self.rng.choices(range(len(options)), weights)[0]
        self.inputs[name] = k
        self._crumb(name, k)
        return options[k]

    def any(self, name, gen):
        """a concrete-only input made by gen(rng)"""
        return self.input(name, None, gen)

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, name, kind='post', detail=''):
        self.checked += 1
        if not c:
            raise Fail(name, detail)

    def cover(self, name):
        pass

    def raises(self, fn, *a, **k):
        try:
            return None, fn(*a, **k)
        except (Skip, Fail):
            raise
        except Exception as ex:
            return ex, None

    def gen(self, g, elt):
        return list(g)

    def body(self, fn):
        return fn

    def loop(self, *a, **k): pass
    def stub(self, *a): pass
    def use(self, *a): pass
    def facts(self, *a): pass

    def patch(self, obj, **attrs):
        for k, v in attrs.items():
            self._undo.append((obj, k, getattr(obj, k, None), hasattr(obj, k)))
            setattr(obj, k, v)

    def close(self):
        for obj, k, v, had in reversed(self._undo):
            if had:
                setattr(obj, k, v)
            else:
                delattr(obj, k)
        self._undo = []
