"""Discharging obligations: z3 (binary), then cvc5, then a z3 model."""
import os, re, subprocess, tempfile, time
import z3
from .engine import close
from . import values as V

Z3BIN = 'z3-new'


class SpecCtx:
    """stands in for the engine while spec functions are unfolded"""
    dead, stubs, havoc = False, {}, ()

    def __init__(self): self.got = []
    def alive(self): pass
    def facts(self, es): self.got += es
    def provable(self, e): return z3.is_true(V.simp(e))
    def fork(self, e):
        e = V.simp(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        raise V.ToolLimit('a specification function branches on a symbolic value')


def formula(o, fuel=2):
    prev, V.VC[0] = V.VC[0], SpecCtx()
    try:
        r = close([*o.pc, z3.Not(o.goal)], fuel)
        return r + V.VC[0].got
    finally:
        V.VC[0] = prev


def _verdict(out):
    if 'invalid model' in out:      # the solver's counterexample is none
        return 'unknown'
    for l in out.split('\n'):
        l = l.strip()
        if l in ('sat', 'unsat'):
            return l
    return 'unknown'


def race(cmds, limit):
    """[(name, argv, text)] run concurrently -> (verdict, name) of the first to decide"""
    procs = []
    tmp = []
    try:
        for name, argv, text in cmds:
            fd, p = tempfile.mkstemp(suffix='.smt2', prefix='pyvc-q-')
            with os.fdopen(fd, 'w') as f:
                f.write(text)
            tmp.append(p)
            procs.append((name, subprocess.Popen(argv + [p], stdout=subprocess.PIPE,
                                                 stderr=subprocess.DEVNULL, text=True)))
        end = time.time() + limit
        left = list(procs)
        while left and time.time() < end:
            for it in list(left):
                name, p = it
                if p.poll() is not None:
                    left.remove(it)
                    v = _verdict(p.stdout.read())
                    if v != 'unknown':
                        return v, name
            time.sleep(0.005)
        return 'unknown', ''
    finally:
        for name, p in procs:
            if p.poll() is None:
                p.kill()
            p.stdout.close()
            p.wait()
        for p in tmp:
            os.unlink(p)


def discharge(o, tmo=10, fuel=2, cvc5_tmo=None):
    if o.status:
        return o
    t0 = time.time()
    try:
        fs = formula(o, fuel)
    except V.ToolLimit as ex:
        o.status, o.reason = 'undecided', f'{ex}'
        return o
    s = z3.Solver()
    s.add(*fs)
    text = s.to_smt2()
    c = cvc5_tmo or tmo
    z = [Z3BIN, 'model_validate=true', '-memory:3000']
    cv = ['cvc5', '--strings-exp', f'--tlimit={int(c * 1000)}', '--lang=smt2']
    res, be = race([('z3', z + ['-T:2'], text)], 2.5)
    if res == 'unknown':
        res, be = race([('z3', z + [f'-T:{tmo}'], text),
                        ('cvc5', cv, '(set-logic ALL)\n' + text)], max(c, tmo) + 1)
    o.backend = be
    if res == 'unsat':
        o.status = 'proved'
    elif res == 'sat':
        o.status = 'refuted'
        o.model = get_model(o, fs, tmo)
    else:
        o.status = 'undecided'
        o.reason = 'solver timeout or unknown'
        o.model = get_model(o, fs, 3)
    o.time = time.time() - t0
    return o


def get_model(o, fs, tmo):
    """values of the declared inputs in a counterexample, or None"""
    for strict in (True, False):
        s = z3.Solver()
        s.set('timeout', int(tmo * 1000))
        s.add(*fs)
        if strict:
            for name, t, e in o.inputs:
                if t != 'choice':
                    for f in small(t, e):
                        s.add(f)
        try:
            if s.check() == z3.sat:
                m = s.model()
                return {name: (e if t == 'choice' else pyval(t, m.eval(e, model_completion=True)))
                        for name, t, e in o.inputs}
        except (z3.Z3Exception, ValueError, KeyError):
            pass
    return None


def small(t, e):
    """prefer byte-range characters"""
    if isinstance(t, V._Bytes):
        return [z3.InRe(e, V.BYTES_RE())]
    return []


def zstr(e):
    s = e.as_string()
    return [ord(c) for c in re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m[1], 16)), s)]


def pyval(t, e):
    if isinstance(t, V._Bool):
        return z3.is_true(e)
    if isinstance(t, V._Int):
        return e.as_long()
    if isinstance(t, V._Bytes):
        return bytes(zstr(e))
    if isinstance(t, V._Str):
        return ''.join(map(chr, zstr(e)))
    if isinstance(t, V.Seq):
        return seqval(t.elt, e)
    if isinstance(t, V.Tup):
        return tuple(pyval(x, e.arg(i)) for i, x in enumerate(t.ts))
    if isinstance(t, V.Opt):
        return None if e.num_args() == 0 else pyval(t.t, e.arg(0))
    if isinstance(t, V.Opaque):
        return ('opaque', str(e))
    raise KeyError(t)


def seqval(elt, e):
    k = e.decl().kind()
    if k == z3.Z3_OP_SEQ_EMPTY:
        return []
    if k == z3.Z3_OP_SEQ_UNIT:
        return [pyval(elt, e.arg(0))]
    if k == z3.Z3_OP_SEQ_CONCAT:
        r = []
        for c in e.children():
            r += seqval(elt, c)
        return r
    raise KeyError(str(e)[:60])
