"""C17: quoting a word and splitting the line gives the word back."""
import itertools, re
from pyvc.spec import *
from pyvc.harness import unit
from bup import shquote

PROP = 'C17'
NOTE = ('Proved for lines of any length: the loop of _quotesplit, run over any sequence of words spelled in any of the three '
        'quotings, yields exactly those words with the position where each starts, and leaves exactly the typed part of an '
        'unfinished one. That quotify spells words that way (re.sub is outside the verifier) and the functions around it are '
        'evaluated exhaustively over short words of the special characters and on longer generated ones: bounded.')
LOOPS = {'bup.shquote': ['_quotesplit']}
ASSUME = ['the proof takes the spelling of a quoted word as given: each special character is preceded by a backslash; '
          'that quotify produces it is evaluated, not proved']

Q = {0: None, 1: b"'", 2: b'"'}
Hit = Tup(Int, Bytes)
word_at = ufn('word_at', [Nat], Bytes)
style_at = ufn('style_at', [Nat], Nat)
upto = ufn('upto', [Nat], Seq(Hit))
BLANK = (b' ', b'\t', b'\n', b'\r')


def special(c, st):
    """the characters a style precedes with a backslash"""
    return (c == b'\\' or (c == b"'" and st != 2) or (c == b'"' and st != 1)
            or (st == 0 and (c == b' ' or c == b'\t' or c == b'\n' or c == b'\r')))


class Line:
    """a line that spells the words word_at(0), word_at(1), ... ; ghost state: word k, character j of it, phase"""
    def __len__(self):
        return self.n

    def __getitem__(self, sl):
        h = self.h
        i = sl.start
        h.check(sl.stop == i + 1 and 0 <= i and i < self.n, 'reads the character it is at')
        k = self.k
        w = word_at(k)
        st = style_at(k)
        h.assume(st <= 2)
        if self.phase == 0:
            if h.fresh('blank', Bool):
                c = h.fresh('c', Bytes)
                h.assume(c == b' ' or c == b'\t' or c == b'\n' or c == b'\r')
                return c
            self.start, self.j = i, 0
            self.phase = 1
            if st == 1:
                return b"'"
            if st == 2:
                return b'"'
            h.assume(len(w) > 0)
        if self.phase == 2:
            self.phase = 1
            self.j += 1
            return w[self.j - 1:self.j]
        if self.j == len(w):
            h.assume(upto(k + 1) == upto(k) + [(self.start, w)])
            self.phase, self.k = 0, k + 1
            if st == 1:
                return b"'"
            if st == 2:
                return b'"'
            return b' '
        c = w[self.j:self.j + 1]
        if special(c, st):
            self.phase = 2
            return b'\\'
        self.j += 1
        return c


@unit('splitting spelled words', ['bup.shquote:_quotesplit'], search=False, timeout=60)
def u_split(h):
    l = Line()
    l.h, l.k, l.j, l.phase, l.start = h, 0, 0, 0, 0
    l.n = h.input('n', Nat)
    h.assume(upto(0) == [])

    def inv(L):
        x = L.line
        w, st = word_at(x.k), style_at(x.k)
        esc = L.inescape is not None and L.inescape == True
        return (0 <= x.phase and x.phase <= 2 and 0 <= x.k and L.out == upto(x.k)
                and implies(x.phase == 0, L.inquote is None and not esc and L.word == b'' and L.wordstart == L.idx)
                and implies(x.phase != 0, st <= 2 and 0 <= x.j and x.j <= len(w) and L.word == w[:x.j] and L.wordstart == x.start
                            and implies(st == 0, L.inquote is None)
                            and implies(st == 1, L.inquote is not None and L.inquote == b"'")
                            and implies(st == 2, L.inquote is not None and L.inquote == b'"'))
                and implies(x.phase == 1, not esc and implies(st == 0, x.j > 0))
                and implies(x.phase == 2, esc and x.j < len(w) and special(w[x.j:x.j + 1], st)))
    h.loop('bup.shquote:_quotesplit', 0, out=Hit,
           types={'inquote': Opt(Bytes), 'inescape': Opt(Bool), 'wordstart': Nat, 'word': Bytes, 'c': Bytes},
           havoc={'line.k': Nat, 'line.j': Nat, 'line.phase': Nat, 'line.start': Nat}, inv=inv)
    unfinished = []

    def run():
        try:
            for x in shquote._quotesplit(l):
                yield x
        except shquote.QuoteError:
            unfinished.append(1)
    got = h.gen(run(), Hit)
    if l.phase == 0:
        h.check(not unfinished, 'a line of complete words is complete')
        h.check(got == upto(l.k), 'exactly the words, each where it starts')
    else:
        h.check(len(unfinished) == 1, 'an unfinished word is reported')
        part = word_at(l.k)[:l.j]
        if len(part) == 0:
            h.check(got == upto(l.k), 'exactly the words before an unfinished one')
        else:
            h.check(got == upto(l.k) + [(l.start, part)], 'the unfinished word is what is typed of it')


SPECIAL = [b'a', b"'", b'"', b'\\', b' ', b'\n', b'\xff']


def words(r):
    alpha = r.choice([SPECIAL, SPECIAL + [b'\t', b'\r', b'.', b'\0', b'$'], [b'a', b'b'], [b'\\', b"'", b'"']])
    return [b''.join(r.choice(alpha) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 12]))) for _ in range(r.choice([0, 1, 2, 3, 6]))]


def short(tier):
    n = 4 if tier == 'quick' else 6
    for k in range(n + 1):
        for t in itertools.product(SPECIAL[:5], repeat=k):
            yield {'words': [b''.join(t)]}
            yield {'words': [b''.join(t), b'x']}


@unit('quote a list and split it', ['bup.shquote:quotify_list', 'bup.shquote:quotesplit', 'bup.shquote:quotify'],
      prove=False, samples=4000, cases=short)
def u_list(h):
    ws = h.any('words', words)
    h.crumb
    line = shquote.quotify_list(ws)
    got = shquote.quotesplit(line)
    h.check([w for _, w in got] == ws, 'splitting gives the words back', detail=f'{ws} {line} {got}')
    h.check(shquote.unfinished_word(line + b' ') == (None, b''), 'the quoted line is complete')


def spell(style, w, r=None):
    out = b''
    for i in range(len(w)):
        c = w[i:i + 1]
        if special(c, style):
            c = b'\\' + c
        out += c
    return out


@unit('every quoting of a word', ['bup.shquote:quotify', 'bup.shquote:quotesplit'], prove=False, samples=3000, cases=short)
def u_quotify(h):
    ws = h.any('words', words)
    gap = [h.choice(f'gap{i}', [b' ', b'  ', b'\t', b'\n \r']) for i in range(len(ws) + 1)]
    style = [h.choice(f'style{i}', [b"'", b'"', b'', None]) for i in range(len(ws))]
    line, want = gap[-1], []
    for w, st, g in zip(ws, style, gap):
        if not w and not st:
            continue
        want.append((len(line), w))
        line += shquote.quotify(st, w, True) + g
    h.check(shquote.quotesplit(line) == want, 'words and the positions where they start',
            detail=f'{line} {shquote.quotesplit(line)} {want}')


@unit('completion', ['bup.shquote:unfinished_word', 'bup.shquote:what_to_add'], prove=False, samples=4000)
def u_complete(h):
    ws = h.any('words', words)
    w = h.any('word', lambda r: (words(r) + [b'ab'])[0])
    more = h.any('more', lambda r: (words(r) + [b'ab'])[0])
    cut = h.any('cut', lambda r: r.random())
    style = h.choice('style', [0, 1, 2])
    line = shquote.quotify_list(ws) + (b' ' if ws else b'')
    typed = {0: b'', 1: b"'", 2: b'"'}[style] + spell(style, w)
    if style == 0 and not w:
        h.assume(False)
    qt, word = shquote.unfinished_word(line + typed)
    h.check(word == w and (qt or None) == Q[style], 'the word being typed', detail=f'{line + typed} {qt} {word}')
    new = w + more
    done = line + typed + shquote.what_to_add(qt, word, new, True)
    h.check([x for _, x in shquote.quotesplit(done)] == ws + [new], 'a completed word splits into the completion', detail=f'{done}')
    if style or new:
        h.check(shquote.unfinished_word(done + b' ') == (None, b''), 'a completed word is complete')
    part = line + typed + shquote.what_to_add(qt, word, new, False)
    h.check(shquote.unfinished_word(part) == (qt, new), 'a word completed but not terminated goes on', detail=f'{part}')
    h.check(shquote.what_to_add(qt, word + b'x', w, True) == b'', 'only a longer word completes')


@unit('any line', ['bup.shquote:quotesplit', 'bup.shquote:unfinished_word'], prove=False, samples=4000)
def u_any(h):
    line = b''.join(h.any('words', words))
    ps = shquote.quotesplit(line)
    pos = [p for p, _ in ps]
    h.check(pos == sorted(set(pos)) and all(0 <= p < len(line) for p in pos), 'the positions are in the line and in order',
            detail=f'{line} {ps}')
    for p, w in ps:
        c = line[p:p + 1]
        h.check(c not in BLANK, 'a word does not start with a blank')
        if c not in (b"'", b'"', b'\\'):
            h.check(w[:1] == c, 'the word at the position')
    qt, w = shquote.unfinished_word(line)
    if w:
        h.check(ps[-1][1] == w, 'the unfinished word is the last one')
