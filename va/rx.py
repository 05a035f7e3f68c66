"""Language equality of the regular expressions in the code with those a rule names (derivatives, bisimulation)."""
import functools

ASCII = list(range(128))
OTHER = ['D', 'W', 'S', 'O']          # non-ASCII digit, letter, space, anything else
SIG = frozenset(ASCII + OTHER)
DIG = frozenset(list(range(48, 58)) + ['D'])
WORD = frozenset(list(range(48, 58)) + list(range(65, 91)) + list(range(97, 123)) + [95, 'D', 'W'])
SPACE = frozenset([9, 10, 11, 12, 13, 32, 'S'])


class Unsupported(Exception):
    pass


# hash-consed nodes: an expression is an index into NODES
NODES, IDS = [], {}


def mk(*n):
    i = IDS.get(n)
    if i is None:
        i = IDS[n] = len(NODES)
        NODES.append(n)
    return i


EMPTY, EPS = mk('0'), mk('e')


def kids(x, op):
    n = NODES[x]
    return set(n[1]) if n[0] == op else {x}


def alt(a, b):
    s = kids(a, '|') | kids(b, '|')
    s.discard(EMPTY)
    if not s:
        return EMPTY
    if ALL in s:
        return ALL
    return next(iter(s)) if len(s) == 1 else mk('|', frozenset(s))


def inter(a, b):
    s = kids(a, '&') | kids(b, '&')
    if EMPTY in s:
        return EMPTY
    s.discard(ALL)
    if not s:
        return ALL
    return next(iter(s)) if len(s) == 1 else mk('&', frozenset(s))


def neg(a):
    return NODES[a][1] if NODES[a][0] == '!' else mk('!', a)


def cat(a, b):
    if a == EMPTY or b == EMPTY:
        return EMPTY
    if a == EPS:
        return b
    if b == EPS:
        return a
    if NODES[a][0] == '.':
        return mk('.', NODES[a][1], cat(NODES[a][2], b))
    return mk('.', a, b)


def star(a):
    if a in (EMPTY, EPS):
        return EPS
    return a if NODES[a][0] == '*' else mk('*', a)


ALL = mk('*', mk('c', SIG))


@functools.lru_cache(None)
def nullable(i):
    r = NODES[i]
    k = r[0]
    if k in ('e', '*'):
        return True
    if k in ('0', 'c'):
        return False
    if k == '|':
        return any(nullable(x) for x in r[1])
    if k == '&':
        return all(nullable(x) for x in r[1])
    if k == '!':
        return not nullable(r[1])
    return nullable(r[1]) and nullable(r[2])


@functools.lru_cache(None)
def deriv(i, ch):
    r = NODES[i]
    k = r[0]
    if k in ('e', '0'):
        return EMPTY
    if k == 'c':
        return EPS if ch in r[1] else EMPTY
    if k == '*':
        return cat(deriv(r[1], ch), i)
    if k == '|':
        o = EMPTY
        for x in r[1]:
            o = alt(o, deriv(x, ch))
        return o
    if k == '&':
        o = ALL
        for x in r[1]:
            o = inter(o, deriv(x, ch))
        return o
    if k == '!':
        return neg(deriv(r[1], ch))
    o = cat(deriv(r[1], ch), r[2])
    return alt(o, deriv(r[2], ch)) if nullable(r[1]) else o


def classes(*roots):
    """one representative per set of characters the expressions cannot tell apart"""
    sets, seen, todo = set(), set(), list(roots)
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        n = NODES[i]
        if n[0] == 'c':
            sets.add(n[1])
        elif n[0] in '|&':
            todo += list(n[1])
        elif n[0] in '*!':
            todo.append(n[1])
        elif n[0] == '.':
            todo += [n[1], n[2]]
    by = {}
    for c in SIG:
        by.setdefault(tuple(c in s for s in sets), c)
    return list(by.values())


class P:
    """parser to a syntax tree, then continuation-passing construction so that look-ahead sees the rest of the string"""

    def __init__(self, s):
        self.s, self.i, self.ci = s, 0, False

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else ''

    def parse(self):
        t = self.alts()
        if self.i != len(self.s):
            raise Unsupported(self.s)
        return t

    def alts(self):
        out = [self.seq()]
        while self.peek() == '|':
            self.i += 1
            out.append(self.seq())
        return ('alt', out) if len(out) > 1 else out[0]

    def seq(self):
        out = []
        while self.peek() and self.peek() not in '|)':
            a = self.atom()
            a = self.quant(a)
            out.append(a)
        return ('seq', out)

    def quant(self, a):
        while True:
            c = self.peek()
            if c in ('*', '+', '?') and c:
                self.i += 1
                a = ('rep', a, {'*': 0, '+': 1, '?': 0}[c], {'*': None, '+': None, '?': 1}[c])
            elif c == '{':
                j = self.s.index('}', self.i)
                b = self.s[self.i + 1:j]
                self.i = j + 1
                lo, _, hi = b.partition(',')
                a = ('rep', a, int(lo), int(lo) if ',' not in b else (int(hi) if hi else None))
            else:
                return a
            if self.peek() == '?':
                self.i += 1     # laziness does not change the language

    def atom(self):
        c = self.peek()
        self.i += 1
        if c == '^':
            return ('bol',)
        if c == '$':
            return ('eol',)
        if c == '.':
            return ('set', SIG - {10})
        if c == '(':
            look = None
            if self.s.startswith('?:', self.i):
                self.i += 2
            elif self.s.startswith('?=', self.i) or self.s.startswith('?!', self.i):
                look = self.s[self.i + 1]
                self.i += 2
            elif self.s.startswith('?<', self.i) and self.s[self.i + 2] not in '=!':
                self.i = self.s.index('>', self.i) + 1
            elif self.s.startswith('?P<', self.i):
                self.i = self.s.index('>', self.i) + 1
            elif self.peek() == '?':
                raise Unsupported(self.s)
            t = self.alts()
            if self.peek() != ')':
                raise Unsupported(self.s)
            self.i += 1
            return ('look', look, t) if look else t
        if c == '[':
            return ('set', self.cls())
        if c == '\\':
            return self.esc()
        if c in '*+?{':
            raise Unsupported(self.s)
        return ('set', self.ch(c))

    def ch(self, c):
        o = ord(c)
        if o >= 128:
            raise Unsupported(self.s)
        return frozenset([o])

    def esc(self):
        c = self.peek()
        self.i += 1
        m = {'d': DIG, 'D': SIG - DIG, 'w': WORD, 'W': SIG - WORD, 's': SPACE, 'S': SIG - SPACE, 'n': frozenset([10]), 't': frozenset([9]), 'r': frozenset([13])}
        if c in m:
            return ('set', m[c])
        if c == 'A':
            return ('bol',)
        if c == 'z':
            return ('eol',)
        if c.isalnum():
            raise Unsupported(self.s)
        return ('set', self.ch(c))

    def cls(self):
        inv = False
        if self.peek() == '^':
            inv = True
            self.i += 1
        out, first = set(), True
        while True:
            c = self.peek()
            if not c:
                raise Unsupported(self.s)
            if c == ']' and not first:
                self.i += 1
                break
            first = False
            self.i += 1
            if c == '[' or self.s.startswith('&&', self.i - 1):
                raise Unsupported(self.s)
            if c == '\\':
                s = self.esc()[1]
            else:
                s = self.ch(c)
            if self.peek() == '-' and self.i + 1 < len(self.s) and self.s[self.i + 1] != ']' and len(s) == 1:
                self.i += 1
                d = self.peek()
                self.i += 1
                if d == '\\':
                    d = self.peek()
                    self.i += 1
                lo, hi = next(iter(s)), ord(d)
                s = frozenset(range(lo, hi + 1))
            out |= s
        return frozenset(SIG - out if inv else out)


def has_look(t):
    return t[0] == 'look' or any(has_look(x) for x in t[1:] if isinstance(x, tuple)) or any(has_look(y) for x in t[1:] if isinstance(x, list) for y in x)


def build(t, k):
    """language of: t, then the language k of the rest of the string"""
    n = t[0]
    if n == 'set':
        return cat(mk('c', t[1]), k)
    if n == 'seq':
        for x in reversed(t[1]):
            k = build(x, k)
        return k
    if n == 'alt':
        o = EMPTY
        for x in t[1]:
            o = alt(o, build(x, k))
        return o
    if n == 'look':
        l = build(t[2], ALL)
        return inter(k, l if t[1] == '=' else neg(l))
    if n == 'eol':
        return inter(k, EPS)
    if n == 'bol':
        raise Unsupported('^ inside')
    if n == 'rep':
        _, x, lo, hi = t
        if hi is None:
            if has_look(x):
                raise Unsupported('look-ahead under an unbounded loop')
            k = cat(star(build(x, EPS)), k)
        else:
            base = k
            for _ in range(hi - lo):
                k = alt(base, build(x, k))
        for _ in range(lo):
            k = build(x, k)
        return k
    raise Unsupported(str(t))


@functools.lru_cache(None)
def compile_(p):
    t = P(p).parse()
    if t[0] == 'seq' and t[1] and t[1][0] == ('bol',):
        body, head = ('seq', t[1][1:]), EPS
    elif t[0] == 'seq':
        body, head = t, ALL
    else:
        raise Unsupported(p)
    return cat(head, build(body, ALL))


def equal(p, q, limit=60000):
    """do the two patterns match the same strings? raises Unsupported"""
    if p == q:
        return True
    a, b = compile_(p), compile_(q)
    reps = classes(a, b)
    seen, todo, n = {(a, b)}, [(a, b)], 0
    while todo:
        x, y = todo.pop()
        if nullable(x) != nullable(y):
            return False
        for c in reps:
            n += 1
            if n > limit:
                raise Unsupported('too large')
            z = (deriv(x, c), deriv(y, c))
            if z[0] != z[1] and z not in seen:
                seen.add(z)
                todo.append(z)
    return True


# the patterns the rules name, with the byte lengths they admit
SPEC = {
    '^[a-z0-9][a-z0-9-]{0,15}$': (1, 16),
    '^[a-z0-9_]{0,15}$': (0, 15),
    '^[a-zA-Z\\d](?:[a-zA-Z\\d]|-(?!-)){0,38}$': (1, 39 * 4),
    r'^geo:(-?\d{1,2}\.\d{2}),(-?\d{1,3}\.\d{2})$': (13, None),
    r'^[a-z0-9]+:[a-zA-Z0-9]+/[a-z0-9-]{3,8}:[-.%a-zA-Z0-9]{1,128}(/[a-zA-Z0-9]+)?$': (9, None),
}


def canon(p):
    """the rule's own spelling of the pattern, when it denotes the same language"""
    if p in SPEC:
        return p
    for q in SPEC:
        try:
            if equal(p, q):
                return q
        except (Unsupported, RecursionError):
            pass
    return p


if __name__ == '__main__':
    assert equal('^[a-z0-9][a-z0-9-]{0,15}$', '^[0-9a-z](?:[a-z0-9]|-){0,15}$')
    assert not equal('^[a-z0-9][a-z0-9-]{0,15}$', '^[a-z0-9][a-z0-9-]{0,14}$')
    assert not equal('^[a-z0-9][a-z0-9-]{0,15}$', '^[a-z0-9][a-z0-9-]{0,15}')
    assert not equal('^[a-zA-Z\\d](?:[a-zA-Z\\d]|-(?!-)){0,38}$', '^[a-zA-Z\\d](?:[a-zA-Z\\d]|-){0,38}$')
    assert equal('^[a-zA-Z\\d](?:[a-zA-Z\\d]|-(?!-)){0,38}$', '^[a-zA-Z\\d](?:-(?!-)|[A-Za-z\\d]){0,38}$')
    g = r'^geo:(-?\d{1,2}\.\d{2}),(-?\d{1,3}\.\d{2})$'
    assert not equal(g, g.replace('{1,3}', '{1,2}')) and equal(g, g.replace(r'\d{2})', r'\d\d)'))
    c = [p for p in SPEC if '%' in p][0]
    assert not equal(c, c.replace('128', '127')) and equal(c, c.replace('(/[a-zA-Z0-9]+)?', '(?:/[a-zA-Z0-9]+)?'))
    print('ok')
