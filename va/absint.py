"""Abstract interpreter over the compiler's MIR facts.

A program point carries a set of abstract states. A state maps memory cells to abstract values (constants, linear
expressions over named input quantities, structured values, symbolic objects named by their access path) and maps
linear expressions to interval sets. Branches refine the interval sets, states are joined at merge points, loops run
to a fixpoint. Nothing is executed and no solver is used: a question is "starting from this cell of the input
partition, which outcomes (return variants, panics) are reachable".

Imprecision is tracked: when a branch depends on something the models do not cover, the state is marked, and an
outcome reached only through marked states is reported as undecided rather than as a violation.
"""
import heapq, json, re, math, sys
from facts import INT, strip_generics

sys.setrecursionlimit(20000)
NEG, POS = -(10 ** 60), 10 ** 60
FULL = ((NEG, POS),)
TRUE = ('n', 1, ())
FALSE = ('n', 0, ())
UNIT = ('t', ())
FLOAT_SCALE = 10 ** 6


class Budget(Exception):
    pass


class Undecided(Exception):
    pass


# ---------------------------------------------------------------- interval sets
def rs(*ivs):
    out = []
    for lo, hi in sorted(ivs):
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def rs_inter(a, b):
    if a is FULL:
        return b
    if b is FULL:
        return a
    out = []
    for l1, h1 in a:
        for l2, h2 in b:
            l, h = max(l1, l2), min(h1, h2)
            if l <= h:
                out.append((l, h))
    return rs(*out)


def rs_union(a, b):
    return rs(*(tuple(a) + tuple(b)))


def rs_compl(a):
    out = []
    lo = NEG
    for l, h in a:
        if lo <= l - 1:
            out.append((lo, l - 1))
        lo = h + 1
    if lo <= POS:
        out.append((lo, POS))
    return tuple(out)


def clampv(x):
    return NEG if x <= NEG else POS if x >= POS else x


def rs_shift(a, c):
    return tuple((clampv(l + c) if NEG < l < POS else l, clampv(h + c) if NEG < h < POS else h) for l, h in a)


def rs_scale(a, k):
    if k == 1:
        return a
    if k == -1:
        return rs(*[(-h, -l) for l, h in a])
    if k == 0:
        return ((0, 0),)
    return rs(*[(clampv(min(l * k, h * k)), clampv(max(l * k, h * k))) for l, h in a])


def rs_unscale(a, k):
    """x with k*x in a"""
    if k == 1:
        return a
    out = []
    for l, h in a:
        if k < 0:
            l, h = -h, -l
        kk = abs(k)
        lo = l if l <= NEG else -((-l) // kk)
        hi = h if h >= POS else h // kk
        if lo <= hi:
            out.append((lo, hi))
    return rs(*out)


def rs_hull(a):
    return a[0][0], a[-1][1]


def rs_sum(a, b):
    if len(a) * len(b) > 36:
        l1, h1 = rs_hull(a)
        l2, h2 = rs_hull(b)
        return ((clampv(l1 + l2), clampv(h1 + h2)),)
    return rs(*[(clampv(l1 + l2), clampv(h1 + h2)) for l1, h1 in a for l2, h2 in b])


def rs_const(a):
    return a[0][0] if len(a) == 1 and a[0][0] == a[0][1] else None


# ---------------------------------------------------------------- linear expressions
def lin(c, terms):
    d = {}
    for s, k in terms:
        d[s] = d.get(s, 0) + k
    return ('n', c, tuple(sorted((s, k) for s, k in d.items() if k)))


def lin_add(a, b, kb=1):
    return lin(a[1] + kb * b[1], a[2] + tuple((s, k * kb) for s, k in b[2]))


def num(c):
    return ('n', c, ())


def symn(s):
    return ('n', 0, ((s, 1),))


def lin_str(v):
    c, ts = v[1], v[2]
    o = ''
    for s, k in ts:
        if k == 1:
            o += (' + ' if o else '') + s
        elif k == -1:
            o += (' - ' if o else '-') + s
        else:
            o += (' + ' if o else '') + '%d*%s' % (k, s)
    if c or not o:
        o += (' + ' if o and c > 0 else ' - ' if o and c < 0 else '') + str(abs(c) if o else c)
    return o


def parse_lin(s):
    """'a - b' -> terms (symbols may hold ' - ' / ' + ' only inside brackets)"""
    parts, d, i = [''], 0, 0
    if s.count('(') == s.count(')') and s.count('{') == s.count('}') and s.count('[') == s.count(']'):
        while i < len(s):
            if d == 0 and s[i:i + 3] in (' + ', ' - '):
                parts += [s[i + 1], '']
                i += 3
                continue
            d += (s[i] in '([{') - (s[i] in ')]}')
            parts[-1] += s[i]
            i += 1
    else:
        parts = re.split(r' ([+-]) ', s)
    ts = []
    for i in range(0, len(parts), 2):
        m = re.match(r'(\d+)\*(.+)$', parts[i], re.S)
        k = 1 if i == 0 or parts[i - 1] == '+' else -1
        ts.append((m.group(2), k * int(m.group(1))) if m else (parts[i], k))
    return lin(0, ts)[2]


def norm_key(terms):
    """terms -> (key, factor) with terms == factor*key"""
    if not terms:
        return terms, 1
    g = 0
    for _, k in terms:
        g = math.gcd(g, abs(k))
    f = g if terms[0][1] > 0 else -g
    return tuple((s, k // f) for s, k in terms), f


# ---------------------------------------------------------------- states
class State:
    __slots__ = ('mem', 'R', 'over', 'ev', 'unk', 'dead')

    def __init__(self):
        self.mem = {}
        self.R = {}
        self.over = {}
        self.ev = ()
        self.unk = frozenset()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.R = dict(self.R)
        s.over = dict(self.over) if self.over else self.over
        s.ev = self.ev
        s.unk = self.unk
        return s


class Outcome:
    def __init__(self, kind, val, st, where=None):
        self.kind, self.val, self.st, self.where = kind, val, st, where


SHORT_TR = re.compile(r'<[^<>]*>')


def degen(p):
    """drop every <...> group"""
    prev = None
    while prev != p:
        prev = p
        p = SHORT_TR.sub('', p)
    return p


def short_callee(f):
    p = f['p']
    if 'tr' in f:
        return strip_generics(f['tr']).rsplit('::', 1)[-1] + '::' + p.rsplit('::', 1)[-1]
    m = re.match(r'^<(.*) as (.*)>::(\w+)$', p)
    if m:
        return strip_generics(m.group(2)).rsplit('::', 1)[-1] + '::' + m.group(3)
    m = re.match(r'^.*::<impl (.*)>::([\w#]+)$', p)
    if m:
        t = m.group(1)
        if ' for ' in t:
            return strip_generics(t.split(' for ')[0]).rsplit('::', 1)[-1] + '::' + m.group(2)
        if t.startswith('['):
            return 'slice::' + m.group(2)
        return strip_generics(t).rsplit('::', 1)[-1] + '::' + m.group(2)
    d = degen(p).replace('::::', '::')
    d = '::'.join(x for x in d.split('::') if x)
    return '::'.join(d.split('::')[-2:])


_P = r'[\w.\[\]#*?+~{}<>]+'
PLAIN = re.compile(r'%s|(?:len|discr|bool|num)\(%s\)|eq\((?:"(?:[^"\\]|\\.)*"|%s),%s\)|match\("(?:[^"\\]|\\.)*",%s\)|cmp\(%s,%s\)|w\d+_\d+|\((%s) as \w+\)' % ((_P,) * 8))


DIVC = re.compile(r'\((.+) (?:/|>>) (?:\d+)\)')


class Spec:
    """One analysis: cell constraints, functions taken as atoms, star elements."""

    def __init__(self, cell=None, pats=None, opaque=(), pure=(), stars=(), models=None, forks=None, trace=None, inline_depth=45, vocab=None):
        self.cell = {}
        for k, v in (cell or {}).items():
            nk, f = norm_key(parse_lin(k))
            self.cell[nk] = rs_unscale(v, f)
        self.pats = [(re.compile(p), v) for p, v in (pats or [])]
        self.opaque = [re.compile(x) for x in opaque]
        self.pure = [re.compile(x) for x in pure]
        self.stars = dict(stars)       # collection path -> number of consecutive distinguished elements (1 or 2)
        self.models = models or {}
        self.trace = [re.compile(x) for x in (trace or [])]
        self.inline_depth = inline_depth
        self.vocab = None if vocab is None else re.compile('|'.join('(?:%s)' % x for x in list(vocab) + ['$^']))
        self.vcache = {}
        self.deny = None

    def known(self, s):
        """is the symbol a quantity the property is stated over (an input quantity, or a named atom)?"""
        if self.vocab is None:
            return True
        r = self.vcache.get(s)
        if r is None and self.deny is not None and self.deny.search(s):
            r = self.vcache[s] = False
        if r is None:
            r = self.vcache[s] = bool(PLAIN.fullmatch(s)) or ((s, 1),) in self.cell or bool(self.vocab.search(s)) or self.derived(s)
        return r

    def derived(self, s):
        """a known quantity divided by a constant: its range is exact"""
        m = DIVC.fullmatch(s)
        if not m:
            return False
        try:
            l = parse_lin(m.group(1))
        except Exception:
            return False
        return all(k.isdigit() or self.known(k.split('*', 1)[1] if k.split('*', 1)[0].lstrip('-').isdigit() and '*' in k else k) for k, _ in l)


SUBSLICE = re.compile(r'(.*)\[(\d+)\.\.[^\[\]]*\]$')      # element i of x[a..b] is element a+i of x


class Interp:
    def __init__(self, facts, spec, budget=400000):
        self.F = facts
        self.spec = spec
        self.symty = {}      # symbol -> default interval set
        self.segpath = {}
        self.adtof = {}      # path of a value -> the enum its discriminant was read as
        self.show_known = False
        self.unksyms = {}    # symbol -> reason
        self.steps = 0
        self.budget = budget
        self.stack = []
        self.cfg = {}
        self.used_fns = set()
        self.outcomes = []
        self.notes = set()
        self.keepsyms = set()

    # ------------------------------------------------------------ symbols
    def sym(self, name, rng=None, unk=None):
        if name not in self.symty:
            r = rng if rng is not None else FULL
            for p, v in self.spec.pats:
                if p.fullmatch(name):
                    r = rs_inter(r, v)
            c = self.spec.cell.get(((name, 1),))
            if c is not None:
                r = rs_inter(r, c)
            self.symty[name] = r
            if unk:
                self.unksyms[name] = unk
        elif rng is not None:
            self.symty[name] = rs_inter(self.symty[name], rng) or self.symty[name]
        return symn(name)

    def tnum(self, path, ty):
        if ty in INT:
            lo, hi = INT[ty]
            return self.sym(path, ((lo, hi),))
        if ty in ('f64', 'f32'):
            return self.sym(path)
        return None

    fixlen = {}

    def length(self, path):
        # a map has as many keys (and values) as entries
        while path.startswith(('keys(', 'values(')) and path.endswith(')') and self.whole_call(path):
            path = path[path.index('(') + 1:-1]
        if path in self.fixlen:
            return num(self.fixlen[path])
        return self.sym('len(%s)' % path, ((0, 2 ** 47),), self.unk_of(path))

    @staticmethod
    def whole_call(path):
        d = 0
        for i, ch in enumerate(path):
            d += (ch == '(') - (ch == ')')
            if d == 0 and ch == ')':
                return i == len(path) - 1
        return False

    def unk_of(self, path):
        """a quantity read out of an unmodelled call's result is itself unmodelled"""
        return self.unkpaths.get(path) if hasattr(self, 'unkpaths') else None

    # ------------------------------------------------------------ ranges
    def rng1(self, st, key):
        r = st.R.get(key)
        if len(key) == 1:
            d = self.symty.get(key[0][0], FULL)
            if r is None:
                return d
            if r[0][0] <= NEG or r[-1][1] >= POS:
                return rs_inter(r, d)
        return r

    def fold(self, st, key):
        """(expression without the quantities of a fixed value, what they add), (key, None) if there are none"""
        rest, c, hit = [], 0, False
        for s, k in key:
            r = self.rng1(st, ((s, 1),))
            if len(r) == 1 and r[0][0] == r[0][1]:
                c += k * r[0][0]
                hit = True
            else:
                rest.append((s, k))
        return (tuple(rest), c) if hit else (key, None)

    def rng(self, st, terms):
        """interval set of the linear expression (no constant)"""
        if not terms:
            return ((0, 0),)
        key, f = norm_key(terms)
        if len(key) == 1:
            return rs_scale(self.rng1(st, key), f)
        rest, c = self.fold(st, key)
        if c is not None:
            acc = rs_shift(self.rng(st, rest), c)
            r = st.R.get(key)
            if r is None:
                r = self.spec.cell.get(key)
            return rs_scale(rs_inter(acc, r) if r is not None else acc, f)
        acc = ((0, 0),)
        for s, k in key:
            acc = rs_sum(acc, rs_scale(self.rng1(st, ((s, 1),)), k))
        r = st.R.get(key)
        if r is None:
            r = self.spec.cell.get(key)
        if r is not None:
            acc = rs_inter(acc, r)
        for K, v in st.R.items():
            if len(K) > 1 and K != key:
                for sg in (1, -1):
                    d = lin(0, key + tuple((s, -sg * k) for s, k in K))[2]
                    if len(d) <= 1:
                        dr = self.rng1(st, ((d[0][0], 1),)) if d else ((0, 0),)
                        if d:
                            dr = rs_scale(dr, d[0][1])
                        acc = rs_inter(acc, rs_sum(rs_scale(v, sg), dr))
                    elif len(d) == 2:
                        dk, df = norm_key(d)
                        if dk in st.R:
                            acc = rs_inter(acc, rs_sum(rs_scale(v, sg), rs_scale(st.R[dk], df)))
        return rs_scale(acc, f)

    def range_of(self, st, v):
        return rs_shift(self.rng(st, v[2]), v[1])

    def restrict(self, st, terms, want):
        """refined copy of st with the expression in `want`, or None"""
        cur = self.rng(st, terms)
        new = rs_inter(cur, want)
        if not new:
            return None
        if new == cur and len(terms) == 1:
            return st
        if len(terms) > 1:
            rest, c = self.fold(st, terms)
            if c is not None and rest:
                st = self.restrict(st, rest, rs_shift(new, -c))
                if st is None:
                    return None
        st = st.copy()
        key, f = norm_key(terms)
        st.R[key] = rs_unscale(new, f)
        return self.propagate(st, key)

    def propagate(self, st, key):
        todo = [key]
        n = 0
        while todo and n < 12:
            n += 1
            k0 = todo.pop()
            syms = {s for s, _ in k0}
            for K in list(st.R):
                if len(K) < 2 or not (syms & {s for s, _ in K}):
                    continue
                v = st.R[K]
                for i, (s, c) in enumerate(K):
                    rest = ((0, 0),)
                    for j, (s2, c2) in enumerate(K):
                        if j != i:
                            rest = rs_sum(rest, rs_scale(self.rng1(st, ((s2, 1),)), -c2))
                    b = rs_unscale(rs_sum(v, rest), c)
                    k1 = ((s, 1),)
                    old = self.rng1(st, k1)
                    nw = rs_inter(old, b)
                    if not nw:
                        return None
                    if nw != old:
                        st.R[k1] = nw
                        todo.append(k1)
        return st

    def assume(self, st, cond, truth):
        """states of st where the condition value has the given truth"""
        c = self.to_cond(st, cond)
        if c[0] == 'n':
            return [st] if bool(c[1]) == truth else []
        _, terms, want = c
        w = want if truth else rs_compl(want)
        s2 = self.restrict(st, terms, w)
        if s2 is None:
            return []
        other = rs_inter(self.rng(st, terms), want if not truth else rs_compl(want))
        if other:
            why = [self.unksyms[s] for s, _ in terms if s in self.unksyms]
            why += ['branch on ' + s for s, _ in terms if not self.spec.known(s)]
            if why:
                if s2 is st:
                    s2 = st.copy()
                s2.unk = s2.unk | frozenset(why)
        return [s2]

    def to_cond(self, st, v):
        v = self.strip(st, v)
        if v[0] == 'c':
            return v
        if v[0] == 'n':
            if not v[2]:
                return v
            r = self.rng(st, v[2])
            return ('c', v[2], rs_inter(rs_shift(((1, POS),), -v[1]), FULL))
        if v[0] == 'o':
            v = self.sym(v[1], ((0, 1),), self.unk_of(v[1]))
            return ('c', v[2], ((1, 1),))
        u = self.sym('cond(%s)' % self.term(st, v), ((0, 1),), 'cond')
        return ('c', u[2], ((1, 1),))

    def cmpv(self, st, op, a, b):
        """comparison of two numeric values as a condition"""
        d = lin_add(a, b, -1)
        want = {'Eq': ((0, 0),), 'Ne': rs_compl(((0, 0),)), 'Lt': ((NEG, -1),), 'Le': ((NEG, 0),), 'Gt': ((1, POS),), 'Ge': ((0, POS),)}[op]
        if not d[2]:
            x = d[1]
            ok = any(l <= x <= h for l, h in want)
            return TRUE if ok else FALSE
        want = rs_shift(want, -d[1])
        r = self.rng(st, d[2])
        i = rs_inter(r, want)
        if not i:
            return FALSE
        if not rs_inter(r, rs_compl(want)):
            return TRUE
        key, f = norm_key(d[2])
        return ('c', key, rs_unscale(want, f))

    def neg(self, st, c):
        c = self.to_cond(st, c)
        if c[0] == 'n':
            return FALSE if c[1] else TRUE
        return ('c', c[1], rs_compl(c[2]))

    # ------------------------------------------------------------ values
    def lookup(self, st, path):
        return st.over.get(path) if st.over else None

    def load(self, st, cid, proj):
        v = st.mem.get(cid, ('bot',))
        for p in proj:
            v = self.project(st, v, p)
        return v

    def strip(self, st, v):
        """follow references to a value"""
        n = 0
        while n < 20:
            n += 1
            if v[0] == 'r':
                v = self.load(st, v[1], v[2])
            elif v[0] == 'cr':
                v = v[1]
            elif v[0] == 'o' and st.over and v[1] in st.over:
                v = st.over[v[1]]
            else:
                return v
        return v

    def project(self, st, v, p):
        """p: ('f', idx, name) | ('d', vi, name) | ('*',) | ('i', value)"""
        k = p[0]
        if k == '*':
            if v[0] == 'r':
                return self.load(st, v[1], v[2])
            if v[0] == 'cr':
                return v[1]
            return v
        if v[0] in ('r', 'cr'):
            v = self.strip(st, v)
        if k == 'i' and p[1][0] == 'o' and p[1][1][:1] == '-' and p[1][1][1:].isdigit() and v[0] in ('v', 's', 'l', 'o'):
            p = ('i', self.from_end(st, v, p[1]))
        if k == 'sl':
            import models
            return models.slice_val(self, st, v, p[1], p[2], self.len_of(st, v))
        if v[0] == 'o':
            if st.over:
                o = st.over.get(v[1])
                if o is not None:
                    return self.project(st, o, p)
            if k == 'f':
                name = p[2] if p[2] is not None else str(p[1])
                if v[1].endswith('}'):          # variant marker 'path.{Var}'
                    base, var = v[1][:-1].rsplit('.{', 1)
                    path = base + '.' + var if name == '0' else base + '.' + var + '.' + name
                else:
                    path = v[1] + '.' + name
                if st.over and path in st.over:
                    return st.over[path]
                self.inherit_unk(v[1], path)
                return ('o', path)
            if k == 'd':
                path = v[1] + '.{' + p[2] + '}'
                self.inherit_unk(v[1], path)
                return ('o', path)
            if k == 'i':
                ix = self.ixterm(st, p[1])
                up = SUBSLICE.match(v[1]) if str(ix).isdigit() else None
                path = '%s[%d]' % (up.group(1), int(up.group(2)) + int(ix)) if up else '%s[%s]' % (v[1], ix)
                if st.over and path in st.over:
                    return st.over[path]
                self.inherit_unk(v[1], path)
                return ('o', path)
        if v[0] == 'upd':
            if k == 'f':
                name = p[2] if p[2] is not None else str(p[1])
                for n, x in v[2]:
                    if n == name:
                        return x
                return self.project(st, v[1], p)
            if k == 'd':
                return v
        if v[0] == 'a':
            if k == 'd':
                return v if v[2] == p[2] else ('bot',)
            if k == 'f':
                if p[2] is not None and p[2] in v[3]:
                    return v[4][v[3].index(p[2])]
                if p[1] < len(v[4]):
                    return v[4][p[1]]
                return ('bot',)
        if v[0] == 't' and k == 'f':
            return v[1][p[1]] if p[1] < len(v[1]) else ('bot',)
        if v[0] == 'cl' and k == 'f':
            return v[3][p[1]] if p[1] < len(v[3]) else ('bot',)
        if v[0] == 'l' and k == 'i':
            x = self.strip(st, p[1])
            if x[0] == 'n' and not x[2] and 0 <= x[1] < len(v[1]):
                return v[1][x[1]]
            return ('o', '%s[%s]' % (self.term(st, v), self.term(st, p[1])))
        if v[0] in ('v', 's') and k == 'i':
            x = self.strip(st, p[1])
            segs = v[1] if v[0] == 'v' else (('k', v[1].encode()),)
            if x[0] == 'n' and not x[2]:
                b = self.seg_byte(segs, x[1])
                if b is not None:
                    return b
            return ('o', '%s[%s]' % (self.term(st, v), self.term(st, p[1])))
        if v[0] == 'bot':
            return v
        if v[0] == 'it' and k == 'f':
            return ('o', self.term(st, v) + '.' + str(p[2] if p[2] is not None else p[1]))
        if k == 'd':
            return v
        return ('o', '%s.%s' % (self.term(st, v), p[2] if len(p) > 2 and p[2] is not None else p[1] if len(p) > 1 else '?'))

    def ixterm(self, st, v):
        return self.term(st, v).replace(' ', '')

    def inherit_unk(self, a, b):
        w = self.unkpaths.get(a)
        if w:
            self.unkpaths[b] = w

    def seg_byte(self, segs, i):
        for s in segs:
            if s[0] == 'k':
                if i < len(s[1]):
                    return num(s[1][i])
                i -= len(s[1])
            elif s[0] in ('be', 'le'):
                if i < s[2]:
                    if s[2] == 1:
                        return s[1]
                    return None
                i -= s[2]
            else:
                return None
        return None

    def term(self, st, v, depth=0):
        if depth > 16:
            return '…'
        v = self.strip(st, v)
        k = v[0]
        if k == 'o':
            return v[1] if not self.show_known else self.known_term(st, v[1], depth)
        if k == 'n':
            return lin_str(v)
        if k == 'c':
            r = self.rng(st, v[1])
            if not rs_inter(r, v[2]):
                return '0'
            if not rs_inter(r, rs_compl(v[2])):
                return '1'
            if v[2] == ((1, 1),) and r == ((0, 1),) and len(v[1]) == 1 and v[1][0][1] == 1 and '(' not in v[1][0][0]:
                return v[1][0][0]
            return '(%s in %s)' % (lin_str(('n', 0, v[1])), fmt_rs(v[2]))
        if k == 's':
            return json.dumps(v[1])
        if k == 'a':
            nm = v[2]
            if not v[4]:
                return nm
            if v[3] and v[3][0] not in ('0',):
                return '%s{%s}' % (nm, ', '.join('%s: %s' % (n, self.term(st, x, depth + 1)) for n, x in zip(v[3], v[4])))
            return '%s(%s)' % (nm, ', '.join(self.term(st, x, depth + 1) for x in v[4]))
        if k == 't':
            return '(%s)' % ', '.join(self.term(st, x, depth + 1) for x in v[1])
        if k == 'l':
            return '[%s]' % ', '.join(self.term(st, x, depth + 1) for x in v[1])
        if k == 'v':
            out = []
            for g in v[1]:
                if g[0] == 'be' and g[1][0] == 'n' and g[1][2]:      # a number fixed on this path is a constant
                    r = self.rng(st, g[1][2])
                    if len(r) == 1 and r[0][0] == r[0][1] and 0 <= r[0][0] + g[1][1] < 256 ** g[2]:
                        g = ('k', (r[0][0] + g[1][1]).to_bytes(g[2], 'big'))
                if g[0] == 'k' and out and out[-1][0] == 'k':
                    out[-1] = ('k', out[-1][1] + g[1])
                else:
                    out.append(g)
            return 'bytes(%s)' % ' ++ '.join(self.seg_str(s) for s in out)
        if k == 'm':
            return '{%s}' % ', '.join('%s: %s' % x for x in sorted((str(a), self.term(st, b, depth + 1)) for a, b in v[1]))
        if k == 'cl':
            return 'closure#' + v[2].rsplit('::', 2)[-2] if '::' in v[2] else 'closure'
        if k == 'f':
            return v[1]
        if k == 'upd':
            if v[1] == ('bot',) and len(v[2]) == 1 and v[2][0][0] == 'value':
                return self.term(st, v[2][0][1], depth)
            return '%s{%s}' % (self.term(st, v[1], depth + 1), ', '.join('%s: %s' % (n, self.term(st, x, depth + 1)) for n, x in v[2]))
        if k == 'it':
            return 'iter(%s)' % self.term(st, v[2], depth + 1) if len(v) > 2 and isinstance(v[2], tuple) and v[2] and isinstance(v[2][0], str) else 'iter(%s)' % str(v[2:3])
        return k

    def seg_str(self, s):
        if s[0] == 'k':
            return '0x' + s[1].hex()
        if s[0] in ('be', 'le'):
            return '%s%d(%s)' % (s[0], s[2] * 8, lin_str(s[1]))
        return s[1]

    def nval(self, st, v, ty=None):
        """value as a number"""
        v = self.strip(st, v)
        if v[0] == 'n':
            return v
        if v[0] == 'c':
            r = self.rng(st, v[1])
            if not rs_inter(r, v[2]):
                return FALSE
            if not rs_inter(r, rs_compl(v[2])):
                return TRUE
            if v[2] == ((1, 1),) and r == ((0, 1),) and len(v[1]) == 1:
                return ('n', 0, v[1])
            return self.sym('bool' + self.term(st, v), ((0, 1),), 'bool as number')
        if v[0] == 'o':
            t = self.tnum(v[1], ty) if ty else None
            if t is None:
                t = self.sym(v[1])
            u = self.unk_of(v[1])
            if u:
                self.unksyms[v[1]] = u
            return t
        if v[0] == 'a' and not v[4]:
            d = self.discr_const(v)
            if d is not None:
                return num(d)
        return self.sym('num(%s)' % self.term(st, v), None, 'num of ' + v[0])

    def discr_const(self, v):
        a = self.F.adt(v[1])
        if a and v[2] in a['byname']:
            d = a['byname'][v[2]][1]['d']
            return d
        return None

    def discr(self, st, v, ty):
        v = self.strip(st, v)
        if v[0] == 'upd':
            v = self.strip(st, v[1])
        if v[0] == 'a':
            d = self.discr_const(v)
            if d is None:
                d = {'None': 0, 'Some': 1, 'Ok': 0, 'Err': 1}.get(v[2], 0)
            return num(d)
        if v[0] == 'o':
            return self.discr_sym(v[1], ty)
        if v[0] == 'bot':
            return num(0)
        return self.sym('discr(%s)' % self.term(st, v), None, 'discriminant of ' + v[0])

    def known_term(self, st, path, depth):
        """a value whose variant is fixed on this path, written as that variant"""
        ty = self.adtof.get(path)
        if ty is None or depth > 20:
            return path
        r = rs_inter(self.symty.get('discr(%s)' % path) or ((NEG, POS),), self.rng(st, (('discr(%s)' % path, 1),)))
        c = rs_const(r)
        if c is None:
            return path
        if ty == 'std::option::Option':
            return 'None' if c == 0 else 'Some(%s)' % self.term(st, ('o', path + '.Some'), depth + 1) if c == 1 else path
        if ty == 'std::result::Result':
            n = 'Ok' if c == 0 else 'Err'
            return '%s(%s)' % (n, self.term(st, ('o', path + '.' + n), depth + 1)) if c in (0, 1) else path
        if self.is_clike(ty):
            for x in self.F.adt(ty)['variants']:
                if x['d'] == c:
                    return x['n']
        return path

    def discr_sym(self, path, ty):
        if ty:
            self.adtof.setdefault(path, strip_generics(ty))
        a = self.F.adt(strip_generics(ty)) if ty else None
        rng = None
        if a and a['kind'] == 'enum':
            rng = rs(*[(x['d'], x['d']) for x in a['variants'] if x['d'] is not None])
        u = self.unk_of(path)
        return self.sym('discr(%s)' % path, rng, u)

    def is_clike(self, ty):
        a = self.F.adt(strip_generics(ty)) if ty else None
        return bool(a and a['kind'] == 'enum' and a['variants'] and all(not v['f'] for v in a['variants']))

    def const(self, c):
        t = c.get('t', '')
        if 'fn' in c:
            return ('f', json.dumps(c['fn'], sort_keys=True))
        if 'v' not in c:
            if 'name' in c:
                return ('o', 'const ' + c['name'])
            return ('o', 'const?' + t)
        return self.cv(c['v'], t)

    def cv(self, v, t=''):
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if isinstance(v, int):
            return num(v)
        if isinstance(v, list):
            tt = t.lstrip('&').strip()
            if tt.startswith('('):
                return ('t', tuple(self.cv(x) for x in v))
            if v and all(isinstance(x, int) and not isinstance(x, bool) and 0 <= x < 256 for x in v) and ('u8' in t):
                r = ('v', (('k', bytes(v)),))
            else:
                r = ('l', tuple(self.cv(x) for x in v))
            return ('cr', r) if t.startswith('&') else r
        if isinstance(v, dict):
            if 'str' in v:
                return ('s', v['str'])
            if 'ref' in v:
                return ('cr', self.cv(v['ref'], t[1:] if t.startswith('&') else t))
            if 'adt' in v and v['adt'].endswith('Address') and len(v['f']) == 1 and isinstance(v['f'][0][1], dict) and v['f'][0][1].get('adt', '').endswith('FixedBytes'):
                return self.cv(v['f'][0][1])
            if 'adt' in v and v['adt'].endswith('FixedBytes') and len(v['f']) == 1 and isinstance(v['f'][0][1], list):
                return ('v', (('k', bytes(v['f'][0][1])),))
            if 'adt' in v:
                return ('a', v['adt'], v['var'], tuple(n for n, _ in v['f']), tuple(self.cv(x) for _, x in v['f']))
            if 'char' in v:
                return num(v['char'])
            if 'unit' in v:
                return UNIT
            if 'fbits' in v:
                import struct
                b = v['fbits']
                f = struct.unpack('<d', struct.pack('<Q', b))[0] if t == 'f64' else struct.unpack('<f', struct.pack('<I', b))[0]
                if f != f or f in (float('inf'), float('-inf')):
                    return ('o', 'float %r' % f)
                return num(int(round(f * FLOAT_SCALE)))
            if 'static' in v:
                return ('o', 'static ' + v['static'])
        return ('o', 'const?' + json.dumps(v, sort_keys=True)[:80])

    # ------------------------------------------------------------ places
    def proj_of(self, st, fid, elems):
        out = []
        for e in elems:
            if e == '*':
                out.append(('*',))
            elif e[0] == 'f':
                out.append(('f', e[1], e[2]))
            elif e[0] == 'd':
                out.append(('d', e[1], e[2]))
            elif e[0] == 'i':
                out.append(('i', self.strip(st, st.mem.get((fid, e[1]), ('bot',)))))
            elif e[0] == 'ci':
                out.append(('i', num(e[1]) if not e[3] else ('o', '-%d' % e[1])))
            elif e[0] == 'ss':
                out.append(('ss', e[1], e[2], e[3]))
        return out

    def read(self, st, fid, place):
        v = st.mem.get((fid, place[0]), ('bot',))
        if len(place) > 1:
            for p in self.proj_of(st, fid, place[1:]):
                if p[0] == 'ss':
                    v = self.subslice(st, v, p)
                else:
                    v = self.project(st, v, p)
        return v

    def from_end(self, st, v, ix):
        """an index counted from the end of a slice, as an index from its start"""
        n = self.len_of(st, v)
        c = rs_const(self.range_of(st, n)) if n[2] else n[1]
        return lin_add(num(c) if c is not None else n, num(int(ix[1][1:])), -1)

    def subslice(self, st, v, p):
        v = self.strip(st, v)
        if v[0] == 'l':
            return ('l', v[1][p[1]:len(v[1]) - p[2]] if p[3] else v[1][p[1]:p[2]])
        if v[0] in ('v', 's', 'o'):
            import models
            n = self.len_of(st, v)
            c = rs_const(self.range_of(st, n)) if n[2] else n[1]
            if c is not None:
                n = num(c)
            return models.slice_val(self, st, v, num(p[1]), lin_add(n, num(p[2]), -1) if p[3] else num(p[2]), n)
        return ('o', '%s[%d..%s%d]' % (self.term(st, v), p[1], '-' if p[3] else '', p[2]))

    def locate(self, st, fid, place):
        """location named by a place: ('cell', cid, proj) or ('path', p) or ('val', v)"""
        loc = ('cell', (fid, place[0]), ())
        for p in self.proj_of(st, fid, place[1:]):
            if p[0] == '*':
                v = self.load(st, loc[1], loc[2]) if loc[0] == 'cell' else self.lookup(st, loc[1]) if loc[0] == 'path' else loc[1]
                if v is None:
                    continue
                if v[0] == 'r':
                    loc = ('cell', v[1], v[2])
                elif v[0] == 'o':
                    loc = ('path', v[1])
                elif v[0] == 'cr':
                    loc = ('val', v[1])
                elif loc[0] == 'cell' and not loc[2] and v[0] != 'bot' and self.stack and loc[1] == (fid, place[0]):
                    ls = self.stack[-1]['locals']
                    ty = ls[place[0]][0] if place[0] < len(ls) else ''
                    if ty.startswith('&') and not ty.startswith('&mut'):
                        loc = ('val', v)     # a shared reference represented by the value it points to
                # a value held directly (boxes are transparent): same location
            elif loc[0] == 'cell':
                loc = ('cell', loc[1], loc[2] + (p,))
            elif loc[0] == 'path':
                cur = self.lookup(st, loc[1])
                if cur is not None and cur[0] == 'o' and cur[1] != loc[1]:
                    v = self.project(st, cur, p)
                    loc = ('path', v[1]) if v[0] == 'o' else ('val', v)
                    continue
                if p[0] == 'd':
                    loc = ('path', loc[1] + '.{' + p[2] + '}')
                elif p[0] == 'f':
                    nm = p[2] if p[2] is not None else str(p[1])
                    if loc[1].endswith('}'):
                        base, var = loc[1][:-1].rsplit('.{', 1)
                        loc = ('path', base + '.' + var if nm == '0' else base + '.' + var + '.' + nm)
                    else:
                        loc = ('path', loc[1] + '.' + nm)
                elif p[0] == 'i':
                    ix = p[1]
                    if ix[0] == 'o' and ix[1][:1] == '-' and ix[1][1:].isdigit():
                        ix = self.from_end(st, ('o', loc[1]), ix)
                    loc = ('path', '%s[%s]' % (loc[1], self.ixterm(st, ix)))
                else:
                    loc = ('val', self.subslice(st, ('o', loc[1]), p))
                if loc[0] == 'path':
                    self.inherit_unk(base if False else loc[1], loc[1])
            else:
                loc = ('val', self.subslice(st, loc[1], p) if p[0] == 'ss' else self.project(st, loc[1], p))
        return loc

    def mkref(self, st, fid, place):
        loc = self.locate(st, fid, place)
        if loc[0] == 'cell':
            v = self.load(st, loc[1], loc[2])
            if loc[2] and v[0] == 'o' and not (st.over and v[1] in st.over):
                base = st.mem.get(loc[1])
                if base is not None and base[0] == 'o':
                    # a field of a symbolic object held by value: name it by path
                    return ('r', loc[1], loc[2])
            if any(p[0] == 'ss' for p in loc[2]):
                return ('cr', v)
            return ('r', loc[1], loc[2])
        if loc[0] == 'path':
            return ('o', loc[1])
        return ('cr', loc[1])

    def write(self, st, fid, place, val):
        if len(place) == 1:
            st.mem[(fid, place[0])] = val
            return
        loc = self.locate(st, fid, place)
        self.store(st, loc, val)

    def store(self, st, loc, val):
        if loc[0] == 'cell':
            if loc[2]:
                st.mem[loc[1]] = self.updated(st, st.mem.get(loc[1], ('bot',)), loc[2], val)
            else:
                st.mem[loc[1]] = val
        elif loc[0] == 'path':
            st.over = dict(st.over)
            pre = loc[1]
            for k in list(st.over):
                if k.startswith(pre) and len(k) > len(pre) and k[len(pre)] in '.[':
                    del st.over[k]
            st.over[pre] = val

    def updated(self, st, base, proj, val):
        if not proj:
            return val
        p = proj[0]
        if p[0] == 'd':
            return self.updated(st, base, proj[1:], val)
        if p[0] == '*':
            if base[0] in ('r',):
                self.store(st, ('cell', base[1], base[2] + proj[1:]), val)
                return base
            return self.updated(st, base, proj[1:], val)
        inner = self.updated(st, self.project(st, base, p), proj[1:], val)
        if p[0] == 'sl':
            import models
            n = self.len_of(st, base)
            a = models.slice_val(self, st, base, num(0), p[1], n)
            b = models.slice_val(self, st, base, p[2], n, n)
            if base[0] == 'o' and not (p[1] == num(0) and p[2] == n):
                return ('o', 'modified(%s)' % self.term(st, base))
            segs = []
            for x in (a, inner, b):
                for g in self.segs_of(st, x):
                    segs = self.seg_push(segs, g)
            return ('v', tuple(segs))
        if p[0] == 'f':
            name = p[2] if p[2] is not None else str(p[1])
            if base[0] == 'a':
                i = base[3].index(name) if name in base[3] else p[1]
                vs = list(base[4])
                while len(vs) <= i:
                    vs.append(('bot',))
                vs[i] = inner
                return base[:4] + (tuple(vs),)
            if base[0] == 't':
                vs = list(base[1])
                while len(vs) <= p[1]:
                    vs.append(('bot',))
                vs[p[1]] = inner
                return ('t', tuple(vs))
            if base[0] == 'bot':
                if p[2] is None or str(p[2]).isdigit():
                    return ('t', tuple([('bot',)] * p[1] + [inner]))
                return ('upd', ('bot',), ((name, inner),))
            if base[0] == 'cl':
                vs = list(base[3])
                if p[1] < len(vs):
                    vs[p[1]] = inner
                return base[:3] + (tuple(vs),)
            if base[0] == 'upd':
                d = [(n, x) for n, x in base[2] if n != name] + [(name, inner)]
                return ('upd', base[1], tuple(sorted(d, key=lambda z: z[0])))
            return ('upd', base, ((name, inner),))
        if p[0] == 'i':
            if base[0] == 'l':
                x = self.strip(st, p[1])
                if x[0] == 'n' and not x[2] and 0 <= x[1] < len(base[1]):
                    vs = list(base[1])
                    vs[x[1]] = inner
                    return ('l', tuple(vs))
            return ('o', 'modified(%s)' % self.term(st, base))
        return base

    # ------------------------------------------------------------ operands and rvalues
    def operand(self, st, fid, o):
        if o[0] == 'k':
            return self.const(o[1])
        return self.read(st, fid, o[1])

    def coerce(self, st, v, ty):
        if v[0] == 'o' and (ty in INT or ty in ('f64', 'f32')):
            if st.over and v[1] in st.over:
                return self.coerce(st, st.over[v[1]], ty)
            return self.nval(st, v, ty)
        return v

    def wrap(self, st, v, ty):
        """v known only as a mathematical number; give it the machine type"""
        if ty not in INT:
            return v
        lo, hi = INT[ty]
        r = self.range_of(st, v)
        if r and r[0][0] >= lo and r[-1][1] <= hi:
            return v
        if not v[2]:
            n = hi - lo + 1
            return num((v[1] - lo) % n + lo)
        return self.sym('(%s as %s)' % (lin_str(v), ty), ((lo, hi),), self.lin_unk(v))

    def lin_unk(self, v):
        for s, _ in v[2]:
            if s in self.unksyms:
                return self.unksyms[s]
        return None

    def binop(self, st, op, a, b, ty):
        if ty.startswith('&') or ty.startswith('*'):
            pass
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if ty in ('f64', 'f32') or ty in INT or ty == '()':
                return self.cmpv(st, op, self.nval(st, a, ty), self.nval(st, b, ty))
            return self.cmpv(st, op, self.nval(st, a), self.nval(st, b))
        wo = op.endswith('WithOverflow')
        base = op[:-len('WithOverflow')] if wo else op
        base = base.replace('Unchecked', '')
        if base == 'Cmp':
            x, y = self.nval(st, a, ty), self.nval(st, b, ty)
            return ('cmp3', x, y)
        x, y = self.nval(st, a, ty), self.nval(st, b, ty)
        fl = ty in ('f64', 'f32')
        res = None
        if base == 'Add':
            res = lin_add(x, y)
        elif base == 'Sub':
            res = lin_add(x, y, -1)
        elif base == 'Mul' and not fl:
            if not x[2]:
                res = ('n', x[1] * y[1], tuple((s, k * x[1]) for s, k in y[2] if x[1]))
            elif not y[2]:
                res = ('n', x[1] * y[1], tuple((s, k * y[1]) for s, k in x[2] if y[1]))
        elif not x[2] and not y[2] and not fl:
            c, d = x[1], y[1]
            try:
                res = num({'Div': lambda: abs(c) // abs(d) * (1 if (c < 0) == (d < 0) else -1), 'Rem': lambda: c - (abs(c) // abs(d) * (1 if (c < 0) == (d < 0) else -1)) * d, 'BitAnd': lambda: c & d, 'BitOr': lambda: c | d, 'BitXor': lambda: c ^ d, 'Shl': lambda: c << d, 'Shr': lambda: c >> d}[base]())
            except (KeyError, ZeroDivisionError, ValueError):
                res = None
        if res is None and base in ('BitAnd', 'BitOr', 'BitXor') and ty == 'bool':
            return ('b2', base, a, b)
        if res is None and base == 'Shl' and not y[2]:
            k = 1 << y[1]
            res = ('n', x[1] * k, tuple((s, c * k) for s, c in x[2]))
        if res is None and not fl and base in ('Shr', 'BitAnd', 'BitOr', 'BitXor', 'Div', 'Rem'):
            base, x, y, res = self.bits(st, base, x, y)
        if res is None:
            nm = '(%s %s %s)' % (lin_str(x), {'Div': '/', 'Rem': '%', 'BitAnd': '&', 'BitOr': '|', 'BitXor': '^', 'Shl': '<<', 'Shr': '>>', 'Mul': '*'}.get(base, base), lin_str(y))
            rg = ((INT[ty][0], INT[ty][1]),) if ty in INT else FULL
            rx = self.range_of(st, x)
            if not y[2] and y[1] > 0 and rx and rx[0][0] >= 0:
                if base == 'Div':
                    rg = rs_inter(rg, rs(*[(l // y[1], h // y[1]) for l, h in rx]))
                elif base == 'Shr':
                    rg = rs_inter(rg, rs(*[(l >> y[1], h >> y[1]) for l, h in rx]))
                elif base == 'Rem':
                    rg = rs_inter(rg, ((0, y[1] - 1),))
                    if rx[-1][1] < y[1]:
                        res = x
                elif base == 'BitAnd':
                    rg = rs_inter(rg, ((0, y[1]),))
            if res is None:
                u = self.lin_unk(x) or self.lin_unk(y)
                res = self.sym(nm, rg, u)
                k = res[2]
                st.R[k] = rs_inter(st.R.get(k, rg), rg) or rg
        if fl:
            return res
        lo, hi = INT.get(ty, (NEG, POS))
        if wo:
            r = self.range_of(st, res)
            over = FALSE
            if r and (r[0][0] < lo or r[-1][1] > hi):
                over = ('c', res[2], rs_shift(rs_compl(((lo, hi),)), -res[1])) if res[2] else TRUE
            return ('t', (res, over))
        return self.wrap(st, res, ty) if base in ('Add', 'Sub', 'Mul', 'Shl') else res

    def bits(self, st, base, x, y):
        """one spelling for the bit operations on non-negative numbers: shifts and low masks become / and %, disjoint unions become sums"""
        if base in ('BitAnd', 'BitOr', 'BitXor') and not x[2]:
            x, y = y, x
        rx, ry = self.range_of(st, x), self.range_of(st, y)
        if not rx or rx[0][0] < 0 or not ry or ry[0][0] < 0:
            return base, x, y, None
        if not y[2]:
            c = y[1]
            if base == 'Shr' and 0 <= c < 128:
                base, c = 'Div', 1 << c
            elif base == 'BitAnd' and c & (c + 1) == 0:
                if c == 0:
                    return base, x, y, num(0)
                base, c = 'Rem', c + 1
            elif base in ('BitOr', 'BitXor') and c == 0:
                return base, x, y, x
            y = num(c)
            if base in ('Div', 'Rem') and c > 0:
                # x = c*u + v
                u = ('n', x[1] // c, tuple((s, k // c) for s, k in x[2] if k % c == 0))
                v = ('n', x[1] % c, tuple((s, k) for s, k in x[2] if k % c))
                rv = ((v[1], v[1]),) if not v[2] else self.range_of(st, v)
                ru = ((u[1], u[1]),) if not u[2] else self.range_of(st, u)
                if rv and rv[0][0] >= 0 and rv[-1][1] < c and ru and ru[0][0] >= 0:
                    return base, x, y, u if base == 'Div' else v
        if base in ('BitOr', 'BitXor'):
            for a, b, rb in ((x, y, ry), (y, x, rx)):
                hi = rb[-1][1]
                if hi >= POS:
                    continue
                k = 1 << max(int(hi), 0).bit_length()
                if a[1] % k == 0 and all(c % k == 0 for _, c in a[2]):
                    return base, x, y, lin_add(a, b)
            if lin_str(y) < lin_str(x):
                x, y = y, x
        return base, x, y, None

    def rvalue(self, st, fid, rv, dty):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fid, rv[1])
        if k == 'ref' or k == 'addr':
            return self.mkref(st, fid, rv[2] if k == 'ref' else rv[1])
        if k == 'bin':
            return self.binop(st, rv[1], self.operand(st, fid, rv[2]), self.operand(st, fid, rv[3]), rv[4])
        if k == 'un':
            v = self.operand(st, fid, rv[2])
            if rv[1] == 'Not':
                if rv[3] == 'bool':
                    sv = self.strip(st, v)
                    if sv[0] == 'b2':
                        return ('b2', 'Not', sv, None)
                    return self.neg(st, v)
                x = self.nval(st, v, rv[3])
                return self.sym('!%s' % lin_str(x), (INT.get(rv[3], (NEG, POS)),))
            if rv[1] == 'Neg':
                x = self.nval(st, v, rv[3])
                return ('n', -x[1], tuple((s, -c) for s, c in x[2]))
            if rv[1] == 'PtrMetadata':
                return self.len_of(st, v)
            return ('o', '%s(%s)' % (rv[1], self.term(st, v)))
        if k == 'discr':
            v = self.read(st, fid, rv[1])
            return self.discr(st, v, rv[2])
        if k == 'agg':
            ops = tuple(self.operand(st, fid, o) for o in rv[2])
            a = rv[1]
            if a[0] == 'tuple':
                return ('t', ops)
            if a[0] == 'array':
                return self.mk_array(st, ops, dty)
            if a[0] == 'adt':
                if a[1] == 'std::boxed::Box' and len(ops) >= 1:
                    return ops[0]
                return ('a', a[1], a[2], tuple(a[4]), ops)
            if a[0] in ('closure', 'coroutine'):
                return ('cl', a[1], a[2], ops)
            return ('t', ops)
        if k == 'cast':
            v = self.operand(st, fid, rv[2])
            if rv[1] in ('IntToInt', 'FloatToInt', 'IntToFloat', 'FloatToFloat'):
                sv = self.strip(st, v)
                if sv[0] in ('c', 'b2'):
                    x = self.nval(st, sv)
                else:
                    x = self.nval(st, v, rv[3] if rv[3] in INT or rv[3] in ('f64', 'f32') else None)
                if rv[1] == 'IntToFloat':
                    return ('n', x[1] * FLOAT_SCALE, tuple((s, c * FLOAT_SCALE) for s, c in x[2]))
                if rv[1] == 'FloatToInt':
                    if not x[2]:
                        return num(int(x[1] / FLOAT_SCALE))
                    return self.sym('(%s as %s)' % (lin_str(x), rv[4]), (INT[rv[4]],) if rv[4] in INT else None, 'float to int')
                return self.wrap(st, x, rv[4])
            return v
        if k == 'rep':
            v = self.operand(st, fid, rv[1])
            if rv[2] is not None and int(rv[2]) <= 64:
                n = int(rv[2])
                x = self.strip(st, v)
                if x[0] == 'n' and not x[2] and 0 <= x[1] < 256 and 'u8' in dty:
                    return ('v', (('k', bytes([x[1]]) * n),))
                return ('l', (v,) * n)
            return ('o', '[%s; %s]' % (self.term(st, v), rv[2]))
        return ('o', 'rvalue:' + k)

    def mk_array(self, st, ops, dty):
        if dty.startswith('[u8'):
            segs = []
            for o in ops:
                x = self.strip(st, o)
                if x[0] != 'n':
                    x = self.nval(st, o, 'u8')
                segs = self.seg_push(segs, ('k', bytes([x[1]])) if not x[2] else ('be', x, 1))
            return ('v', tuple(segs))
        return ('l', ops)

    @staticmethod
    def seg_push(segs, s):
        segs = list(segs)
        if s[0] == 'k' and segs and segs[-1][0] == 'k':
            segs[-1] = ('k', segs[-1][1] + s[1])
        elif not (s[0] == 'k' and not s[1]):
            segs.append(s)
        return segs

    def segs_of(self, st, v):
        """byte segments of a value used as a byte string"""
        v = self.strip(st, v)
        if v[0] == 'v':
            return v[1]
        if v[0] == 's':
            return (('k', v[1].encode()),) if v[1] else ()
        if v[0] == 'l':
            segs = []
            for o in v[1]:
                x = self.nval(st, o, 'u8')
                segs = self.seg_push(segs, ('k', bytes([x[1] & 255])) if not x[2] else ('be', x, 1))
            return tuple(segs)
        if v[0] == 'n':
            return (('be', v, 1),)
        t = self.term(st, v)
        return self.segpath.get(t) or (('p', t),)

    def len_of(self, st, v):
        v = self.strip(st, v)
        if v[0] == 'o':
            return self.length(v[1])
        if v[0] == 's':
            return num(len(v[1].encode()))
        if v[0] == 'l':
            return num(len(v[1]))
        if v[0] == 'm':
            return num(len(v[1]))
        if v[0] == 'v':
            n = num(0)
            for s in v[1]:
                n = lin_add(n, num(len(s[1])) if s[0] == 'k' else num(s[2]) if s[0] in ('be', 'le') else self.length(s[1]))
            return n
        if v[0] == 'sv':      # symbolic vec built by pushes onto something
            return self.length(self.term(st, v))
        return self.length(self.term(st, v))

    # ------------------------------------------------------------ control
    def cfg_of(self, fn):
        k = id(fn)
        c = self.cfg.get(k)
        if c:
            return c
        bl = fn['blocks']
        succ = []
        for b in bl:
            t = b[1]
            s = []
            kk = t['k']
            if kk in ('goto', 'drop', 'assert', 'yield'):
                s = [t['t']]
            elif kk == 'switch':
                s = [x[1] for x in t['v']] + [t['o']]
            elif kk == 'call' and t['t'] is not None:
                s = [t['t']]
            succ.append(s)
        order = {}
        seen = set()
        post = []
        back = set()
        onstk = set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        onstk.add(0)
        while stack:
            n, it = stack[-1]
            adv = False
            for m in it:
                if m in onstk:
                    back.add(m)
                if m not in seen:
                    seen.add(m)
                    onstk.add(m)
                    stack.append((m, iter(succ[m])))
                    adv = True
                    break
            if not adv:
                stack.pop()
                onstk.discard(n)
                post.append(n)
        for i, n in enumerate(reversed(post)):
            order[n] = i
        npred = {}
        for n in seen:
            for m in succ[n]:
                npred[m] = npred.get(m, 0) + 1
        # liveness
        def uses_place(p, u):
            u.add(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == 'i':
                    u.add(e[1])
        addr = set()
        gen = []
        kill = []
        for b in bl:
            g, kl = set(), set()
            def use_op(o):
                if o[0] != 'k':
                    u = set()
                    uses_place(o[1], u)
                    g.update(x for x in u if x not in kl)
            def use_pl(p):
                u = set()
                uses_place(p, u)
                g.update(x for x in u if x not in kl)
            for s in b[0]:
                if s[0] == '=':
                    rv = s[2]
                    if rv[0] in ('use', 'rep'):
                        use_op(rv[1])
                    elif rv[0] == 'bin':
                        use_op(rv[2]); use_op(rv[3])
                    elif rv[0] in ('un', 'cast'):
                        use_op(rv[2])
                    elif rv[0] == 'agg':
                        for o in rv[2]:
                            use_op(o)
                    elif rv[0] == 'ref':
                        use_pl(rv[2])
                        if '*' not in rv[2]:
                            addr.add(rv[2][0])
                    elif rv[0] == 'addr':
                        use_pl(rv[1])
                        if '*' not in rv[1]:
                            addr.add(rv[1][0])
                    elif rv[0] == 'discr':
                        use_pl(rv[1])
                    if len(s[1]) == 1:
                        if s[1][0] not in g:
                            kl.add(s[1][0])
                    else:
                        use_pl(s[1])
                elif s[0] == 'dead':
                    kl.add(s[1]) if s[1] not in g else None
            t = b[1]
            if t['k'] == 'switch':
                use_op(t['d'])
            elif t['k'] == 'call':
                for a in t['args']:
                    use_op(a)
                if 'fo' in t:
                    use_op(t['fo'])
                if len(t['d']) == 1:
                    if t['d'][0] not in g:
                        kl.add(t['d'][0])
                else:
                    use_pl(t['d'])
            elif t['k'] == 'assert':
                use_op(t['c'])
            elif t['k'] == 'yield':
                use_op(t['v'])
            gen.append(g)
            kill.append(kl)
        live = [set() for _ in bl]
        ch = True
        while ch:
            ch = False
            for n in post:
                out = set()
                for m in succ[n]:
                    out |= live[m]
                if not succ[n]:
                    out.add(0)
                new = gen[n] | (out - kill[n])
                if new != live[n]:
                    live[n] = new
                    ch = True
        # natural loop bodies (for havoc decisions): blocks that can reach the header
        c = (succ, order, npred, back, [l | addr for l in live])
        self.cfg[k] = c
        return c

    def canon(self, st):
        return (frozenset(st.mem.items()), frozenset(st.R.items()), frozenset(st.over.items()), st.ev, st.unk)

    def merge(self, states):
        if len(states) < 2:
            return states
        groups = {}
        for s in states:
            k = (frozenset(s.mem.items()), frozenset(s.over.items()), s.ev, s.unk)
            groups.setdefault(k, []).append(s)
        out = []
        for k, g in groups.items():
            if len(g) == 1:
                out.append(g[0])
                continue
            base = g[0]
            R = dict(base.R)
            for o in g[1:]:
                N = {}
                for key in set(R) | set(o.R):
                    a = R.get(key)
                    b = o.R.get(key)
                    if a is None:
                        a = self.symty.get(key[0][0], FULL) if len(key) == 1 else self.rng(base, key)
                    if b is None:
                        b = self.symty.get(key[0][0], FULL) if len(key) == 1 else self.rng(o, key)
                    u = rs_union(a, b)
                    if len(key) > 1 and (u == FULL or (u[0][0] <= NEG and u[-1][1] >= POS and len(u) == 1)):
                        continue
                    if len(key) == 1 and u == self.symty.get(key[0][0], FULL):
                        continue
                    N[key] = u
                R = N
                base = base.copy()
                base.R = R
            m = base.copy()
            m.R = R
            out.append(m)
        return out

    def call_fn(self, st, fn, args):
        """run a body; returns [(state, value)]"""
        if len(self.stack) > self.spec.inline_depth:
            raise Budget('inline depth')
        self.used_fns.add(fn['path'])
        fid = len(self.stack) + 1
        self.stack.append(fn)
        try:
            return self.body(st, fn, args, fid)
        finally:
            self.stack.pop()

    def body(self, st, fn, args, fid):
        succ, order, npred, back, live = self.cfg_of(fn)
        st = st.copy()
        for i, a in enumerate(args):
            ty = fn['locals'][i + 1][0] if i + 1 < len(fn['locals']) else ''
            st.mem[(fid, i + 1)] = self.coerce(st, a, ty)
        pending = {0: [st]}
        heap = [(0, 0)]
        visited = {}
        visits = {}
        acc = {}
        results = []
        while heap:
            _, bb = heapq.heappop(heap)
            states = pending.pop(bb, None)
            if not states:
                continue
            lv = live[bb]
            if npred.get(bb, 0) > 1 or len(states) > 1:
                for s in states:
                    for k in [k for k in s.mem if k[0] == fid and k[1] not in lv and k[1] != 0]:
                        del s.mem[k]
                states = self.merge(states)
            isback = bb in back
            if isback:
                vs = visited.setdefault(bb, set())
                n = visits[bb] = visits.get(bb, 0) + 1
                keep = []
                for s in states:
                    s = self.widen(s, fid, n, acc.setdefault(bb, {}))
                    c = self.canon(s)
                    if c not in vs:
                        vs.add(c)
                        keep.append(s)
                states = keep
                if n > 60 or len(vs) > 400:
                    raise Budget('loop in %s, line %s' % (fn['path'], fn['blocks'][bb][1].get('l')))
            if len(states) > 1200:
                raise Budget('too many states in %s' % fn['path'])
            for s in states:
                self.steps += 1
                if self.steps > self.budget:
                    raise Budget('step budget (%s)' % fn['path'])
                for nb, ns in self.block(s, fn, bb, fid, results):
                    pending.setdefault(nb, []).append(ns)
                    heapq.heappush(heap, (order.get(nb, 1 << 30), nb))
        # join the callers' view
        out = []
        for s, v in results:
            for k in [k for k in s.mem if k[0] == fid]:
                del s.mem[k]
            out.append((s, v))
        if len(out) > 1:
            by = {}
            for s, v in out:
                by.setdefault(v, []).append(s)
            out = [(s, v) for v, ss in by.items() for s in self.merge(ss)]
        return out

    def widen(self, s, fid, n, acc):
        """after several visits forget numeric values that keep changing"""
        s = s.copy()
        if n > 3:
            for k, v in list(s.mem.items()):
                if k[0] == fid and v[0] == 'n' and not v[2] and abs(v[1]) > 2:
                    ty = self.stack[-1]['locals'][k[1]][0]
                    nm = 'w%d_%d' % (fid, k[1])
                    self.sym(nm, (INT.get(ty, (NEG, POS)),), None)
                    s.mem[k] = symn(nm)
        for key in list(s.R):
            r = s.R[key]
            o = acc.get(key)
            if o is None:
                acc[key] = r
            elif n <= 12:
                acc[key] = rs_union(o, r)
            elif rs_union(o, r) != o and any(sy not in self.keep0 for sy, _ in key):
                del s.R[key]
        return s

    def split_b2(self, st, v):
        """resolve a lazy boolean combination into [(state, const bool)]"""
        v = self.strip(st, v)
        if v[0] != 'b2':
            out = []
            for t in (True, False):
                for s in self.assume(st, v, t):
                    out.append((s, t))
            return out
        if v[1] == 'Not':
            return [(s, not t) for s, t in self.split_b2(st, v[2])]
        out = []
        for s1, a in self.split_b2(st, v[2]):
            for s2, b in self.split_b2(s1, v[3]):
                out.append((s2, (a and b) if v[1] == 'BitAnd' else (a or b) if v[1] == 'BitOr' else a != b))
        return out

    def block(self, st, fn, bb, fid, results):
        stmts, t = fn['blocks'][bb][0], fn['blocks'][bb][1]
        st = st.copy()
        sts = [st]
        for s in stmts:
            nxt = []
            for st in sts:
                if s[0] == '=':
                    dty = fn['locals'][s[1][0]][0] if len(s[1]) == 1 else ''
                    v = self.rvalue(st, fid, s[2], dty)
                    if v[0] == 'b2':
                        for s2, tv in self.split_b2(st, v):
                            s2 = s2.copy()
                            self.write(s2, fid, s[1], TRUE if tv else FALSE)
                            nxt.append(s2)
                        continue
                    if v[0] == 'cmp3':
                        for s2, nm, ov in self.three_way(st, v[1], v[2]):
                            s2 = s2.copy()
                            self.write(s2, fid, s[1], ov)
                            nxt.append(s2)
                        continue
                    if dty:
                        v = self.coerce(st, v, dty)
                    self.write(st, fid, s[1], v)
                elif s[0] == 'dead':
                    st.mem.pop((fid, s[1]), None)
                elif s[0] == 'setd':
                    pass
                nxt.append(st)
            sts = nxt
        out = []
        for st in sts:
            out.extend(self.term_exec(st, fn, bb, fid, t, results))
        return out

    def three_way(self, st, a, b):
        out = []
        for op, var in (('Lt', 'Less'), ('Eq', 'Equal'), ('Gt', 'Greater')):
            for s in self.assume(st, self.cmpv(st, op, a, b), True):
                out.append((s, var, ('a', 'std::cmp::Ordering', var, (), ())))
        return out

    def term_exec(self, st, fn, bb, fid, t, results):
        k = t['k']
        if k == 'goto' or k == 'drop':
            return [(t['t'], st)]
        if k == 'yield':
            self.write(st, fid, t['d'], ('o', 'resume'))
            return [(t['t'], st)]
        if k == 'ret':
            v = st.mem.get((fid, 0), UNIT)
            results.append((st, self.deref_own(st, v, fid)))
            return []
        if k == 'switch':
            return self.switch(st, fid, t)
        if k == 'assert':
            out = []
            c = self.operand(st, fid, t['c'])
            good = self.assume(st, c, bool(t['e']))
            bad = self.assume(st, c, not t['e'])
            for b in bad:
                self.panic(b, fn, t['m'])
            return [(t['t'], g) for g in good]
        if k == 'call':
            return self.do_call(st, fn, bb, fid, t)
        return []

    def deref_own(self, st, v, fid):
        """a returned value must not point into the dying frame"""
        if v[0] == 'r' and v[1][0] == fid:
            return ('cr', self.deref_own(st, self.load(st, v[1], v[2]), fid))
        if v[0] == 'a' and any(x[0] in ('r', 'a', 't', 'l') for x in v[4]):
            return v[:4] + (tuple(self.deref_own(st, x, fid) for x in v[4]),)
        if v[0] in ('t', 'l') and any(x[0] in ('r', 'a', 't', 'l') for x in v[1]):
            return (v[0], tuple(self.deref_own(st, x, fid) for x in v[1]))
        return v

    def panic(self, st, fn, msg):
        self.outcomes.append(Outcome('panic', msg, st, fn['path']))

    def switch(self, st, fid, t):
        v = self.strip(st, self.operand(st, fid, t['d']))
        out = []
        if v[0] in ('c', 'b2') or t['ty'] == 'bool':
            for val in (True, False):
                tgt = t['o']
                for x, b in t['v']:
                    if (x != 0) == val:
                        tgt = b
                for s in self.assume(st, v, val) if v[0] != 'b2' else [s for s, b in self.split_b2(st, v) if b == val]:
                    out.append((tgt, s))
            return out
        n = self.nval(st, v, t['ty'])
        lo, hi = INT.get(t['ty'], (NEG, POS))
        if t['ty'] in INT and lo < 0:
            bits = (hi - lo + 1)
            vals = [(x - bits if x > hi else x, b) for x, b in t['v']]
        else:
            vals = t['v']
        if not n[2]:
            for x, b in vals:
                if x == n[1]:
                    return [(b, st)]
            return [(t['o'], st)]
        rest = self.range_of(st, n)
        for x, b in vals:
            if rs_inter(rest, ((x, x),)):
                c = ('c', n[2], ((x - n[1], x - n[1]),))
                for s in self.assume(st, c, True):
                    out.append((b, s))
        excl = rs_compl(rs(*[(x, x) for x, _ in vals]))
        if rs_inter(rest, excl):
            c = ('c', n[2], rs_shift(excl, -n[1]))
            for s in self.assume(st, c, True):
                out.append((t['o'], s))
        return out

    # ------------------------------------------------------------ calls
    def do_call(self, st, fn, bb, fid, t):
        args = [self.operand(st, fid, a) for a in t['args']]
        dty = fn['locals'][t['d'][0]][0] if len(t['d']) == 1 else None
        if 'fo' in t:
            f = self.strip(st, self.operand(st, fid, t['fo']))
            res = self.call_value(st, f, args, dty)
        else:
            res = self.call(st, t['f'], args, dty, fn, t)
        out = []
        if t['t'] is None:
            if not res:
                return out
            for s, v in res:
                self.panic(s, fn, 'diverging call ' + (t.get('f') or {}).get('p', '?'))
            return out
        for s, v in res:
            s = s.copy()
            if dty:
                v = self.coerce(s, v, dty)
            self.write(s, fid, t['d'], v)
            out.append((t['t'], s))
        return out

    def call_value(self, st, f, args, dty=None):
        f = self.strip(st, f)
        if f[0] == 'f':
            return self.call(st, json.loads(f[1]), args, dty, None, None)
        if f[0] == 'cl':
            fn = self.F.find(f[1], f[2])
            if fn is None:
                return [(st, self.opaque_call(st, 'closure', args, dty))]
            self_ty = fn['locals'][1][0]
            if self_ty.startswith('&'):
                st = st.copy()
                cid = ('c', len(self.stack), f[2])
                st.mem[cid] = f
                res = self.call_fn(st, fn, [('r', cid, ())] + list(args))
                return res
            return self.call_fn(st, fn, [f] + list(args))
        return [(st, self.opaque_call(st, self.term(st, f), args, dty, unk=True))]

    def opaque_call(self, st, name, args, dty=None, unk=True):
        path = '%s(%s)' % (name, ', '.join(self.term(st, a) for a in args))
        if dty == '()':
            return UNIT
        if unk and path not in self.unkpaths:
            self.unkpaths[path] = 'call %s' % name
            self.notes.add('unmodelled call %s' % name)
        return ('o', path)

    def call(self, st, f, args, dty, fn, t):
        name = short_callee(f)
        ip = f.get('ip') or f['p']
        # traced calls leave an event
        for r in self.spec.trace:
            if r.search(ip):
                st = st.copy()
                e = (name,) + tuple(self.term(st, a) for a in args)
                if len(st.ev) < 40:
                    st.ev = st.ev + (e,)
                break
        for pat, m in self.spec.models.items():
            if re.search(pat, ip):
                r = m(self, st, f, args, dty)
                if r is not None:
                    return r
        for r in self.spec.opaque:
            if r.search(ip):
                v = self.opaque_call(st, name if '::' not in name or name.split('::')[0][:1].isupper() else name.split('::')[-1], args, dty, unk=False)
                return [(st, v)]
        if f.get('ctor'):
            return [(st, self.ctor(f, args, dty))]
        import models
        r = models.dispatch(self, st, f, name, args, dty, fn)
        if r is not None:
            return r
        body = self.F.find(f.get('i'), f.get('ip'))
        if body is not None and body['kind'] in ('fn', 'closure'):
            if sum(1 for x in self.stack if x['path'] == body['path']) >= 2:
                return [(st, self.opaque_call(st, name, args, dty))]
            if body['kind'] == 'closure' and len(args) == 2 and body['argc'] != 2:
                tup = self.strip(st, args[1])
                if tup[0] == 't':
                    return self.call_value(st, args[0], list(tup[1]), dty)
            elif body['kind'] == 'closure' and len(args) == 2:
                tup = self.strip(st, args[1])
                if tup[0] == 't' and len(tup[1]) == 1:
                    return self.call_value(st, args[0], list(tup[1]), dty)
            return self.call_fn(st, body, args)
        return models.unknown(self, st, f, name, args, dty)

    def ctor(self, f, args, dty):
        p = degen(f['p']).replace('::::', '::')
        par, var = p.rsplit('::', 1)
        par = par.rstrip(':')
        a = self.F.adt(par)
        if a and var in a['byname']:
            names = tuple(x[0] for x in a['byname'][var][1]['f'])
            return ('a', par, var, names, tuple(args))
        return ('a', p, var, tuple(str(i) for i in range(len(args))), tuple(args))

    # ------------------------------------------------------------ entry
    def run(self, fn, args=None, async_body=False):
        """analyse from the cell; returns outcomes"""
        self.unkpaths = {}
        self.keep0 = set()
        st = State()
        for k, v in self.spec.cell.items():
            st.R[k] = v
            for s, _ in k:
                self.keep0.add(s)
                if len(k) == 1:
                    self.symty.setdefault(s, v)
        if args is None:
            ps = fn.get('params') or []
            args = []
            for i in range(fn['argc']):
                nm = None
                if i < len(ps) and ps[i]:
                    nm = ps[i]
                elif len(fn['locals'][i + 1]) > 1:
                    nm = fn['locals'][i + 1][1]
                args.append(('o', nm or 'arg%d' % i))
        for i, a in enumerate(args):
            ty = fn['locals'][i + 1][0]
            m = re.search(r'\[[^\[\];]+; (\d+)\]$', ty)
            a1 = a
            if not m and a[0] == 'o':
                m = re.search(r'^&?std::option::Option<&?\[[^\[\];]+; (\d+)\]>$', ty)
                a1 = ('o', a[1] + '.Some')
            if m and a[0] == 'o':
                L = self.len_of(st, a1)
                if L[2]:
                    st = self.restrict(st, L[2], ((int(m.group(1)) - L[1], int(m.group(1)) - L[1]),))
                    if st is None:
                        self.outcomes = []
                        return []
        self.outcomes = []
        for st2, v in self.call_fn(st, fn, args):
            # an async fn returns its coroutine: run it
            sv = self.strip(st2, v)
            if sv[0] == 'cl' and 'closure' in sv[2] and self.F.find(sv[1], sv[2]) and self.F.find(sv[1], sv[2])['kind'] == 'coroutine':
                body = self.F.find(sv[1], sv[2])
                for st3, v3 in self.call_fn(st2, body, [sv, ('o', 'resume')]):
                    self.outcomes.append(Outcome('ret', v3, st3))
            else:
                self.outcomes.append(Outcome('ret', v, st2))
        return self.outcomes


def fmt_rs(r):
    return '{' + ', '.join(str(l) if l == h else '%s..%s' % ('' if l <= NEG else l, '' if h >= POS else h) for l, h in r) + '}'
