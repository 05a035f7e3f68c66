"""Models of library functions used by the abstract interpreter (absint.py)."""
import json, re
import rx
from absint import *
from facts import INT, strip_generics

OPT, RES = 'std::option::Option', 'std::result::Result'
CF = 'std::ops::ControlFlow'
NONE = ('a', OPT, 'None', (), ())
ORD = 'std::cmp::Ordering'


def some(v):
    return ('a', OPT, 'Some', ('0',), (v,))


def ok(v):
    return ('a', RES, 'Ok', ('0',), (v,))


def err(v):
    return ('a', RES, 'Err', ('0',), (v,))


def ordv(n):
    return ('a', ORD, n, (), ())


def split_enum(I, st, v, adt, variants):
    """case split on an Option/Result-like value: [(state, variant, payload)]"""
    v = I.strip(st, v)
    if v[0] == 'a':
        return [(st, v[2], v[4][0] if v[4] else None)]
    if v[0] == 'o':
        d = I.discr_sym(v[1], adt)
        I.symty[d[2][0][0]] = rs_inter(I.symty[d[2][0][0]], ((0, len(variants) - 1),))
        u = I.unk_of(v[1])
        if u:
            I.unksyms[d[2][0][0]] = u
        out = []
        for i, n in enumerate(variants):
            for s in I.assume(st, ('c', d[2], ((i, i),)), True):
                p = '%s.%s' % (v[1], n)
                I.inherit_unk(v[1], p)
                pv = s.over.get(p) if s.over else None
                out.append((s, n, pv if pv is not None else ('o', p)))
        return out
    if v[0] == 'upd':
        return split_enum(I, st, v[1], adt, variants)
    t = I.term(st, v)
    I.unkpaths.setdefault(t, 'case split on %s' % v[0])
    return split_enum(I, st, ('o', t), adt, variants)


def split_opt(I, st, v):
    return split_enum(I, st, v, OPT, ['None', 'Some'])


def split_res(I, st, v):
    return split_enum(I, st, v, RES, ['Ok', 'Err'])


def callf(I, st, f, args, dty=None):
    return I.call_value(st, f, args, dty)


def targs(ty):
    """generic arguments of a type string"""
    i = ty.find('<')
    if i < 0:
        return []
    out, d, cur = [], 0, ''
    for ch in ty[i + 1:ty.rfind('>')]:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


# ------------------------------------------------------------------ equality
def atom(I, st, name, unk=None):
    s = I.sym(name, ((0, 1),), unk)
    return ('c', s[2], ((1, 1),))


def b_and(a, b):
    if a == TRUE:
        return b
    if b == TRUE:
        return a
    if a == FALSE or b == FALSE:
        return FALSE
    return ('b2', 'BitAnd', a, b)


def unk_val(I, st, *vs):
    for v in vs:
        v = I.strip(st, v)
        if v[0] == 'o':
            u = I.unk_of(v[1])
            if u:
                return u
    return None


def peel_ty(t):
    t = (t or '').strip()
    while t.startswith('&'):
        t = t[1:].lstrip()
        if t.startswith("'"):
            t = t.split(' ', 1)[-1]
        if t.startswith('mut '):
            t = t[4:]
    return t


def eqv(I, st, a, b, ty=None, depth=0):
    a, b = I.strip(st, a), I.strip(st, b)
    ty = peel_ty(ty)
    ka, kb = a[0], b[0]
    if ka in ('c', 'b2') or kb in ('c', 'b2'):
        if ka == 'n' and not a[2]:
            return b if a[1] else neg2(I, st, b)
        if kb == 'n' and not b[2]:
            return a if b[1] else neg2(I, st, a)
        a, b = I.nval(st, a), I.nval(st, b)
        return I.cmpv(st, 'Eq', a, b)
    if ka == 'n' or kb == 'n' or ty in INT:
        return I.cmpv(st, 'Eq', I.nval(st, a, ty if ty in INT else None), I.nval(st, b, ty if ty in INT else None))
    if ka == 's' and kb == 's':
        return TRUE if a[1] == b[1] else FALSE
    if ka in ('l', 't') and kb == ka:
        if len(a[1]) != len(b[1]):
            return FALSE
        r = TRUE
        for x, y in zip(a[1], b[1]):
            r = b_and(r, eqv(I, st, x, y, None, depth + 1))
        return r
    if ka in ('s', 'v') and kb in ('s', 'v', 'l') or kb in ('s', 'v') and ka == 'l':
        sa, sb = I.segs_of(st, a), I.segs_of(st, b)
        if sa == sb:
            return TRUE
        if all(s[0] == 'k' for s in sa) and all(s[0] == 'k' for s in sb):
            return FALSE
    if ka == 'a' and kb == 'a':
        if a[2] != b[2]:
            return FALSE
        r = TRUE
        for x, y in zip(a[4], b[4]):
            r = b_and(r, eqv(I, st, x, y, None, depth + 1))
        return r
    if (ka == 'a' and kb == 'o') or (ka == 'o' and kb == 'a'):
        if ka == 'o':
            a, b = b, a
        adt = I.F.adt(a[1])
        isenum = (adt and adt['kind'] == 'enum') or a[1] in (OPT, RES)
        r = TRUE
        if isenum:
            d = I.discr_const(a)
            if d is None:
                d = {'None': 0, 'Some': 1, 'Ok': 0, 'Err': 1}.get(a[2], 0)
            ds = I.discr_sym(b[1], a[1])
            if a[1] in (OPT, RES):
                I.symty[ds[2][0][0]] = rs_inter(I.symty[ds[2][0][0]], ((0, 1),))
            r = I.cmpv(st, 'Eq', ds, num(d))
        for i, (n, x) in enumerate(zip(a[3], a[4])):
            base = I.project(st, b, ('d', 0, a[2])) if isenum else b
            pt = targs(ty)[0] if a[1] == OPT and ty and ty.startswith(OPT) and targs(ty) else None
            r = b_and(r, eqv(I, st, x, I.project(st, base, ('f', i, n)), pt, depth + 1))
        return r
    if ka == 'o' and kb == 'o' and a[1] == b[1]:
        return TRUE
    if ka == 'o' and kb == 'o' and ty and I.is_clike(ty):
        return I.cmpv(st, 'Eq', I.discr_sym(a[1], ty), I.discr_sym(b[1], ty))
    # emptiness
    for x, y in ((a, b), (b, a)):
        if (x[0] == 's' and x[1] == '') or (x[0] in ('l', 'v') and x[1] == ()):
            if y[0] in ('o', 'v', 'l', 's'):
                return I.cmpv(st, 'Eq', I.len_of(st, y), num(0))
    ta, tb = I.term(st, a), I.term(st, b)
    if ta == tb:
        return TRUE
    for x, y, tx, ty2 in ((a, b, ta, tb), (b, a, tb, ta)):
        if x[0] == 's' and y[0] == 'o':
            # a string equal to one constant differs from another, and has its length
            pre = 'eq('
            for k, r in st.R.items():
                if len(k) == 1 and r == ((1, 1),) and k[0][0].startswith('eq(') and k[0][0].endswith(',' + ty2 + ')') and k[0][0] != 'eq(%s,%s)' % (tx, ty2):
                    if k[0][0].startswith('eq("'):
                        return FALSE
            L = I.range_of(st, I.len_of(st, y))
            if not rs_inter(L, ((len(x[1].encode()),) * 2,)):
                return FALSE
    ta, tb = sorted((ta, tb), key=lambda t: (not t.startswith('"'), t))
    return atom(I, st, 'eq(%s,%s)' % (ta, tb), unk_val(I, st, a, b))


def neg2(I, st, c):
    if c[0] == 'b2':
        return ('b2', 'Not', c, None)
    return I.neg(st, c)


def cmp_lex(I, st, a, b, ty=None):
    """Ordering of two values: [(st, 'Less'|'Equal'|'Greater')]"""
    a, b = I.strip(st, a), I.strip(st, b)
    ty = peel_ty(ty)
    if a[0] in ('t', 'l') and b[0] == a[0] and len(a[1]) == len(b[1]):
        out = []
        states = [st]
        for x, y in zip(a[1], b[1]):
            nxt = []
            for s in states:
                for s2, o in cmp_lex(I, s, x, y):
                    if o == 'Equal':
                        nxt.append(s2)
                    else:
                        out.append((s2, o))
            states = nxt
        return out + [(s, 'Equal') for s in states]
    x = y = None
    if a[0] in ('n', 'c') or b[0] in ('n', 'c') or ty in INT or ty in ('f64', 'f32'):
        x, y = I.nval(st, a, ty if ty in INT else None), I.nval(st, b, ty if ty in INT else None)
    elif ty and I.is_clike(ty) or all(v[0] == 'a' and not v[4] and I.discr_const(v) is not None for v in (a, b)):
        x, y = I.discr(st, a, ty), I.discr(st, b, ty)
    elif a[0] == 'a' and b[0] == 'a' and not (I.F.adt(a[1]) or {}).get('kind') == 'enum' and a[1] == b[1]:
        r = cmp_lex(I, st, ('t', a[4]), ('t', b[4]))
        if a[1].endswith('cmp::Reverse'):
            flip = {'Less': 'Greater', 'Greater': 'Less', 'Equal': 'Equal'}
            r = [(s, flip[o]) for s, o in r]
        return r
    if x is not None:
        return [(s, n) for s, n, _ in I.three_way(st, x, y)]
    ta, tb = I.term(st, a), I.term(st, b)
    if ta == tb:
        return [(st, 'Equal')]
    s = I.sym('cmp(%s,%s)' % (ta, tb), ((-1, 1),), unk_val(I, st, a, b))
    return [(s2, n) for s2, n, _ in I.three_way(st, s, num(0))]


# ------------------------------------------------------------------ iterators
# ('it','sym',path,phase,group)  phase: 'f' first | 'r' rest | 's' between consecutive stars | 'p' after stars | int
# ('it','lst',items,pos) ('it','rng',lo,hi) ('it','rngs',group,phase,hi) ('it','map',inner,f) ...
def is_it(v):
    return v[0] == 'it'


def to_iter(I, st, v):
    v = I.strip(st, v)
    if v[0] == 'it':
        return v
    if v[0] == 'l':
        return ('it', 'lst', v[1], 0)
    if v[0] in ('v', 's'):
        segs = I.segs_of(st, v)
        items = []
        for s in segs:
            if s[0] == 'k':
                items += [num(x) for x in s[1]]
            elif s[0] in ('be', 'le') and s[2] == 1:
                items.append(s[1])
            else:
                items = None
                break
        if items is not None:
            return ('it', 'lst', tuple(items), 0)
        I.segpath[I.term(st, v)] = tuple(segs)
        return sym_iter(I, st, I.term(st, v))
    if v[0] == 'a':
        nm = v[1].rsplit('::', 1)[-1]
        if nm == 'Range':
            return rng_iter(I, st, I.nval(st, v[4][0]), I.nval(st, v[4][1]))
        if nm == 'RangeInclusive':
            return rng_iter(I, st, I.nval(st, v[4][0]), lin_add(I.nval(st, v[4][1]), num(1)))
        if v[2] == 'None' and v[1] == OPT:
            return ('it', 'lst', (), 0)
        if v[2] == 'Some' and v[1] == OPT:
            return ('it', 'lst', (v[4][0],), 0)
    if v[0] == 'm':
        return ('it', 'lst', tuple(('t', (('s', k), x)) for k, x in v[1]), 0)
    return sym_iter(I, st, I.term(st, v))


def sym_iter(I, st, path):
    n = I.len_of(st, ('o', path))
    r = I.range_of(st, n)
    c = rs_const(r)
    if c is not None and c <= 16:
        return ('it', 'lst', tuple(I.project(st, ('o', path), ('i', num(i))) for i in range(c)), 0)
    return ('it', 'sym', path, 'f', group_of(I, path))


def split_iter(I, st, path):
    n = I.sym('len(%s)' % path, ((1, 2 ** 47),), I.unk_of(path))
    c = rs_const(I.range_of(st, n))
    if c is not None and c <= 16:
        return ('it', 'lst', tuple(I.project(st, ('o', path), ('i', num(i))) for i in range(c)), 0)
    return ('it', 'sym', path, 0, ('#' + path, 0))


def group_of(I, path):
    g = I.spec.stars.get(path)
    return ('#' + g[0], g[1]) if g else ('#' + path, 0)


def rng_iter(I, st, lo, hi):
    if not lo[2] and not hi[2]:
        return ('it', 'rng', lo[1], hi[1])
    m = None
    if len(hi[2]) == 1 and hi[2][0][0].startswith('len(') and hi[2][0][1] == 1 and not hi[1] and lo == num(0):
        m = group_of(I, hi[2][0][0][4:-1])
    r = rs_const(I.range_of(st, lin_add(hi, lo, -1)))
    if r is not None and r <= 16:
        return ('it', 'lst', tuple(lin_add(lo, num(i)) for i in range(max(r, 0))), 0)
    return ('it', 'rngs', m or ('#range(%s..%s)' % (lin_str(lo), lin_str(hi)), 0), 'f', lo, hi)


def rename_idx(I, st, name):
    """a generic element is produced afresh: earlier uses of it become 'previous'"""
    def ren(s):
        return s.replace(name + '~', name + '~~').replace(name + '~~~', name + '~~') if name + '~' in s else s

    def r1(s):
        if name not in s:
            return s
        s = re.sub(re.escape(name) + r'(~*)(?!~)', lambda m: name + ('~' if len(m.group(1)) == 0 else '~~'), s)
        return s

    memo = {}

    def rv(v):
        if not isinstance(v, tuple):
            return r1(v) if isinstance(v, str) and name in v else v
        i = id(v)
        if i in memo:
            return memo[i][0]
        n = tuple(rv(x) for x in v)
        if n == v:
            n = v
        elif n[0] == 'n' and len(n) == 3:
            n = lin(n[1], n[2])
        memo[i] = (n, v)
        return n
    st = st.copy()
    for k, v in list(st.mem.items()):
        st.mem[k] = rv(v)
    R = {}
    for k, r in st.R.items():
        if any(name in s for s, _ in k):
            if any(name + '~' in s for s, _ in k):
                continue
            nk = tuple(sorted((r1(s), c) for s, c in k))
            for s, c in nk:
                if s not in I.symty:
                    o = s.replace(name + '~', name)
                    I.symty[s] = I.symty.get(o, FULL)
                    if o in I.unksyms:
                        I.unksyms[s] = I.unksyms[o]
            nk, f = norm_key(nk)
            R[nk] = rs_scale(r, f) if abs(f) == 1 else r
        else:
            R[k] = r
    st.R = R
    if st.over:
        st.over = {r1(k): rv(v) for k, v in st.over.items()}
    # every symbol mentioned in memory must have a range
    def ensure(v):
        if isinstance(v, tuple):
            if v and v[0] == 'n' and len(v) == 3:
                for s, _ in v[2]:
                    if s not in I.symty:
                        I.symty[s] = I.symty.get(s.replace('~', ''), FULL)
            else:
                for x in v:
                    ensure(x)
    for v in st.mem.values():
        ensure(v)
    return st


def sym_next(I, st, group, phase, n):
    """index steps over a symbolic length n: [(st, newphase, index value | None)]"""
    g, k = group
    out = []
    ge = g + '?'
    if isinstance(phase, int):
        for s in I.assume(st, I.cmpv(st, 'Le', n, num(phase)), True):
            out.append((s, phase, None))
        for s in I.assume(st, I.cmpv(st, 'Gt', n, num(phase)), True):
            out.append((s, phase + 1 if phase < 8 else 'r', num(phase)))
        return out
    # exhausted?
    if phase == 'f':
        if not k:
            for s in I.assume(st, I.cmpv(st, 'Eq', n, num(0)), True):
                out.append((s, phase, None))
        sts = I.assume(st, I.cmpv(st, 'Ge', n, num(max(k, 1))), True)
    else:
        sts = [st]
        if k == 0 or phase == 'p':
            out.append((st, phase, None))
    for s in sts:
        if phase == 's':
            ix = lin_add(symn(g + '*'), num(1))
            out.append((s, 'p', ix))
            continue
        s2 = rename_idx(I, s, ge)
        I.sym(ge, ((0, 2 ** 47),))
        gx = symn(ge)
        s3 = I.restrict(s2, lin_add(gx, n, -1)[2], rs_shift(((NEG, -1),), 0)) if lin_add(gx, n, -1)[2] else s2
        if n[1]:
            s3 = I.restrict(s2, lin_add(gx, n, -1)[2], ((NEG, -1 + n[1]),))
        if s3 is not None:
            if phase == 'f':
                s3 = I.restrict(s3, gx[2], ((0, 0),))
            if s3 is not None:
                out.append((s3, 'r' if phase in ('f', 'r') else 'p', gx))
        if k and phase in ('f', 'r'):
            I.sym(g + '*', ((0, 2 ** 47),))
            sx = symn(g + '*')
            s4 = I.restrict(s, lin_add(sx, n, -1)[2], ((NEG, -k),))
            if s4 is not None:
                s4 = I.restrict(s4, sx[2], ((0, 0),) if phase == 'f' else ((1, POS),))
            if s4 is not None:
                out.append((s4, 's' if k == 2 else 'p', sx))
    return out


def it_next(I, st, it):
    """[(st, it', item|None, index|None)]"""
    k = it[1]
    if k == 'lst':
        if it[3] >= len(it[2]):
            return [(st, it, None, None)]
        return [(st, ('it', 'lst', it[2], it[3] + 1), it[2][it[3]], num(it[3]))]
    if k == 'rng':
        if it[2] >= it[3]:
            return [(st, it, None, None)]
        return [(st, ('it', 'rng', it[2] + 1, it[3]), num(it[2]), num(it[2]))]
    if k == 'rngs':
        out = []
        n = lin_add(it[5], it[4], -1)
        for s, ph, ix in sym_next(I, st, it[2], it[3], n):
            if ix is None:
                out.append((s, it, None, None))
            else:
                out.append((s, ('it', 'rngs', it[2], ph, it[4], it[5]), lin_add(ix, it[4]), ix))
        return out
    if k == 'sym':
        out = []
        n = I.len_of(st, ('o', it[2]))
        for s, ph, ix in sym_next(I, st, it[4], it[3], n):
            if ix is None:
                out.append((s, it, None, None))
            else:
                out.append((s, ('it', 'sym', it[2], ph, it[4]), I.project(s, ('o', it[2]), ('i', ix)), ix))
        return out
    if k == 'win':
        out = []
        n = lin_add(I.len_of(st, ('o', it[2])), num(1), -1)
        r = I.range_of(st, n)
        if r and r[-1][1] <= 0 and it[3] == 'f':
            return [(st, it, None, None)]
        if it[3] == 'f' and r and r[0][0] < 0:
            res = []
            for s in I.assume(st, I.cmpv(st, 'Le', n, num(0)), True):
                res.append((s, it, None, None))
            for s in I.assume(st, I.cmpv(st, 'Gt', n, num(0)), True):
                res += it_next(I, s, it)
            return res
        g = (it[4][0], 1 if it[4][1] else 0)
        for s, ph, ix in sym_next(I, st, g, it[3], n):
            if ix is None:
                out.append((s, it, None, None))
            else:
                a = I.project(s, ('o', it[2]), ('i', ix))
                b = I.project(s, ('o', it[2]), ('i', lin_add(ix, num(1))))
                out.append((s, ('it', 'win', it[2], ph, it[4]), ('l', (a, b)), ix))
        return out
    if k in ('copied',):
        return [(s, ('it', k, i2), x, ix) for s, i2, x, ix in it_next(I, st, it[2])]
    if k == 'map':
        out = []
        for s, i2, x, ix in it_next(I, st, it[2]):
            if x is None:
                out.append((s, ('it', k, i2, it[3]), None, None))
            else:
                for s2, y in callf(I, s, it[3], [x]):
                    out.append((s2, ('it', k, i2, it[3]), y, ix))
        return out
    if k in ('filter', 'filter_map', 'take_while', 'skip_while', 'map_while', 'inspect'):
        out = []
        work = [(st, it[2])]
        seen = set()
        while work:
            s0, i0 = work.pop()
            key = (I.canon(s0), i0)
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 200:
                raise Budget('filter loop')
            for s, i2, x, ix in it_next(I, s0, i0):
                me = ('it', k, i2, it[3])
                if x is None:
                    out.append((s, me, None, None))
                    continue
                if k == 'inspect':
                    for s2, y in callf(I, s, it[3], [x]):
                        out.append((s2, me, x, ix))
                    continue
                for s2, y in callf(I, s, it[3], [x if k in ('filter_map', 'map_while') else ('cr', x)]):
                    if k in ('filter_map', 'map_while'):
                        for s3, var, pv in split_opt(I, s2, y):
                            if var == 'Some':
                                out.append((s3, me, pv, None if k == 'filter_map' else ix))
                            elif k == 'map_while':
                                out.append((s3, ('it', 'lst', (), 0), None, None))
                            else:
                                work.append((s3, i2))
                    else:
                        for s3, tv in I.split_b2(s2, y):
                            if k == 'filter':
                                if tv:
                                    out.append((s3, me, x, None))
                                else:
                                    work.append((s3, i2))
                            elif k == 'take_while':
                                if tv:
                                    out.append((s3, me, x, ix))
                                else:
                                    out.append((s3, ('it', 'lst', (), 0), None, None))
                            else:
                                if tv:
                                    work.append((s3, i2))
                                else:
                                    out.append((s3, i2, x, None))
        return out
    if k == 'enum':
        out = []
        for s, i2, x, ix in it_next(I, st, it[2]):
            if x is None:
                out.append((s, ('it', k, i2, it[3]), None, None))
            else:
                if ix is None:
                    if i2[1] in ('lst', 'rng'):
                        ix = num(it[3])
                    else:
                        ix = I.sym('count(%s)' % I.term(s, it), ((0, 2 ** 47),), 'index after filter')
                out.append((s, ('it', k, i2, it[3] + 1 if i2[1] in ('lst', 'rng') else 0), ('t', (ix, x)), ix))
        return out
    if k == 'zip':
        out = []
        for s, a2, x, ix in it_next(I, st, it[2]):
            if x is None:
                out.append((s, ('it', k, a2, it[3]), None, None))
                continue
            for s2, b2, y, iy in zip_partner(I, s, it[3], ix):
                out.append((s2, ('it', k, a2, b2), None if y is None else ('t', (x, y)), ix if y is not None else None))
        return out
    if k == 'chain':
        out = []
        for s, a2, x, ix in it_next(I, st, it[2]):
            if x is None:
                for s2, b2, y, iy in it_next(I, s, it[3]):
                    out.append((s2, b2, y, None))
            else:
                out.append((s, ('it', k, a2, it[3]), x, None))
        return out
    if k == 'skip':
        states = [(st, it[2])]
        for _ in range(it[3]):
            nxt = []
            for s, i0 in states:
                for s2, i2, x, ix in it_next(I, s, i0):
                    nxt.append((s2, i2))
            states = nxt
        out = []
        for s, i0 in states:
            out += [(s2, i2, x, None) for s2, i2, x, ix in it_next(I, s, i0)]
        return out
    if k == 'take':
        if it[3] <= 0:
            return [(st, it, None, None)]
        return [(s, ('it', k, i2, it[3] - 1), x, ix) for s, i2, x, ix in it_next(I, st, it[2])]
    if k == 'peek':
        if it[3] is not None:
            x = it[3][0]
            return [(st, ('it', k, it[2], None), x, None)]
        return [(s, ('it', k, i2, None), x, ix) for s, i2, x, ix in it_next(I, st, it[2])]
    if k == 'flat':
        # ('it','flat',outer,cur|None)
        out = []
        work = [(st, it)]
        seen = set()
        while work:
            s0, i0 = work.pop()
            key = (I.canon(s0), i0)
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 200:
                raise Budget('flatten loop')
            if i0[3] is not None:
                for s, c2, x, ix in it_next(I, s0, i0[3]):
                    if x is None:
                        work.append((s, ('it', 'flat', i0[2], None)))
                    else:
                        out.append((s, ('it', 'flat', i0[2], c2), x, None))
            else:
                for s, o2, x, ix in it_next(I, s0, i0[2]):
                    if x is None:
                        out.append((s, ('it', 'flat', o2, None), None, None))
                    else:
                        for s2, sub in to_iter_cases(I, s, x):
                            work.append((s2, ('it', 'flat', o2, sub)))
        return out
    if k == 'cycle' or k == 'rep':
        return [(st, it, it[2], None)]
    raise Undecided('iterator ' + str(k))


def to_iter_cases(I, st, x):
    x = I.strip(st, x)
    if x[0] == 'o' and ('discr(%s)' % x[1]) in I.symty and I.symty['discr(%s)' % x[1]] == ((0, 1),):
        return [(s, ('it', 'lst', () if v == 'None' else (p,), 0)) for s, v, p in split_opt(I, st, x)]
    return [(st, to_iter(I, st, x))]


def zip_partner(I, st, it, ix):
    """advance the second iterator of a zip in lockstep with index ix"""
    if ix is not None and it[1] in ('sym', 'rngs') and ix[2]:
        path = it[2] if it[1] == 'sym' else None
        if it[1] == 'sym':
            n = I.len_of(st, ('o', path))
            out = []
            for s in I.assume(st, I.cmpv(st, 'Lt', ix, n), True):
                out.append((s, it, I.project(s, ('o', path), ('i', ix)), ix))
            for s in I.assume(st, I.cmpv(st, 'Ge', ix, n), True):
                out.append((s, it, None, None))
            return out
        lo = it[4]
        return [(st, it, lin_add(ix, lo), ix)]
    if ix is not None and it[1] in ('copied',):
        return [(s, ('it', 'copied', i2), x, j) for s, i2, x, j in zip_partner(I, st, it[2], ix)]
    if ix is not None and it[1] == 'map':
        out = []
        for s, i2, x, j in zip_partner(I, st, it[2], ix):
            if x is None:
                out.append((s, ('it', 'map', i2, it[3]), None, None))
            else:
                for s2, y in callf(I, s, it[3], [x]):
                    out.append((s2, ('it', 'map', i2, it[3]), y, j))
        return out
    if ix is not None and it[1] == 'skip' and ix[2]:
        out = []
        return zip_partner(I, st, it[2], lin_add(ix, num(it[3])))
    return it_next(I, st, it)


def drive(I, st, it, acc, step):
    """run an iterator to the end; step(st, item, idx, acc) -> [('c', st, acc) | ('d', st, value)];
    returns [(st, ('end', acc)) | (st, ('done', value))]"""
    out = []
    work = [(st, it, acc)]
    seen = set()
    while work:
        nxt = []
        for s0, i0, a0 in work:
            for s, i2, x, ix in it_next(I, s0, i0):
                if x is None:
                    out.append((s, ('end', a0)))
                    continue
                for r in step(s, x, ix, a0):
                    if r[0] == 'd':
                        out.append((r[1], ('done', r[2])))
                    else:
                        nxt.append((r[1], i2, r[2]))
        groups = {}
        for s, i, a in nxt:
            groups.setdefault((i, a), []).append(s)
        work = []
        for (i, a), ss in groups.items():
            for s in I.merge(ss):
                key = (I.canon(s), i, a)
                if key not in seen:
                    seen.add(key)
                    work.append((s, i, a))
        if len(seen) > 1500:
            raise Budget('iterator loop')
        I.steps += len(work)
        if I.steps > I.budget:
            raise Budget('step budget (iterator)')
    return out


def merge_out(I, res):
    by = {}
    for s, v in res:
        by.setdefault(v, []).append(s)
    return [(s, v) for v, ss in by.items() for s in I.merge(ss)]


def whole_list(I, st, it):
    """the list of which an iterator over separate elements walks all of them"""
    if not it[2] or it[3] not in (0, 'f') or it[2][0][0] != 'o' or not it[2][0][1].endswith('[0]'):
        return None
    base = it[2][0][1][:-3]
    if any(x != ('o', '%s[%d]' % (base, i)) for i, x in enumerate(it[2])):
        return None
    return base if rs_const(I.rng(st, (('len(%s)' % base, 1),))) == len(it[2]) else None


def run_of(segs):
    """bytes taken one by one, in order, out of one string: the slice they are"""
    at = []
    for s in segs:
        if s[0] not in ('be', 'le') or s[2] != 1 or s[1][1] or len(s[1][2]) != 1 or s[1][2][0][1] != 1:
            return None
        m = re.match(r'(.*)\[(\d+)\]$', s[1][2][0][0])
        if not m:
            return None
        at.append((m.group(1), int(m.group(2))))
    if not at or any(x != (at[0][0], at[0][1] + i) for i, x in enumerate(at)):
        return None
    return '%s[%d..%d]' % (at[0][0], at[0][1], at[0][1] + len(at))


def member_query(I, st, m, it, f):
    """list.iter().any(|x| *x == t) is list.contains(t), and all(|x| *x != t) its negation"""
    if it[0] == 'it' and it[1] == 'lst' and f is not None:
        base = whole_list(I, st, it)
        if base is None:
            return None
        it = ('it', 'sym', base, 'f', 'stated')
    if it[0] != 'it' or it[1] != 'sym' or it[3] != 'f' or f is None:
        return None
    el = 'probe!%s' % it[2]
    n = len(I.outcomes)
    rs = callf(I, st.copy(), f, [('cr', ('o', el))])
    if len(I.outcomes) != n:
        del I.outcomes[n:]
        return None
    if len(rs) != 1:
        return None
    y = rs[0][1]
    pos = m == 'any'
    if y[0] != 'c':
        return None
    k = y[1]
    x = None
    if len(k) == 1 and k[0][0].startswith('eq(') and k[0][1] == 1 and y[2] in (((1, 1),), ((0, 0),)):
        nm = k[0][0]
        if nm.startswith('eq(%s,' % el):
            x = nm[len(el) + 4:-1]
        elif nm.endswith(',%s)' % el):
            x = nm[3:-len(el) - 2]
        is_eq = y[2] == ((1, 1),)
    elif len(k) <= 2 and any(n_ == el for n_, _ in k):
        if y[2] == rs_compl(rs_compl(y[2])) and len(y[2]) == 1 and y[2][0][0] == y[2][0][1]:
            c, is_eq = y[2][0][0], True
        else:
            z = rs_compl(y[2])
            if len(z) != 1 or z[0][0] != z[0][1]:
                return None
            c, is_eq = z[0][0], False
        d = dict(k)
        ce = d.pop(el)
        if abs(ce) != 1:
            return None
        if not d:
            x = str(c * ce)
        else:
            (o, co), = d.items()
            if c != 0 or co != -ce:
                return None
            x = o
    if x is None or 'probe!' in x or is_eq != pos:
        return None
    if it[4:5] == ('stated',) and (('in(%s,%s)' % (x, it[2]), 1),) not in I.spec.cell:
        return None
    a = atom(I, st, 'in(%s,%s)' % (x, it[2]), I.unk_of(it[2]))
    return a if pos else I.neg(st, a)


def consume(I, st, m, args, dty):
    it = to_iter(I, st, args[0])
    f = args[1] if len(args) > 1 else None
    if m in ('any', 'all'):
        q = member_query(I, st, m, it, f)
        if q is not None:
            return [(st, q)]

        def step(s, x, ix, acc):
            r = []
            for s2, y in callf(I, s, f, [x]):
                for s3, tv in I.split_b2(s2, y):
                    if tv == (m == 'any'):
                        r.append(('d', s3, TRUE if m == 'any' else FALSE))
                    else:
                        r.append(('c', s3, acc))
            return r
        return merge_out(I, [(s, v[1] if v[0] == 'done' else (FALSE if m == 'any' else TRUE)) for s, v in drive(I, st, it, 0, step)])
    if m in ('find', 'position', 'find_map', 'rposition'):
        def step(s, x, ix, acc):
            r = []
            arg = ('cr', x) if m == 'find' else x
            for s2, y in callf(I, s, f, [arg]):
                if m == 'find_map':
                    for s3, var, pv in split_opt(I, s2, y):
                        r.append(('d', s3, some(pv)) if var == 'Some' else ('c', s3, acc))
                    continue
                for s3, tv in I.split_b2(s2, y):
                    if tv:
                        r.append(('d', s3, some(x if m == 'find' else ix if ix is not None else ('o', 'position?'))))
                    else:
                        r.append(('c', s3, acc))
            return r
        return merge_out(I, [(s, v[1] if v[0] == 'done' else NONE) for s, v in drive(I, st, it, 0, step)])
    if m in ('for_each', 'try_for_each'):
        def step(s, x, ix, acc):
            r = []
            for s2, y in callf(I, s, f, [x]):
                if m == 'for_each':
                    r.append(('c', s2, acc))
                else:
                    y2 = I.strip(s2, y)
                    for s3, var, pv in (split_opt(I, s2, y) if (dty or '').startswith(OPT) else split_res(I, s2, y)):
                        if var in ('None', 'Err'):
                            r.append(('d', s3, NONE if var == 'None' else err(pv)))
                        else:
                            r.append(('c', s3, acc))
            return r
        end = UNIT if m == 'for_each' else some(UNIT) if (dty or '').startswith(OPT) else ok(UNIT)
        return merge_out(I, [(s, v[1] if v[0] == 'done' else end) for s, v in drive(I, st, it, 0, step)])
    if m in ('fold', 'try_fold'):
        init, g = args[1], args[2]
        def step(s, x, ix, acc):
            r = []
            for s2, y in callf(I, s, g, [acc, x]):
                if m == 'fold':
                    r.append(('c', s2, I.strip(s2, y)))
                else:
                    for s3, var, pv in (split_opt(I, s2, y) if (dty or '').startswith(OPT) else split_res(I, s2, y)):
                        if var in ('None', 'Err'):
                            r.append(('d', s3, NONE if var == 'None' else err(pv)))
                        else:
                            r.append(('c', s3, I.strip(s3, pv)))
            return r
        wrapv = (lambda v: v) if m == 'fold' else (some if (dty or '').startswith(OPT) else ok)
        return merge_out(I, [(s, v[1] if v[0] == 'done' else wrapv(v[1])) for s, v in drive(I, st, it, I.strip(st, init), step)])
    if m == 'count':
        if it[1] == 'sym' and it[3] == 'f':
            return [(st, I.len_of(st, ('o', it[2])))]
        if it[1] in ('map', 'copied', 'enum', 'inspect') and it[2][1] == 'sym' and it[2][3] == 'f':
            return [(st, I.len_of(st, ('o', it[2][2])))]
        if finite(it):
            res = drive(I, st, it, 0, lambda s, x, ix, a: [('c', s, a + 1)])
            return merge_out(I, [(s, num(v[1])) for s, v in res])
        if it[1] == 'filter':
            t = I.term(st, it[2][2] if it[2][1] != 'sym' else ('o', it[2][2])) if it[2][1] == 'sym' else None
        return [(st, I.sym('count(%s)' % it_term(I, st, it), ((0, 2 ** 47),), 'count'))]
    if m in ('sum', 'product') and finite(it):
        def step(s, x, ix, a):
            v = I.nval(s, x)
            return [('c', s, lin_add(a, v))]
        if m == 'sum':
            return merge_out(I, [(s, v[1]) for s, v in drive(I, st, it, num(0), step)])
    if m in ('sum', 'product'):
        ty = dty or ''
        s0 = I.sym('%s(%s)' % (m, it_term(I, st, it)), (INT[ty],) if ty in INT else None, None)
        return [(st, s0)]
    if m == 'last':
        return merge_out(I, [(s, v[1]) for s, v in drive(I, st, it, NONE, lambda s, x, ix, a: [('c', s, some(x))])])
    if m in ('max', 'min', 'max_by_key', 'min_by_key') and len(args) == 1:
        def step(s, x, ix, a):
            if a == NONE:
                return [('c', s, some(x))]
            r = []
            for s2, o in cmp_lex(I, s, x, a[4][0]):
                take = (o != 'Less') if m == 'max' else (o == 'Less')
                r.append(('c', s2, some(x) if take else a))
            return r
        return merge_out(I, [(s, v[1]) for s, v in drive(I, st, it, NONE, step)])
    if m == 'nth':
        n = I.nval(st, args[1])
        if not n[2] and n[1] < 50:
            return it_step_store(I, st, args[0], ('it', 'skip', it, n[1]))
    if m == 'collect' or m == 'from_iter':
        return collect(I, st, it, dty)
    if m in ('eq', 'contains'):
        pass
    return None


def it_step_store(I, st, ref, it):
    out = []
    for s, i2, x, ix in it_next(I, st, it):
        s = s.copy()
        if ref[0] == 'r':
            I.store(s, ('cell', ref[1], ref[2]), i2)
        out.append((s, NONE if x is None else some(x)))
    return out


def finite(it):
    while True:
        if it[1] in ('lst', 'rng'):
            return True
        if it[1] == 'take':
            return it[3] <= 16
        if it[1] == 'zip':
            return finite(it[2]) or finite(it[3])
        if it[1] == 'chain':
            return finite(it[2]) and finite(it[3])
        if it[1] in ('map', 'filter', 'filter_map', 'copied', 'enum', 'take_while', 'skip_while', 'map_while', 'inspect', 'skip', 'peek'):
            it = it[2]
            continue
        return False


def it_term(I, st, it):
    k = it[1]
    if k == 'sym':
        return it[2]
    if k in ('map', 'filter', 'filter_map', 'take_while', 'skip_while', 'map_while', 'inspect'):
        return '%s(%s, %s)' % (k, it_term(I, st, it[2]), I.term(st, it[3]))
    if k == 'lst':
        return '[%s]' % ', '.join(I.term(st, x) for x in it[2][it[3]:])
    if k in ('copied', 'enum', 'skip', 'take', 'peek'):
        return it_term(I, st, it[2]) if k == 'copied' else '%s(%s)' % (k, it_term(I, st, it[2]))
    if k in ('zip', 'chain'):
        return '%s(%s, %s)' % (k, it_term(I, st, it[2]), it_term(I, st, it[3]))
    if k == 'rngs':
        return '%s..%s' % (lin_str(it[4]), lin_str(it[5]))
    return k


def chain_segs(I, st, it):
    """the bytes of a not yet started chain of byte iterators"""
    if it[1] == 'copied':
        return chain_segs(I, st, it[2])
    if it[1] == 'chain':
        a, b = chain_segs(I, st, it[2]), chain_segs(I, st, it[3])
        if a is None or b is None:
            return None
        out = list(a)
        for s in b:
            out = I.seg_push(out, s)
        return tuple(out)
    if it[1] == 'sym' and it[3] == 'f':
        return tuple(I.segs_of(st, ('o', it[2])))
    if it[1] == 'lst':
        out = []
        for x in it[2][it[3]:]:
            n = I.nval(st, x)
            if n[2]:
                out = I.seg_push(out, ('be', n, 1))
            elif 0 <= n[1] < 256:
                out = I.seg_push(out, ('k', bytes([n[1]])))
            else:
                return None
        return tuple(out)
    return None


def collect(I, st, it, dty):
    t = dty or ''
    wrapo = t.startswith(OPT)
    wrapr = t.startswith(RES)
    inner = t
    if wrapo or wrapr:
        inner = (targs(t) or [''])[0]
    bytes_ = inner in ('std::vec::Vec<u8>',)
    uniq = 'HashSet' in inner or 'BTreeSet' in inner or 'Map' in inner
    if not (wrapo or wrapr) and it[1] == 'sym' and (it[3] == 'f' or it[3] == 0 and it[2].startswith('split(')):
        return [(st, ('o', it[2]) if not uniq else ('o', 'set(%s)' % it[2]))]
    if it[1] == 'copied' and not (wrapo or wrapr):
        return collect(I, st, it[2], dty)
    if bytes_ and it[1] == 'chain' and not (wrapo or wrapr):
        segs = chain_segs(I, st, it)
        if segs is not None:
            return [(st, ('v', segs))]
    if it[1] == 'flat' and it[3] is None and finite(it[2]) and not (wrapo or wrapr or uniq):
        return collect_flat(I, st, it, bytes_)
    if not finite(it) and it[1] in ('map', 'filter', 'filter_map', 'copied', 'enum'):
        fl = flat_inside(I, st, it)
        if fl:
            return merge_out(I, [r for s, i2 in fl for r in collect(I, s, i2, dty)])
    if finite(it):
        def step(s, x, ix, a):
            if wrapo or wrapr:
                r = []
                for s3, var, pv in (split_opt(I, s, x) if wrapo else split_res(I, s, x)):
                    if var in ('None', 'Err'):
                        r.append(('d', s3, NONE if var == 'None' else err(pv)))
                    else:
                        r.append(('c', s3, a + (pv,)))
                return r
            return [('c', s, a + (x,))]
        def fin(s, items):
            if bytes_:
                segs = []
                for x in items:
                    xs = I.strip(s, x)
                    if xs[0] in ('o', 'n'):
                        b = I.nval(s, x, 'u8')
                        segs = I.seg_push(segs, ('k', bytes([b[1] & 255])) if not b[2] else ('be', b, 1))
                        continue
                    for g in I.segs_of(s, x):
                        segs = I.seg_push(segs, g)
                return ('v', tuple(segs))
            if re.match(r'std::collections::(HashMap|BTreeMap|hash_map::HashMap)\b', inner):
                kv = {}
                for x in items:
                    x = I.strip(s, x)
                    if x[0] != 't' or len(x[1]) != 2:
                        return ('l', items)
                    k = I.strip(s, x[1][0])
                    kv[k[1] if k[0] == 's' else I.term(s, k)] = own(I, s, x[1][1])
                return ('m', tuple(kv.items()))
            return ('l', items)
        res = []
        for s, v in drive(I, st, it, (), step):
            if v[0] == 'done':
                res.append((s, v[1]))
            else:
                r = fin(s, v[1])
                res.append((s, some(r) if wrapo else ok(r) if wrapr else r))
        return merge_out(I, res)
    # unbounded: the failure exit is explored, the collected value is named after its source
    nm = 'collect(%s)' % it_term(I, st, it)
    if it[1] == 'filter' and it[2][1] in ('sym', 'copied'):
        pass
    def step(s, x, ix, a):
        if wrapo or wrapr:
            r = []
            for s3, var, pv in (split_opt(I, s, x) if wrapo else split_res(I, s, x)):
                if var in ('None', 'Err'):
                    r.append(('d', s3, NONE if var == 'None' else err(pv)))
                else:
                    r.append(('c', s3, a))
            return r
        return [('c', s, a)]
    res = []
    for s, v in drive(I, st, it, 0, step):
        if v[0] == 'done':
            res.append((s, v[1]))
        else:
            r = ('o', nm)
            if len_preserving(it) and not uniq:
                src = it_src(it)
                L = I.len_of(s, ('o', nm))
                d = lin_add(L, I.len_of(s, ('o', src)), -1)
                s2 = I.restrict(s, d[2], ((0, 0),))
                if s2 is None:
                    continue
                s = s2
            res.append((s, some(r) if wrapo else ok(r) if wrapr else r))
    return merge_out(I, res)


def flat_inside(I, st, it):
    """an iteration over flattened parts all of which are known, as one over their items"""
    if it[1] == 'flat':
        if it[3] is not None or not finite(it[2]):
            return None
        rs = collect_flat(I, st, it, False)
        return [(s, ('it', 'lst', v[1], 0)) for s, v in rs] if all(v[0] == 'l' for _, v in rs) else None
    if it[1] not in ('map', 'filter', 'filter_map', 'copied', 'enum'):
        return None
    sub = flat_inside(I, st, it[2])
    return sub and [(s, it[:2] + (x,) + it[3:]) for s, x in sub]


def collect_flat(I, st, it, bytes_):
    """the parts of a flattened iteration over known items, one after the other"""
    res = []
    for s, v in drive(I, st, it[2], ((),), lambda s, x, ix, a: [('c', s2, (a[0] + (sub,),)) for s2, sub in to_iter_cases(I, s, x)]):
        if v[0] == 'done':
            res.append((s, v[1]))
            continue
        subs = v[1][0]
        states = [(s, ())]
        for sub in subs:
            nxt = []
            for s2, acc in states:
                base = sub
                while base[1] == 'copied':
                    base = base[2]
                if finite(sub) or sub[1] == 'flat' and finite(sub[2]):
                    for s3, y in collect(I, s2, sub, 'std::vec::Vec<u8>' if bytes_ else 'std::vec::Vec<?>'):
                        nxt.append((s3, acc + (I.strip(s3, y),)))
                elif base[1] == 'sym':
                    nxt.append((s2, acc + (('o', base[2]),)))
                else:
                    nxt.append((s2, acc + (('o', it_term(I, s2, sub)),)))
            states = nxt
        for s2, acc in states:
            if bytes_:
                segs = []
                for y in acc:
                    for g in (I.segs_of(s2, y) if y[0] != 'o' or not re.search(r'\bflat\b|closure#', y[1]) else (('p', y[1]),)):
                        segs = I.seg_push(segs, g)
                res.append((s2, ('v', tuple(segs))))
            elif all(y[0] == 'l' for y in acc):
                res.append((s2, ('l', tuple(x for y in acc for x in y[1]))))
            else:
                res.append((s2, ('o', 'list(%s)' % ' ++ '.join(I.term(s2, y) for y in acc))))
    return merge_out(I, res)


def len_preserving(it):
    while it[1] in ('map', 'copied', 'enum', 'inspect'):
        it = it[2]
    return it[1] == 'sym' and it[3] == 'f'


def it_src(it):
    while it[1] != 'sym':
        it = it[2]
    return it[2]


ITER_ADAPT = {'map', 'filter', 'filter_map', 'take_while', 'skip_while', 'map_while', 'inspect'}
ITER_CONS = {'any', 'all', 'find', 'position', 'find_map', 'for_each', 'try_for_each', 'fold', 'try_fold', 'count', 'sum', 'product', 'last', 'max', 'min', 'nth', 'collect'}

# ------------------------------------------------------------------ identity-like calls
IDENT = {
    'Clone::clone', 'Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut', 'ToOwned::to_owned',
    'Vec::as_slice', 'Vec::as_mut_slice', 'String::as_str', 'String::as_bytes', 'str::as_bytes', 'String::into_bytes', 'slice::to_vec', 'slice::into_vec', 'str::to_string', 'str::to_owned',
    'str::as_ref', 'Vec::into_boxed_slice', 'Box::new', 'Arc::new', 'Rc::new', 'Arc::clone', 'Box::leak', 'Box::pin', 'Pin::new', 'Pin::new_unchecked', 'Pin::as_mut', 'Pin::get_mut',
    'IntoFuture::into_future', 'hint::must_use', 'mem::take_ref', 'str::into_string', 'String::into_boxed_str', 'Bytes::to_vec', 'Bytes::from', 'Bytes::copy_from_slice', 'AsDisplay::as_display',
    'boxed::box_assume_init_into_vec_unsafe', 'Cow::into_owned', 'array::as_slice', 'slice::as_slice', 'slice::as_mut_slice', 'array::as_mut_slice', 'Vec::as_mut_slice', 'array::as_mut', 'str::from_utf8_unchecked', 'ManuallyDrop::new', 'MaybeUninit::new', 'convert::identity', 'black_box', 'hint::black_box',
    'Box::into_inner', 'Arc::as_ref', 'Arc::unwrap_or_clone', 'Bytes::as_ref', 'Vec::into_iter_', 'Hash::as_bytes', 'FixedBytes::as_slice', 'Address::as_slice', 'mem::drop_', 'Cell::new', 'RefCell::new', 'Wrapping', 'Reverse',
}

PURE = {  # uninterpreted, deterministic in the arguments
    'blake3::hash', 'Hash::as_bytes', 'hex::encode', 'Message::encode_to_vec', 'Message::encoded_len', 'Message::decode', 'bs58::encode', 'EncodeBuilder::into_string', 'bs58::decode', 'DecodeBuilder::into_vec', 'TypedData::eip712_signing_hash',
    'alloy_primitives::keccak256', 'PublicKey::verify', 'VerifyingKey::verify_strict', 'VerifyingKey::verify', 'Verifier::verify', 'VerifyingKey::from_bytes', 'Signature::from_bytes', 'Signature::from_slice', 'Signature::from_bytes_and_parity', 'Signature::try_from',
    'Signature::recover_address_from_prehash', 'PublicKey::try_from_bytes', 'FromHex::from_hex', 'hex::decode', 'Address::to_checksum', 'Address::parse_checksummed', 'serde_json::from_value', 'serde_json::from_str', 'serde_json::from_slice', 'Regex::captures', 'Captures::get',
    'Match::as_str', 'slice::binary_search', 'SolConstructor::abi_encode', 'SolCall::abi_encode', 'SolType::abi_decode', 'PublicKey::to_bytes', 'str::trim', 'str::to_lowercase', 'str::to_uppercase', 'str::to_ascii_lowercase',
    'Uint::from_str_radix', 'Uint::to_be_bytes', 'Uint::from_be_bytes', 'Address::from_slice', 'Duration::as_secs', 'Duration::as_millis', 'Round::as_i64', 'RpcError::as_error_resp', 'Bytes::is_empty', 'str::chars', 'slice::concat', 'str::parse', 'Url::parse',
    'ThresholdParam::is_met', 'PeerId::from_bytes', 'Ipv4Addr::is_link_local', 'Ipv4Addr::is_unspecified', 'Ipv6Addr::to_ipv4_mapped', 'Ipv6Addr::is_unspecified', 'Ipv6Addr::is_loopback', 'Ipv6Addr::is_unique_local', 'Ipv6Addr::is_unicast_link_local', 'Ipv6Addr::segments', 'PeerId::to_base58', 'Multiaddr::iter', 'FromStr::from_str', 'HeaderValue::to_str', 'str::lines', 'str::split_whitespace', 'Keypair::sign', 'Keypair::public', 'Path::join', 'Path::new', 'Path::exists', 'PathBuf::from', 'Path::to_str', 'Error::source', 'SocketAddr::ip', 'slice::chunks', 'slice::windows_', 'slice::join', 'str::replace', 'SignatureScheme', 'f64::sqrt',
    'CompressedEdwardsY::decompress', 'EdwardsPoint::is_small_order', 'AggregatedSignature::new', 'CommitSignature::new', 'SignedMessage::new', 'String::from_utf8_lossy', 'Metadata::get', 'MetadataMap::get', 'str::bytes', 'Duration::from_secs', 'Duration::from_millis', 'DateTime::timestamp',
}

PANICS = ('panicking::', 'option::unwrap_failed', 'option::expect_failed', 'result::unwrap_failed', 'unwrap_failed::', 'panic_any', 'process::exit', 'process::abort', 'slice_index', 'unreachable_unchecked')


def nonzero(I, st, n):
    return I.cmpv(st, 'Ne', n, num(0))


def bool_states(I, st, v):
    return I.split_b2(st, v)


def rettuple(t):
    m = re.match(r'^[ui](8|16|32|64|128|size)$', t or '')
    return t if m else None


def store_ref(I, st, ref, v):
    st = st.copy()
    if ref[0] == 'r':
        I.store(st, ('cell', ref[1], ref[2]), v)
    elif ref[0] == 'o':
        I.store(st, ('path', ref[1]), v)
    return st


def cell_of(I, st, ref):
    """innermost mutable location behind a chain of references"""
    n = 0
    while ref[0] == 'r' and n < 10:
        v = I.load(st, ref[1], ref[2])
        if v[0] == 'r':
            ref = v
            n += 1
            continue
        break
    return ref


def from_impl(I, st, v, src_ty, dst_ty):
    """local From impl, if any"""
    if not dst_ty:
        return None
    cand = []
    base = strip_generics(dst_ty)
    for p in I.F.bypath:
        if p.startswith('<' + base) and ' as std::convert::From<' in p and p.endswith('>::from'):
            cand.append(p)
    v2 = I.strip(st, v)
    pick = None
    for p in cand:
        a = p.split(' as std::convert::From<', 1)[1][:-len('>::from')]
        if v2[0] == 'a' and strip_generics(a) == v2[1]:
            pick = p
        if src_ty and strip_generics(a) == strip_generics(src_ty):
            pick = p
    if pick:
        fn = I.F.find(pick, pick)
        if fn and sum(1 for x in I.stack if x['path'] == pick) < 2:
            return I.call_fn(st, fn, [v])
    return None


def default_of(I, st, ty):
    ty = (ty or '').strip()
    if ty in INT:
        return FALSE if ty == 'bool' else num(0)
    if ty == '()':
        return UNIT
    if ty in ('std::string::String', '&str'):
        return ('s', '')
    b = strip_generics(ty)
    if b == OPT:
        return NONE
    if b == 'std::vec::Vec':
        return ('v', ()) if ty == 'std::vec::Vec<u8>' else ('l', ())
    if b.endswith('HashMap') or b.endswith('BTreeMap'):
        return ('m', ())
    if b.endswith('HashSet') or b.endswith('BTreeSet') or b.endswith('VecDeque'):
        return ('l', ())
    m = re.match(r'^\[u8; (\d+)\]$', ty)
    if m and int(m.group(1)) <= 128:
        return ('v', (('k', bytes(int(m.group(1)))),))
    if ty.startswith('(') and ty.endswith(')'):
        ds = [default_of(I, st, t) for t in targs('<' + ty[1:-1] + '>')]
        if all(d is not None for d in ds):
            return ("t", tuple(ds))
    return None


def as_str_const(I, st, v):
    v = I.strip(st, v)
    if v[0] == 's':
        return v[1]
    if v[0] == 'v' and all(s[0] == 'k' for s in v[1]):
        return b''.join(s[1] for s in v[1]).decode('utf8', 'replace')
    return None


def pat_const(I, st, v):
    v = I.strip(st, v)
    if v[0] == 'n' and not v[2] and 0 < v[1] < 0x110000:
        return chr(v[1])
    return as_str_const(I, st, v)


def pat_term(I, st, v):
    c = I.strip(st, v)
    if c[0] == 'n' and not c[2]:
        return json.dumps(chr(c[1])) if 31 < c[1] < 0x110000 else str(c[1])
    return I.term(st, v)


def affix(I, st, kind, v, c):
    """truth of starts_with/ends_with(v, c) for a constant c; prefixes of prefixes are put in terms of the original string"""
    v = I.strip(st, v)
    t = I.term(st, v)
    strip = 'strip_prefix(' if kind == 'starts_with' else 'strip_suffix('
    m = re.match(r'^%s(.*), ("(?:[^"\\\\]|\\\\.)*")\)$' % re.escape(strip), t)
    if m:
        t = m.group(1)
        p = json.loads(m.group(2))
        c = p + c if kind == 'starts_with' else c + p
    for k, r in st.R.items():
        if len(k) == 1 and k[0][0].startswith(kind + '(' + t + ', "'):
            o = json.loads(k[0][0][len(kind) + 3 + len(t):-1])
            if kind == 'ends_with':
                o, cc = o[::-1], c[::-1]
            else:
                cc = c
            if r == ((1, 1),):
                if o.startswith(cc):
                    return TRUE
                if not cc.startswith(o):
                    return FALSE
            elif r == ((0, 0),) and cc.startswith(o):
                return FALSE
        if len(k) == 1 and r == ((1, 1),) and k[0][0].startswith('eq("') and k[0][0].endswith(',' + t + ')'):
            o = json.loads(k[0][0][3:-len(',' + t + ')')])
            return TRUE if (o.startswith(c) if kind == 'starts_with' else o.endswith(c)) else FALSE
    n = I.range_of(st, I.len_of(st, ('o', t)))
    if n and n[-1][1] < len(c.encode()):
        return FALSE
    return atom(I, st, '%s(%s, %s)' % (kind, t, json.dumps(c)), unk_val(I, st, v))


def stripped(I, st, kind, v, c):
    t = I.term(st, v)
    m = re.match(r'^%s\((.*), ("(?:[^"\\\\]|\\\\.)*")\)$' % kind, t)
    if m:
        p = json.loads(m.group(2))
        t, c = m.group(1), (p + c if kind == 'strip_prefix' else c + p)
    r = '%s(%s, %s)' % (kind, t, json.dumps(c))
    d = lin_add(I.len_of(st, ('o', t)), I.len_of(st, ('o', r)), -1)
    if d[2]:
        s2 = I.restrict(st, d[2], ((len(c.encode()) - d[1],) * 2,))
        if s2 is None:
            return None
        st = s2
    I.inherit_unk(t, r)
    return st, ('o', r)


def regex_of(I, st, v):
    """pattern text of a compiled regex value"""
    v = I.strip(st, v)
    t = I.term(st, v)
    m = re.search(r'static ([\w:]+)', t)
    if m and t.startswith('static '):
        p = m.group(1)
        for k in (p + '::{closure#0}', p):
            fn = I.F.find(k, k)
            if fn:
                strs = []
                for b in fn['blocks']:
                    for o in all_ops(b):
                        if o[0] == 'k' and isinstance(o[1].get('v'), dict) and 'str' in o[1]['v']:
                            strs.append(o[1]['v']['str'])
                if len(strs) >= 1 and b:
                    # the pattern is the operand of Regex::new
                    for bb in fn['blocks']:
                        tt = bb[1]
                        if tt['k'] == 'call' and 'f' in tt and tt['f']['p'].endswith('Regex::new'):
                            o = tt['args'][0]
                            if o[0] == 'k':
                                return o[1]['v'].get('str')
                    return strs[0] if len(strs) == 1 else None
    m = re.match(r'^regex\((".*")\)', t)
    if m:
        return json.loads(m.group(1))
    return None


def mandatory_groups(p, n):
    """is group n of the pattern part of every match? (no alternation, group not under an optional quantifier)"""
    q = re.sub(r'\\.', 'x', p)
    q = re.sub(r'\[[^\]]*\]', 'x', q)
    if '|' in q or '(?' in q:
        return False
    if n == 0:
        return True
    opens, k = [], 0
    for i, c in enumerate(q):
        if c == '(':
            k += 1
            opens.append(k)
        elif c == ')':
            g = opens.pop()
            if g == n:
                return not opens and not re.match(r'[?*]|\{0', q[i + 1:])
    return False


def regex_match(I, st, pat, v):
    """[(state, TRUE|FALSE)]; a match bounds the length"""
    q = rx.canon(pat)
    t = I.term(st, v)
    at = atom(I, st, 'match(%s,%s)' % (json.dumps(q), t), unk_val(I, st, v))
    out = []
    for s, tv in I.split_b2(st, at):
        if tv and q in rx.SPEC:
            lo, hi = rx.SPEC[q]
            L = I.len_of(s, I.strip(s, v))
            if L[2]:
                s = I.restrict(s, L[2], ((lo - L[1], POS if hi is None else hi - L[1]),))
            elif L[1] < lo or hi is not None and L[1] > hi:
                s = None
            if s is None:
                continue
        out.append((s, TRUE if tv else FALSE))
    return out


def all_ops(b):
    for s in b[0]:
        if s[0] == '=':
            rv = s[2]
            for x in rv[1:]:
                if isinstance(x, list) and x and x[0] in ('c', 'm', 'k') and len(x) == 2:
                    yield x
                elif isinstance(x, list) and x and isinstance(x[0], list):
                    for y in x:
                        if isinstance(y, list) and len(y) == 2 and y[0] in ('c', 'm', 'k'):
                            yield y
    t = b[1]
    if t['k'] == 'call':
        for a in t['args']:
            yield a
    if t['k'] == 'switch':
        yield t['d']


def pure(I, st, name, args, dty, rng=None):
    path = '%s(%s)' % (name, ', '.join(I.term(st, a) for a in args))
    u = unk_val(I, st, *args)
    if u:
        I.unkpaths.setdefault(path, u)
    if dty == 'bool':
        return [(st, atom(I, st, path, u))]
    if dty in INT:
        lo, hi = INT[dty]
        return [(st, I.sym(path, rng or ((lo, hi),), u))]
    mm = re.search(r'(?:^|^std::result::Result<|^std::option::Option<)(?:[\w:]*::)?(Address|FixedBytes<(\d+)>)', dty or '')
    if mm:
        I.fixlen[path + ('.Ok' if dty.startswith(RES) else '.Some' if dty.startswith(OPT) else '')] = int(mm.group(2) or 20)
    return [(st, ('o', path))]


def panic_if(I, st, cond, fn, msg):
    """states where cond is false; the others panic"""
    out = []
    for s, tv in I.split_b2(st, cond):
        if tv:
            I.panic(s, fn or I.stack[-1], msg)
        else:
            out.append(s)
    return out


def index_model(I, st, args, fn):
    base = I.strip(st, args[0])
    ix = I.strip(st, args[1])
    if ix[0] == 'a':      # ranges
        nm = ix[1].rsplit('::', 1)[-1]
        n = I.len_of(st, base)
        lo = hi = None
        if nm == 'Range':
            lo, hi = I.nval(st, ix[4][0]), I.nval(st, ix[4][1])
        elif nm == 'RangeFrom':
            lo, hi = I.nval(st, ix[4][0]), n
        elif nm == 'RangeTo':
            lo, hi = num(0), I.nval(st, ix[4][0])
        elif nm == 'RangeInclusive':
            lo, hi = I.nval(st, ix[4][0]), lin_add(I.nval(st, ix[4][1]), num(1))
        elif nm == 'RangeToInclusive':
            lo, hi = num(0), lin_add(I.nval(st, ix[4][0]), num(1))
        elif nm == 'RangeFull' or ix[2] == 'RangeFull':
            return [(st, args[0])]
        if lo is not None:
            sts = panic_if(I, st, I.cmpv(st, 'Gt', lo, hi), fn, 'slice index starts after end')
            sts = [s2 for s in sts for s2 in panic_if(I, s, I.cmpv(s, 'Gt', hi, n), fn, 'slice index out of range')]
            return [(s, ('cr', slice_val(I, s, base, lo, hi, n))) for s in sts]
    if base[0] in ('m',) or (ix[0] not in ('n',) and base[0] != 'l'):
        return pure(I, st, 'index', args, None)
    i = I.nval(st, ix, 'usize')
    n = I.len_of(st, base)
    sts = panic_if(I, st, I.cmpv(st, 'Ge', i, n), fn, 'index out of bounds')
    out = []
    for s in sts:
        x = I.project(s, base, ('i', i))
        out.append((s, x if x[0] == 'o' else ('cr', x)))
    return out


def const_bytes_of(I, st, v):
    v = I.strip(st, v)
    if v[0] == 'v' and all(x[0] == 'k' for x in v[1]):
        return b''.join(x[1] for x in v[1])
    if v[0] == 'l' and v[1] and all(x[0] == 'n' and not x[2] and 0 <= x[1] < 256 for x in v[1]):
        return bytes(x[1] for x in v[1])
    return None


def slice_val(I, st, base, lo, hi, n):
    if lo == num(0):
        d = lin_add(hi, n, -1)
        if hi == n or (d[2] and rs_const(I.range_of(st, d)) == 0):
            return base
    if lo == hi and base[0] in ('v', 's', 'l'):
        return ('v', ()) if base[0] != 'l' else ('l', ())
    if base[0] in ('v', 's') and not lo[2]:
        segs = I.segs_of(st, base)
        out, pos = [], 0
        hc = hi[1] if not hi[2] else None
        good = True
        tail = hi == n
        for s in segs:
            ln = len(s[1]) if s[0] == 'k' else s[2] if s[0] in ('be', 'le') else None
            if ln is None:
                Lp = I.length(s[1])
                ln = Lp[1] if not Lp[2] else rs_const(I.range_of(st, Lp))
            if ln is None:
                if pos is None:
                    out.append(s)
                    continue
                if pos >= lo[1] and (tail or False):
                    out.append(s)
                    pos = None
                    continue
                good = False
                break
            if pos is None:
                out.append(s)
                continue
            a, b = pos, pos + ln
            pos = b
            if b <= lo[1] or (hc is not None and a >= hc):
                continue
            if a >= lo[1] and (tail or (hc is not None and b <= hc)):
                out.append(s)
            elif s[0] == 'k':
                out.append(('k', s[1][max(0, lo[1] - a):(hc - a if hc is not None else None)]))
            else:
                good = False
                break
        if good:
            return ('v', tuple(out))
    if base[0] == 'l' and not lo[2] and not hi[2]:
        return ('l', base[1][lo[1]:hi[1]])
    t = '%s[%s..%s]' % (I.term(st, base), lin_str(lo), lin_str(hi))
    d = lin_add(hi, lo, -1)
    L = I.len_of(st, ('o', t))
    k = lin_add(L, d, -1)
    if k[2]:
        nk, f = norm_key(k[2])
        st.R[nk] = ((-k[1] // f if f else 0,) * 2,)
    if d[2]:
        c = rs_const(I.range_of(st, d))
        if c is not None and len(L[2]) == 1:
            nk, f = norm_key(L[2])
            if f == 1 and any(l <= c <= h for l, h in I.range_of(st, L)):
                st.R.setdefault(nk, ((c, c),))
    return ('o', t)


def fold_fmt(I, st, args):
    """a compiled format template with its arguments, constants folded into the text"""
    t = I.strip(st, args[0])
    if t[0] == 's':
        return t if len(args) == 1 else None
    if t[0] == 'v' and len(t[1]) == 1 and t[1][0][0] == 'k':
        b = t[1][0][1]
    elif t[0] == 'l' and all(x[0] == 'n' and not x[2] and 0 <= x[1] < 256 for x in t[1]):
        b = bytes(x[1] for x in t[1])
    else:
        return None
    al = ()
    if len(args) > 1:
        al = I.strip(st, args[1])
        if al[0] not in ('l', 't'):
            return None
        al = al[1]
    out, rest, i, a = '', [], 0, 0
    while i < len(b) and b[i]:
        n = b[i]
        if n < 0x80:
            out += b[i + 1:i + 1 + n].decode('utf8', 'replace').replace('{', '{{').replace('}', '}}')
            i += 1 + n
        elif n == 0xc0 and a < len(al):
            v = I.strip(st, al[a])
            a += 1
            i += 1
            if v[0] == 's':
                out += v[1].replace('{', '{{').replace('}', '}}')
            elif v[0] == 'n' and not v[2]:
                out += str(v[1])
            else:
                out += '{}'
                rest.append(I.term(st, v))
        else:
            return None
    if not rest:
        return ('s', out.replace('{{', '{').replace('}}', '}'))
    if out == '{}' and not re.match(r'^"|^fmt\(', rest[0]):
        return ('o', 'to_string(%s)' % rest[0])
    return ('o', 'fmt(%s, %s)' % (json.dumps(out), ', '.join(rest)))


def text_cat(I, st, vs):
    """two texts one after the other, as a format"""
    out, rest = '', []
    for v in vs:
        t = I.term(st, v)
        m = re.match(r'^fmt\(("(?:[^"\\]|\\.)*"), (.*)\)$', t)
        if v[0] == 's':
            out += v[1].replace('{', '{{').replace('}', '}}')
        elif m:
            out += json.loads(m.group(1))
            rest.append(m.group(2))
        else:
            out += '{}'
            rest.append(t)
    if not rest:
        return ('s', out.replace('{{', '{').replace('}}', '}'))
    return ('o', 'fmt(%s, %s)' % (json.dumps(out), ', '.join(rest)))


def dispatch(I, st, f, name, args, dty, fn):
    a0 = args[0] if args else None
    ip = f.get('ip') or f['p']
    tr, _, m = name.rpartition('::')
    # ---- panics, tracing, formatting
    if any(ip.startswith('core::' + x) or ip.startswith('std::' + x) or name.startswith(x) for x in PANICS) or dty == '!':
        I.panic(st, fn or I.stack[-1], 'call to ' + name)
        return []
    if 'tracing' in ip or 'log::' in ip[:6]:
        if dty == 'bool':
            return [(st, TRUE if m in ('is_never',) else FALSE)]
        if m in ('is_never',):
            return [(st, TRUE)]
        if dty == '()':
            return [(st, UNIT)]
        return [(st, ('o', 'tracing'))]
    if m in ('le', 'lt', 'ge', 'gt') and tr == 'PartialOrd' and ('tracing' in (f.get('self') or '') or any('tracing' in I.term(st, a) for a in args)):
        return [(st, FALSE)]
    if name in ('Arguments::new', 'Arguments::new_const', 'Arguments::new_v1', 'Arguments::from_str', 'Arguments::new_v1_formatted'):
        v = fold_fmt(I, st, args)
        if v is not None:
            return [(st, v)]
        parts = []
        for a in args:
            v = I.strip(st, a)
            parts.append(I.term(st, v))
        return [(st, ('o', 'fmt(%s)' % ', '.join(parts)))]
    if tr == 'NonZero' and m in ('new', 'new_unchecked', 'get', 'try_from'):
        t = I.strip(st, a0)
        if m == 'get':
            mm = re.fullmatch(r'nz\((.*)\)|NonZero\(NonZero\w+Inner\((\d+)\)\)', I.term(st, t))
            if mm and mm.group(2):
                return [(st, ('n', int(mm.group(2)), ()))]
            if t[0] == 'nz':
                return [(st, t[1])]
        n = I.nval(st, a0)
        nz = ('o', 'nz(%s)' % I.term(st, n))
        if m == 'new_unchecked':
            return [(st, nz)]
        if m == 'new':
            if not n[2]:
                return [(st, some(nz) if n[1] else NONE)]
            out = []
            for dom, v in ((((1, 1 << 64),), some(nz)), (((0, 0),), NONE)):
                s2 = I.restrict(st, n[2], tuple((a - n[1], b - n[1]) for a, b in dom))
                if s2 is not None:
                    out.append((s2, v))
            if out:
                return out
    if tr == 'Argument':
        if m in ('new_display', 'none'):
            return [(st, a0)]
        return [(st, ('o', '%s(%s)' % (m[4:] if m.startswith('new_') else m, I.term(st, a0))))]
    if name in ('fmt::format',):
        return [(st, a0)]
    if name == 'Formatter::write_str' or tr == 'Formatter' or m == 'write_fmt':
        return [(st, ok(UNIT))]
    # local body wins for trait impls written in this workspace
    local = I.F.find(f.get('i'), f.get('ip'))
    if local is not None and local['kind'] in ('fn',) and not local['path'].startswith(('std::', 'core::', 'alloc::', '<std::', '<core::', '<alloc::')):
        if name in ('Clone::clone',):
            return [(st, I.strip(st, a0))]
        if name in ('PartialEq::eq', 'PartialEq::ne') and ('/_.rs' in local['file'] or 'snapchain_proto' in (f.get('self') or '')[:20]):
            r = eqv(I, st, args[0], args[1], f.get('self'))
            return [(st, r if m == 'eq' else neg2(I, st, r))]
        if name in ('Debug::fmt', 'Display::fmt'):
            return [(st, ok(UNIT))]
        if name in ('ToString::to_string',):
            pass
        return None
    # ---- closures called through the Fn traits
    if tr in ('FnOnce', 'FnMut', 'Fn') and m.startswith('call'):
        tup = I.strip(st, args[1])
        al = list(tup[1]) if tup[0] == 't' else [args[1]]
        return callf(I, st, a0, al, dty)
    if name == 'boxed::box_assume_init_into_vec_unsafe':
        x = I.strip(st, a0)
        while x[0] == 'upd' and x[1] == ('bot',) and len(x[2]) == 1 and x[2][0][0] == 'value':
            x = I.strip(st, x[2][0][1])
        return [(st, x)]
    if name in IDENT:
        if name in ('Deref::deref', 'AsRef::as_ref', 'Borrow::borrow', 'Cow::into_owned', 'ToOwned::to_owned'):
            x = I.strip(st, a0)
            if x[0] == 'a' and x[1].endswith('Cow') and len(x[4]) == 1:
                return [(st, x[4][0] if name == 'Deref::deref' else I.strip(st, x[4][0]))]
        if name.endswith(('::to_vec', '::to_owned', '::clone', '::into_owned')) and name != 'Arc::clone':
            x = I.strip(st, a0)
            return [(st, x if x[0] in ('v', 's', 'n', 'l') else ident(I, st, a0))]
        if name.endswith('_mut') and a0[0] == 'r' and peel_ty(f.get('self')).startswith(('std::vec::Vec', 'std::string::String', 'alloc::vec', 'bytes::BytesMut', 'std::collections::VecDeque')):
            return [(st, cell_of(I, st, a0))]
        return [(st, ident(I, st, a0))]
    if name in ('Box::new_uninit', 'MaybeUninit::uninit'):
        return [(st, ('bot',))]
    if name in ('ToString::to_string',):
        v = I.strip(st, a0)
        ty = peel_ty(f.get('self'))
        if v[0] in ('s',) or ty in ('std::string::String', 'str', 'char'):
            return [(st, v)]
        if v[0] == 'n' and not v[2] and ty in INT:
            return [(st, ('s', str(v[1])))]
        return pure(I, st, 'to_string', args, dty)
    if name in ('Into::into', 'From::from'):
        return convert(I, st, f, name, args, dty)
    if name in ('TryFrom::try_from', 'TryInto::try_into'):
        return try_convert(I, st, f, name, args, dty)
    if name == 'Default::default':
        d = default_of(I, st, dty)
        if d is not None:
            return [(st, d)]
        p = '<%s as std::default::Default>::default' % strip_generics(dty or '')
        b = I.F.find(p, p)
        if b:
            return I.call_fn(st, b, [])
        return pure(I, st, 'default ' + (dty or ''), [], dty)
    # ---- comparisons
    if tr in ('PartialEq',) or (tr in ('slice', 'str') and m in ('eq', 'ne')):
        r = eqv(I, st, args[0], args[1], f.get('self'))
        return [(st, r if m == 'eq' else neg2(I, st, r))]
    if tr in ('PartialOrd', 'Ord'):
        if m in ('lt', 'le', 'gt', 'ge'):
            out = []
            for s, o in cmp_lex(I, st, args[0], args[1], f.get('self')):
                tv = {'lt': o == 'Less', 'le': o != 'Greater', 'gt': o == 'Greater', 'ge': o != 'Less'}[m]
                out.append((s, TRUE if tv else FALSE))
            return merge_out(I, out)
        if m in ('cmp', 'partial_cmp'):
            return [(s, ordv(o) if m == 'cmp' else some(ordv(o))) for s, o in cmp_lex(I, st, args[0], args[1], f.get('self'))]
        if m in ('max', 'min'):
            out = []
            for s, o in cmp_lex(I, st, args[0], args[1], f.get('self')):
                out.append((s, args[1] if (o != 'Greater') == (m == 'max') else args[0]))
            return out
        if m == 'clamp':
            x = I.nval(st, a0)
            lo, hi = I.nval(st, args[1]), I.nval(st, args[2])
            out = []
            for s, o in cmp_lex(I, st, x, lo):
                if o == 'Less':
                    out.append((s, lo))
                else:
                    for s2, o2 in cmp_lex(I, s, x, hi):
                        out.append((s2, hi if o2 == 'Greater' else x))
            return out
    if tr == 'Ordering':
        v = I.strip(st, a0)
        if v[0] == 'a':
            t = {'is_lt': v[2] == 'Less', 'is_gt': v[2] == 'Greater', 'is_eq': v[2] == 'Equal', 'is_ne': v[2] != 'Equal', 'is_le': v[2] != 'Greater', 'is_ge': v[2] != 'Less'}
            if m in t:
                return [(st, TRUE if t[m] else FALSE)]
            if m == 'reverse':
                return [(st, ordv({'Less': 'Greater', 'Greater': 'Less', 'Equal': 'Equal'}[v[2]]))]
            if m == 'then':
                return [(st, args[1] if v[2] == 'Equal' else v)]
            if m == 'then_with':
                return callf(I, st, args[1], [], dty) if v[2] == 'Equal' else [(st, v)]
    if name == 'intrinsics::discriminant_value' or name == 'mem::discriminant':
        return [(st, I.discr(st, a0, peel_ty(f.get('self') or (f.get('a') or [''])[0])))]
    # ---- ? operator
    if name == 'Try::branch':
        ty = f.get('self') or ''
        opt = ty.startswith(OPT)
        out = []
        for s, var, pv in (split_opt(I, st, a0) if opt else split_res(I, st, a0)):
            if var in ('Some', 'Ok'):
                out.append((s, ('a', CF, 'Continue', ('0',), (pv,))))
            else:
                out.append((s, ('a', CF, 'Break', ('0',), (NONE if opt else err(pv),))))
        return out
    if name == 'Try::from_output':
        return [(st, some(a0) if (dty or '').startswith(OPT) else ok(a0))]
    if name == 'FromResidual::from_residual':
        v = I.strip(st, a0)
        if v[0] == 'a' and v[2] == 'Err' and (dty or '').startswith(RES):
            ta = targs(dty)
            r = from_impl(I, st, v[4][0], None, ta[1]) if len(ta) > 1 else None
            e0 = I.strip(st, v[4][0])
            if r and not (e0[0] == 'a' and strip_generics(ta[1]) == e0[1]):
                return [(s, err(x)) for s, x in r]
            return [(st, err(v[4][0]))]
        return [(st, v)]
    if tr == 'Option':
        r = opt_method(I, st, m, args, dty, fn)
        if r is not None:
            return r
    if tr == 'Result':
        r = res_method(I, st, m, args, dty, fn)
        if r is not None:
            return r
    if tr == 'bool' and m in ('then', 'then_some', 'not'):
        out = []
        for s, tv in I.split_b2(st, a0):
            if not tv:
                out.append((s, NONE))
            elif m == 'then_some':
                out.append((s, some(args[1])))
            else:
                out += [(s2, some(y)) for s2, y in callf(I, s, args[1], [])]
        return out
    # ---- integers and floats
    if tr in INT or tr in ('f64', 'f32'):
        r = int_method(I, st, tr, m, args, dty, fn)
        if r is not None:
            return r
    if name in ('intrinsics::integer_min', 'intrinsics::integer_max', 'cmp::min', 'cmp::max'):
        out = []
        for s, o in cmp_lex(I, st, args[0], args[1]):
            big = m.endswith('max')
            out.append((s, args[1] if (o != 'Greater') == big else args[0]))
        return out
    if tr in ('Add', 'AddAssign') and len(args) == 2 and (f.get('self') or '').endswith('string::String'):
        v = text_cat(I, st, [I.strip(st, a0), I.strip(st, args[1])])
        if tr == 'Add':
            return [(st, v)]
        return [(store_ref(I, st, cell_of(I, st, a0), v), UNIT)]
    if tr in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'Shl', 'Shr', 'BitXor', 'Neg', 'Not'):
        ty = peel_ty(f.get('self'))
        if ty in INT and len(args) == 2:
            v = I.binop(st, tr + ('WithOverflow' if tr in ('Add', 'Sub', 'Mul') else ''), args[0], args[1], ty)
            if v[0] == 't':
                return [(s, v[1][0]) for s in panic_if(I, st, v[1][1], fn, 'arithmetic overflow')]
            return [(st, v)]
        if ty == 'bool' and len(args) == 2:
            return [(st, ('b2', tr, args[0], args[1]))]
        return pure(I, st, tr.lower(), args, dty)
    # ---- collections
    if m in ('len', 'is_empty') and (tr in ('Vec', 'slice', 'str', 'String', 'ExactSizeIterator', 'HashMap', 'HashSet', 'BTreeMap', 'BTreeSet', 'VecDeque', 'Bytes', 'Map', 'array') or True) and len(args) == 1:
        v = I.strip(st, a0)
        if v[0] == 'it':
            if finite(v):
                return consume(I, st, 'count', args, dty)
            v2 = v
            while v2[1] in ('map', 'copied', 'enum'):
                v2 = v2[2]
            if v2[1] == 'sym' and v2[3] == 'f':
                n = I.len_of(st, ('o', v2[2]))
                return [(st, n if m == 'len' else I.cmpv(st, 'Eq', n, num(0)))]
            return None
        n = I.len_of(st, a0)
        return [(st, n if m == 'len' else I.cmpv(st, 'Eq', n, num(0)))]
    if name in ('Vec::new', 'Vec::with_capacity', 'HashSet::new', 'BTreeSet::new', 'VecDeque::new', 'HashMap::new', 'BTreeMap::new', 'Map::new', 'String::new', 'String::with_capacity', 'HashMap::with_capacity', 'HashSet::with_capacity', 'VecDeque::with_capacity', 'Vec::new_in', 'BytesMut::new', 'BytesMut::with_capacity'):
        if tr == 'String':
            return [(st, ('s', ''))]
        if tr in ('HashMap', 'BTreeMap', 'Map'):
            return [(st, ('m', ()))]
        if tr == 'BytesMut':
            return [(st, ('v', ()))]
        return [(st, ('v', ()) if dty == 'std::vec::Vec<u8>' else ('l', ()))]
    if tr in ('Vec', 'String', 'slice', 'str', 'VecDeque', 'HashSet', 'BTreeSet', 'HashMap', 'BTreeMap', 'Map', 'Extend', 'Index', 'IndexMut', 'array', 'BytesMut', 'BufMut', 'Write', 'SliceIndex', 'RangeInclusive', 'Range', 'RangeBounds'):
        r = coll_method(I, st, f, tr, m, args, dty, fn)
        if r is not None:
            return r
    if tr in ('Iterator', 'IntoIterator', 'DoubleEndedIterator', 'Itertools', 'FromIterator', 'ExactSizeIterator', 'Peekable'):
        r = iter_method(I, st, m, args, dty, fn)
        if r is not None:
            return r
    if name in ('iter::once',):
        return [(st, ('it', 'lst', (a0,), 0))]
    if name in ('iter::empty',):
        return [(st, ('it', 'lst', (), 0))]
    if name in ('iter::repeat',):
        return [(st, ('it', 'rep', a0))]
    if name in ('mem::take', 'mem::replace', 'mem::swap'):
        ref = cell_of(I, st, a0)
        old = I.strip(st, a0)
        if old[0] == 'o' and (dty in INT or dty == 'bool'):
            old = I.nval(st, old, dty)
        elif old[0] == 'o' and ref[0] == 'r' and m != 'swap':
            old = ('o', 'before(%s)' % old[1])
        if m == 'take':
            nv = default_of(I, st, dty)
            return [(store_ref(I, st, ref, nv if nv is not None else ('o', 'default ' + (dty or ''))), old)]
        if m == 'replace':
            return [(store_ref(I, st, ref, args[1]), old)]
        r2 = cell_of(I, st, args[1])
        b = I.strip(st, args[1])
        return [(store_ref(I, store_ref(I, st, ref, b), r2, old), UNIT)]
    if name in ('mem::drop', 'drop_in_place', 'mem::forget', 'yield_now'):
        return [(st, UNIT)]
    if name in ('mem::size_of', 'mem::size_of_val'):
        t = (f.get('a') or [''])[0]
        if t in INT and t not in ('bool', 'char'):
            return [(st, num({'8': 1, '16': 2, '32': 4, '64': 8, '128': 16, 'size': 8}[t[1:]]))]
        return pure(I, st, 'size_of ' + t, [], 'usize')
    # ---- async plumbing
    if name == 'future::get_context':
        return [(st, ('o', 'cx'))]
    if name == 'Future::poll':
        v = I.strip(st, a0)
        if v[0] == 'cl':
            body = I.F.find(v[1], v[2])
            if body is not None:
                return [(s, ('a', 'std::task::Poll', 'Ready', ('0',), (x,))) for s, x in I.call_fn(st, body, [v, ('o', 'resume')])]
        p = 'await ' + I.term(st, v)
        I.inherit_unk(I.term(st, v), p)
        return [(st, ('a', 'std::task::Poll', 'Ready', ('0',), (('o', p),)))]
    # ---- regex, lazies
    if tr in ('LazyLock', 'Lazy', 'OnceLock', 'OnceCell') and m in ('force', 'deref', 'get_or_init', 'new'):
        return [(st, a0)]
    if name in ('str::from_utf8', 'String::from_utf8', 'converts::from_utf8'):
        t = I.term(st, a0)
        if I.strip(st, a0)[0] == 'bytes' or t.startswith('"'):
            return [(st, ok(a0))]
        at = atom(I, st, 'utf8(%s)' % t, unk_val(I, st, a0))
        return [(s, ok(a0) if tv else err(('o', 'utf8error(%s)' % t))) for s, tv in I.split_b2(st, at)]
    if name in ('Engine::encode', 'Engine::decode', 'Engine::encode_string') and len(args) == 2:
        g = I.term(st, a0)
        if g.startswith('GeneralPurpose{'):
            url = ' 45, 95]' in g.split('decode_table')[0]
            pad = '' if 'encode_padding: 0' not in g else '-nopad'
            lab = 'base64%s%s' % ('url' if url else '', pad)
            t = I.term(st, args[1])
            if name == 'Engine::encode':
                return [(st, ('o', '%s(%s)' % (lab, t)))]
            if name == 'Engine::decode':
                return [(st, ('o', 'un%s(%s)' % (lab, t)))]
    if name in ('Regex::new', 'RegexBuilder::new'):
        return [(st, ok(('o', 'regex(%s)' % I.term(st, a0))))]
    if name == 'Regex::is_match':
        pat = regex_of(I, st, a0)
        if pat is None:
            return pure(I, st, 'is_match', args, dty)
        return [(s, ok(v) if (dty or '').startswith(RES) else v) for s, v in regex_match(I, st, pat, args[1])]
    if name in ('Regex::captures', 'Regex::find'):
        pat = regex_of(I, st, a0)
        if pat is None:
            return pure(I, st, name, args, dty)
        q = rx.canon(pat)
        t = I.term(st, args[1])
        out = []
        for s, v in regex_match(I, st, pat, args[1]):
            r = some(('o', '%s(%s,%s)' % (m, json.dumps(q), t))) if v == TRUE else NONE
            out.append((s, ok(r) if (dty or '').startswith(RES) else r))
        return out
    if name == 'Captures::get' and a0 is not None:
        t, g = I.term(st, a0), I.strip(st, args[1])
        if t.startswith('captures(') and g[0] == 'n' and not g[2]:
            q = json.JSONDecoder().raw_decode(t[len('captures('):])[0]
            if mandatory_groups(q, g[1]):
                return [(st, some(('o', 'group(%s, %d)' % (t, g[1]))))]
    if name in ('SystemTime::now', 'Instant::now', 'Utc::now'):
        I.keepsyms.add('now')
        return [(st, ('o', 'now()'))]
    if tr == 'Hasher' and 'blake3' in ip:
        if m == 'new':
            return [(st, ('v', ()))]
        if m == 'update':
            ref = cell_of(I, st, a0)
            segs = list(I.segs_of(st, a0))
            for g in I.segs_of(st, args[1]):
                segs = I.seg_push(segs, g)
            return [(store_ref(I, st, ref, ('v', tuple(segs))), a0)]
        if m in ('finalize',):
            return [(st, hash32(I, 'blake3(%s)' % ' ++ '.join(I.seg_str(g) for g in I.segs_of(st, a0))))]
    if name in ('keccak256', 'utils::keccak256', 'alloy_primitives::keccak256'):
        return [(st, hash32(I, 'keccak256(%s)' % ' ++ '.join(I.seg_str(g) for g in I.segs_of(st, a0))))]
    if tr in ('Digest', 'Keccak256') and m in ('digest', 'finalize', 'update', 'new', 'new_with_prefix', 'chain_update', 'finalize_into'):
        hm = re.search(r'(Sha\d+(?:_\d+)?|Keccak\d+|Ripemd\d+|Blake\w+)', str(f.get('self') or '') + ' ' + ip + ' ' + ' '.join(map(str, f.get('a') or [])))
        alg = hm.group(1).lower() if hm else 'digest'
        if m == 'new':
            return [(st, ('v', ()))]
        if m == 'new_with_prefix':
            return [(st, ('v', tuple(I.segs_of(st, a0))))]
        if m in ('digest', 'finalize'):
            return [(st, hash32(I, '%s(%s)' % (alg, ' ++ '.join(I.seg_str(g) for g in I.segs_of(st, a0)))))]
        if m == 'finalize_into':
            h = hash32(I, '%s(%s)' % (alg, ' ++ '.join(I.seg_str(g) for g in I.segs_of(st, a0))))
            return [(store_ref(I, st, cell_of(I, st, args[1]), h), UNIT)]
        segs = list(I.segs_of(st, a0))
        for g in I.segs_of(st, args[1]):
            segs = I.seg_push(segs, g)
        if m == 'chain_update':
            return [(st, ('v', tuple(segs)))]
        ref = cell_of(I, st, a0)
        return [(store_ref(I, st, ref, ('v', tuple(segs))), UNIT)]
    if name == 'blake3::hash':
        return [(st, hash32(I, 'blake3(%s)' % ' ++ '.join(I.seg_str(g) for g in I.segs_of(st, a0))))]
    if name == 'serde_json::to_value':
        v = I.strip(st, a0)
        return [(st, ok(v))]
    if name in ('Value::Object', 'Value::String', 'Value::Array'):
        return [(st, a0)]
    if name in PURE or any(r.search(ip) for r in I.spec.pure):
        return pure(I, st, name, args, dty)
    return None


def ident(I, st, v):
    if v[0] == 'r':
        x = I.load(st, v[1], v[2])
        # smart pointers are transparent, so a reference to one is a reference to its content
        return v if x[0] not in ('r', 'cr', 'o') else x if x[0] in ('r', 'o') else v
    return v


def convert(I, st, f, name, args, dty):
    a0 = args[0]
    src = f.get('self') if name == 'Into::into' else ((f.get('a') or ['', ''])[1] if len(f.get('a') or []) > 1 else None)
    dst = dty or ''
    v = I.strip(st, a0)
    if src and dst and strip_generics(peel_ty(src)) == strip_generics(dst):
        return [(st, v)]
    if dst in INT:
        if src and I.is_clike(peel_ty(src)):
            return [(st, I.discr(st, v, peel_ty(src)))]
        if v[0] in ('n', 'c', 'b2', 'o'):
            return [(st, v if v[0] != 'b2' else I.nval(st, v))]
    if dst in ('f64', 'f32') and v[0] in ('n', 'o'):
        x = I.nval(st, v, src if src in INT else None)
        if src in INT:
            return [(st, ('n', x[1] * FLOAT_SCALE, tuple((s, c * FLOAT_SCALE) for s, c in x[2])))]
        return [(st, x)]
    if strip_generics(dst) == OPT and not (src or '').startswith(OPT):
        return [(st, some(a0))]
    r = from_impl(I, st, a0, src, dst)
    if r is not None:
        return r
    if dst in ('std::string::String', 'std::vec::Vec<u8>', '&str', 'bytes::Bytes', '&[u8]') or strip_generics(dst) in ('std::boxed::Box', 'std::sync::Arc', 'std::vec::Vec', 'std::borrow::Cow'):
        return [(st, v)]
    if strip_generics(dst).endswith(('HashSet', 'BTreeSet', 'VecDeque')):
        return [(st, v)]
    if dst == 'serde_json::Value':
        return [(st, v)]
    if strip_generics(dst).endswith(('HashMap', 'BTreeMap')) and v[0] == 'l':
        kv = []
        for x in v[1]:
            x = I.strip(st, x)
            if x[0] != 't':
                return pure(I, st, 'map', args, dty)
            kv.append((I.term(st, x[1][0]), x[1][1]))
        return [(st, ('m', tuple(kv)))]
    return pure(I, st, 'into ' + strip_generics(dst).rsplit('::', 1)[-1], args, dty)


def try_convert(I, st, f, name, args, dty):
    ta = targs(dty or '')
    if not ta:
        return None
    dst = ta[0]
    a0 = args[0]
    src = f.get('self') if name == 'TryInto::try_into' else ((f.get('a') or ['', ''])[1] if len(f.get('a') or []) > 1 else None)
    v = I.strip(st, a0)
    if dst in INT and (v[0] == 'n' or (src in INT)):
        x = I.nval(st, v, src if src in INT else None)
        lo, hi = INT[dst]
        out = []
        c = b_range(I, st, x, lo, hi)
        for s, tv in I.split_b2(st, c):
            out.append((s, ok(x) if tv else err(('o', 'TryFromIntError'))))
        return out
    m = re.match(r'^&?\[(\w+); (\d+)\]$', dst) or re.match(r'^\S*(FixedBytes)<(\d+)>$', dst)
    if m:
        n = I.len_of(st, v)
        out = []
        for s, tv in I.split_b2(st, I.cmpv(st, 'Eq', n, num(int(m.group(2))))):
            out.append((s, ok(v) if tv else err(v)))
        return out
    # prost enums: derived TryFrom<i32>
    a = I.F.adt(dst)
    if a and a['kind'] == 'enum' and all(not x['f'] for x in a['variants']) and (v[0] == 'n' or src == 'i32'):
        x = I.nval(st, v, 'i32')
        out = []
        ds = rs(*[(var['d'], var['d']) for var in a['variants']])
        if not x[2]:
            for var in a['variants']:
                if var['d'] == x[1]:
                    return [(st, ok(('a', strip_generics(dst), var['n'], (), ())))]
            return [(st, err(('o', 'UnknownEnumValue')))]
        c = rs_shift(ds, -x[1])
        key, fac = norm_key(x[2])
        for s in I.assume(st, ('c', key, rs_unscale(c, fac)), True):
            k = rs_const(I.range_of(s, x))
            if k is not None:
                nm = [var['n'] for var in a['variants'] if var['d'] == k][0]
                out.append((s, ok(('a', strip_generics(dst), nm, (), ()))))
                continue
            p = '%s(%s)' % (strip_generics(dst).rsplit('::', 1)[-1], lin_str(x))
            d = I.sym('discr(%s)' % p, ds, I.lin_unk(x))
            s2 = I.restrict(s, lin_add(d, x, -1)[2], ((x[1], x[1]),))
            if s2 is not None:
                out.append((s2, ok(('o', p))))
        for s in I.assume(st, ('c', key, rs_unscale(c, fac)), False):
            out.append((s, err(('o', 'UnknownEnumValue'))))
        return out
    if peel_ty(src) == dst:
        return [(st, ok(v))]
    p = pure(I, st, 'try_into ' + strip_generics(dst).rsplit('::', 1)[-1], args, dty)
    return p


def b_range(I, st, x, lo, hi):
    r = I.range_of(st, x)
    if r and r[0][0] >= lo and r[-1][1] <= hi:
        return TRUE
    if not x[2]:
        return TRUE if lo <= x[1] <= hi else FALSE
    key, f = norm_key(x[2])
    return ('c', key, rs_unscale(rs_shift(((lo, hi),), -x[1]), f))


def opt_method(I, st, m, args, dty, fn):
    a0 = args[0]
    cases = None

    def sp():
        return split_opt(I, st, a0)
    out = []
    if m in ('is_some', 'is_none'):
        v = I.strip(st, a0)
        if v[0] == 'o':
            d = I.discr_sym(v[1], OPT)
            I.symty[d[2][0][0]] = rs_inter(I.symty[d[2][0][0]], ((0, 1),))
            return [(st, I.cmpv(st, 'Eq', d, num(1 if m == 'is_some' else 0)))]
        return [(s, TRUE if (var == 'Some') == (m == 'is_some') else FALSE) for s, var, p in sp()]
    if m in ('as_ref', 'as_deref', 'as_mut', 'as_deref_mut', 'cloned', 'copied', 'as_slice_', 'iter_'):
        v = I.strip(st, a0)
        if m in ('as_mut', 'as_deref_mut') and a0[0] == 'r' and v[0] == 'a' and v[2] == 'Some':
            ref = cell_of(I, st, a0)
            return [(st, some(('r', ref[1], ref[2] + (('f', 0, '0'),))))]
        return [(st, v)]
    if m in ('unwrap', 'expect'):
        for s, var, p in sp():
            if var == 'Some':
                out.append((s, p))
            else:
                I.panic(s, fn or I.stack[-1], 'Option::%s on None: %s' % (m, I.term(st, a0)[:80]))
        return out
    if m == 'unwrap_or':
        return [(s, p if var == 'Some' else args[1]) for s, var, p in sp()]
    if m == 'unwrap_or_default':
        for s, var, p in sp():
            if var == 'Some':
                out.append((s, p))
            else:
                d = default_of(I, s, dty)
                if d is not None:
                    out.append((s, d))
                else:
                    pth = '<%s as std::default::Default>::default' % strip_generics(dty or '')
                    b = I.F.find(pth, pth)
                    out += I.call_fn(s, b, []) if b else [(s, ('o', 'default ' + (dty or '')))]
        return out
    if m in ('unwrap_or_else', 'or_else', 'get_or_insert_with_'):
        for s, var, p in sp():
            if var == 'Some':
                out.append((s, p if m == 'unwrap_or_else' else some(p)))
            else:
                out += callf(I, s, args[1], [], dty)
        return out
    if m == 'or':
        return [(s, some(p) if var == 'Some' else args[1]) for s, var, p in sp()]
    if m == 'xor':
        return None
    if m in ('map', 'and_then', 'inspect'):
        for s, var, p in sp():
            if var == 'None':
                out.append((s, NONE))
            else:
                for s2, y in callf(I, s, args[1], [p]):
                    out.append((s2, some(y) if m == 'map' else y if m == 'and_then' else some(p)))
        return out
    if m == 'and':
        return [(s, args[1] if var == 'Some' else NONE) for s, var, p in sp()]
    if m in ('map_or', 'map_or_else'):
        for s, var, p in sp():
            if var == 'None':
                if m == 'map_or':
                    out.append((s, args[1]))
                else:
                    out += callf(I, s, args[1], [], dty)
            else:
                out += callf(I, s, args[2], [p], dty)
        return out
    if m in ('is_some_and', 'is_none_or'):
        for s, var, p in sp():
            if var == 'None':
                out.append((s, FALSE if m == 'is_some_and' else TRUE))
            else:
                out += callf(I, s, args[1], [p], 'bool')
        return out
    if m in ('ok_or', 'ok_or_else'):
        for s, var, p in sp():
            if var == 'Some':
                out.append((s, ok(p)))
            elif m == 'ok_or':
                out.append((s, err(args[1])))
            else:
                out += [(s2, err(y)) for s2, y in callf(I, s, args[1], [])]
        return out
    if m == 'filter':
        for s, var, p in sp():
            if var == 'None':
                out.append((s, NONE))
            else:
                for s2, y in callf(I, s, args[1], [('cr', p)]):
                    for s3, tv in I.split_b2(s2, y):
                        out.append((s3, some(p) if tv else NONE))
        return out
    if m in ('take', 'replace', 'insert'):
        ref = cell_of(I, st, a0)
        old = I.strip(st, a0)
        nv = NONE if m == 'take' else some(args[1])
        if old[0] == 'o' and m != 'insert':
            # what was there keeps its name once the cell holds something else
            return [(store_ref(I, s, ref, nv), NONE if var == 'None' else some(p)) for s, var, p in sp()]
        return [(store_ref(I, st, ref, nv), old)]
    if m in ('iter', 'into_iter', 'iter_mut'):
        return [(s, ('it', 'lst', () if var == 'None' else (p,), 0)) for s, var, p in sp()]
    if m == 'flatten':
        return [(s, NONE if var == 'None' else p) for s, var, p in sp()]
    if m == 'zip':
        for s, var, p in sp():
            if var == 'None':
                out.append((s, NONE))
            else:
                for s2, v2, p2 in split_opt(I, s, args[1]):
                    out.append((s2, NONE if v2 == 'None' else some(('t', (p, p2)))))
        return out
    if m == 'transpose':
        for s, var, p in sp():
            if var == 'None':
                out.append((s, ok(NONE)))
            else:
                for s2, v2, p2 in split_res(I, s, p):
                    out.append((s2, ok(some(p2)) if v2 == 'Ok' else err(p2)))
        return out
    return None


def res_method(I, st, m, args, dty, fn):
    a0 = args[0]

    def sp():
        return split_res(I, st, a0)
    out = []
    if m in ('is_ok', 'is_err'):
        v = I.strip(st, a0)
        if v[0] == 'o':
            d = I.discr_sym(v[1], RES)
            I.symty[d[2][0][0]] = rs_inter(I.symty[d[2][0][0]], ((0, 1),))
            return [(st, I.cmpv(st, 'Eq', d, num(0 if m == 'is_ok' else 1)))]
        return [(s, TRUE if (var == 'Ok') == (m == 'is_ok') else FALSE) for s, var, p in sp()]
    if m in ('as_ref', 'as_deref', 'as_mut', 'cloned', 'copied'):
        return [(st, I.strip(st, a0))]
    if m in ('unwrap', 'expect', 'unwrap_err', 'expect_err'):
        want = 'Err' if m.endswith('err') else 'Ok'
        for s, var, p in sp():
            if var == want:
                out.append((s, p))
            else:
                I.panic(s, fn or I.stack[-1], 'Result::%s on %s: %s' % (m, var, I.term(st, a0)[:80]))
        return out
    if m == 'ok':
        return [(s, some(p) if var == 'Ok' else NONE) for s, var, p in sp()]
    if m == 'err':
        return [(s, some(p) if var == 'Err' else NONE) for s, var, p in sp()]
    if m == 'unwrap_or':
        return [(s, p if var == 'Ok' else args[1]) for s, var, p in sp()]
    if m == 'unwrap_or_default':
        for s, var, p in sp():
            d = p if var == 'Ok' else default_of(I, s, dty)
            out.append((s, d if d is not None else ('o', 'default ' + (dty or ''))))
        return out
    if m == 'unwrap_or_else':
        for s, var, p in sp():
            if var == 'Ok':
                out.append((s, p))
            else:
                out += callf(I, s, args[1], [p], dty)
        return out
    if m in ('map', 'and_then', 'inspect'):
        for s, var, p in sp():
            if var == 'Err':
                out.append((s, err(p)))
            else:
                for s2, y in callf(I, s, args[1], [p]):
                    out.append((s2, ok(y) if m == 'map' else y if m == 'and_then' else ok(p)))
        return out
    if m in ('map_err', 'or_else', 'inspect_err'):
        for s, var, p in sp():
            if var == 'Ok':
                out.append((s, ok(p)))
            else:
                for s2, y in callf(I, s, args[1], [p]):
                    out.append((s2, err(y) if m == 'map_err' else y if m == 'or_else' else err(p)))
        return out
    if m == 'and':
        return [(s, args[1] if var == 'Ok' else err(p)) for s, var, p in sp()]
    if m == 'or':
        return [(s, ok(p) if var == 'Ok' else args[1]) for s, var, p in sp()]
    if m in ('map_or', 'map_or_else'):
        for s, var, p in sp():
            if var == 'Err':
                if m == 'map_or':
                    out.append((s, args[1]))
                else:
                    out += callf(I, s, args[1], [p], dty)
            else:
                out += callf(I, s, args[2], [p], dty)
        return out
    if m in ('is_ok_and', 'is_err_and'):
        for s, var, p in sp():
            if (var == 'Ok') == (m == 'is_ok_and'):
                out += callf(I, s, args[1], [p], 'bool')
            else:
                out.append((s, FALSE))
        return out
    if m == 'transpose':
        for s, var, p in sp():
            if var == 'Err':
                out.append((s, some(err(p))))
            else:
                for s2, v2, p2 in split_opt(I, s, p):
                    out.append((s2, NONE if v2 == 'None' else some(ok(p2))))
        return out
    if m in ('iter', 'into_iter'):
        return [(s, ('it', 'lst', () if var == 'Err' else (p,), 0)) for s, var, p in sp()]
    return None


def int_method(I, st, ty, m, args, dty, fn):
    lo, hi = INT.get(ty, (NEG, POS))
    if ty in ('f64', 'f32'):
        x = I.nval(st, args[0])
        if m == 'is_nan':
            return [(st, FALSE)]
        if m == 'is_finite':
            return [(st, TRUE)]
        if m == 'abs':
            out = []
            for s, o in cmp_lex(I, st, x, num(0)):
                out.append((s, ('n', -x[1], tuple((a, -c) for a, c in x[2])) if o == 'Less' else x))
            return out
        if m in ('max', 'min', 'clamp'):
            return None
        return pure(I, st, 'f64::' + m, args, dty)
    if m.startswith(('checked_', 'saturating_', 'wrapping_', 'overflowing_')):
        kind, op = m.split('_', 1)
        OPS = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem'}
        if op in OPS and len(args) == 2:
            x, y = I.nval(st, args[0], ty), I.nval(st, args[1], ty)
            if op in ('div', 'rem'):
                out = []
                for s, tv in I.split_b2(st, I.cmpv(st, 'Eq', y, num(0))):
                    if tv:
                        if kind == 'checked':
                            out.append((s, NONE))
                        else:
                            I.panic(s, fn or I.stack[-1], 'division by zero')
                    else:
                        v = I.binop(s, OPS[op], x, y, ty)
                        out.append((s, some(v) if kind == 'checked' else v))
                return out
            v = I.binop(st, OPS[op] + 'WithOverflow', x, y, ty)
            if v[0] != 't':
                return None
            res, over = v[1]
            if kind == 'wrapping':
                return [(st, I.wrap(st, res, ty))]
            out = []
            for s, tv in I.split_b2(st, over):
                if not tv:
                    out.append((s, some(res) if kind == 'checked' else res if kind == 'saturating' else ('t', (res, FALSE))))
                elif kind == 'checked':
                    out.append((s, NONE))
                elif kind == 'overflowing':
                    out.append((s, ('t', (I.wrap(s, res, ty), TRUE))))
                else:
                    r = I.range_of(s, res)
                    if op == 'sub' and lo == 0:
                        out.append((s, num(lo)))
                    elif op in ('add', 'mul') and lo == 0:
                        out.append((s, num(hi)))
                    else:
                        for s2, t2 in I.split_b2(s, I.cmpv(s, 'Gt', res, num(hi))):
                            out.append((s2, num(hi if t2 else lo)))
            return out
        return None
    if m in ('to_be_bytes', 'to_le_bytes'):
        n = {'8': 1, '16': 2, '32': 4, '64': 8, '128': 16, 'size': 8}[ty[1:]]
        x = I.nval(st, args[0], ty)
        if not x[2]:
            b = (x[1] & ((1 << (8 * n)) - 1)).to_bytes(n, 'big' if 'be' in m else 'little')
            return [(st, ('v', (('k', b),)))]
        return [(st, ('v', (('be' if 'be' in m else 'le', x, n),)))]
    if m in ('from_be_bytes', 'from_le_bytes'):
        segs = I.segs_of(st, args[0])
        n = {'8': 1, '16': 2, '32': 4, '64': 8, '128': 16, 'size': 8}[ty[1:]]
        if len(segs) == 1 and segs[0][0] == m[5:7] and segs[0][2] == n:
            return [(st, segs[0][1])]
        if all(s[0] == 'k' for s in segs):
            return [(st, num(int.from_bytes(b''.join(s[1] for s in segs), 'big' if 'be' in m else 'little', signed=lo < 0)))]
        x = run_of(segs)
        return [(st, I.sym('%s(%s)' % (m, x or I.term(st, args[0])), ((lo, hi),), unk_val(I, st, args[0])))]
    if m == 'signum':
        x = I.nval(st, args[0], ty)
        return [(s, num({'Less': -1, 'Equal': 0, 'Greater': 1}[o])) for s, o in cmp_lex(I, st, x, num(0))]
    if m in ('abs', 'unsigned_abs', 'abs_diff'):
        x = I.nval(st, args[0], ty)
        if m == 'abs_diff':
            x = lin_add(x, I.nval(st, args[1], ty), -1)
        out = []
        for s, tv in I.split_b2(st, I.cmpv(st, 'Lt', x, num(0))):
            out.append((s, ('n', -x[1], tuple((a, -c) for a, c in x[2])) if tv else x))
        return out
    if m in ('min', 'max'):
        out = []
        for s, o in cmp_lex(I, st, args[0], args[1]):
            out.append((s, args[1] if (o != 'Greater') == (m == 'max') else args[0]))
        return out
    if m == 'is_ascii_digit' or m.startswith('is_ascii'):
        return pure(I, st, m, args, 'bool')
    if m in ('pow',):
        x, y = I.nval(st, args[0], ty), I.nval(st, args[1])
        if not x[2] and not y[2]:
            return [(st, num(x[1] ** y[1]))]
    if m in ('div_ceil', 'next_multiple_of', 'pow', 'count_ones', 'leading_zeros', 'trailing_zeros', 'rotate_left', 'swap_bytes', 'is_power_of_two', 'rem_euclid', 'div_euclid', 'isqrt'):
        x = I.nval(st, args[0], ty)
        if len(args) == 2:
            y = I.nval(st, args[1], ty)
            if not x[2] and not y[2] and y[1]:
                if m == 'div_ceil':
                    return [(st, num(-(-x[1] // y[1])))]
                if m == 'rem_euclid':
                    return [(st, num(x[1] % abs(y[1])))]
            if m == 'rem_euclid' and lo == 0:
                return [(st, I.binop(st, 'Rem', x, y, ty))]
        return pure(I, st, m, args, dty)
    return None


def coll_method(I, st, f, tr, m, args, dty, fn):
    a0 = args[0] if args else None
    if m in ('index', 'index_mut') and len(args) == 2:
        v = I.strip(st, a0)
        if m == 'index_mut' and a0[0] == 'r':
            ref = cell_of(I, st, a0)
            ix = I.strip(st, args[1])
            if ix[0] == 'n' and v[0] in ('l',):
                return [(s, ('r', ref[1], ref[2] + (('i', ix),))) for s in panic_if(I, st, I.cmpv(st, 'Ge', ix, I.len_of(st, v)), fn, 'index out of bounds')]
            if ix[0] == 'a' and v[0] in ('l', 'v'):
                b = range_bounds(I, st, ix, I.len_of(st, v))
                if b:
                    lo, hi = b
                    sts = panic_if(I, st, I.cmpv(st, 'Gt', lo, hi), fn, 'slice index starts after end')
                    sts = [s2 for s in sts for s2 in panic_if(I, s, I.cmpv(s, 'Gt', hi, I.len_of(s, v)), fn, 'slice index out of range')]
                    return [(s, ('r', ref[1], ref[2] + (('sl', lo, hi),))) for s in sts]
        return index_model(I, st, args, fn)
    v = I.strip(st, a0) if a0 is not None else None
    if tr in ('RangeInclusive', 'Range', 'RangeBounds'):
        if m == 'new':
            return [(st, ('a', 'std::ops::RangeInclusive', 'RangeInclusive', ('start', 'end'), (args[0], args[1])))]
        if m == 'contains' and v[0] == 'a':
            x = I.nval(st, args[1])
            lo, hi = I.nval(st, v[4][0]), I.nval(st, v[4][1])
            c1 = I.cmpv(st, 'Ge', x, lo)
            c2 = I.cmpv(st, 'Le' if v[1].endswith('Inclusive') else 'Lt', x, hi)
            return [(st, b_and(c1, c2))]
        if m == 'is_empty':
            return None
        if m in ('start', 'end') and v[0] == 'a':
            return [(st, v[4][0 if m == 'start' else 1])]
        return None
    if m in ('push', 'push_back', 'extend', 'extend_from_slice', 'push_str', 'append', 'put_u8', 'put_slice', 'put_u32', 'put_u64', 'write_all', 'write_str', 'write_char', 'put') and len(args) >= 2:
        ref = cell_of(I, st, a0)
        x = args[1]
        if m == 'extend' and any((g or '').startswith(OPT) for g in f.get('a') or () if isinstance(g, str)):
            xv = I.strip(st, x)
            if xv[0] == 'o':
                out = []
                for s, vn, pv in split_opt(I, st, xv):
                    out += coll_method(I, s, f, tr, m, [a0, ('l', () if vn == 'None' else (pv,))], dty, fn) or []
                return out
            if xv[0] == 'a' and xv[2] in ('None', 'Some'):
                x = ('l', tuple(xv[4][:1]) if xv[2] == 'Some' else ())
        nv = None
        single = m in ('push', 'push_back')
        isb = bytes_vec(f, m)
        if v == ('v', ()) and single and not isb and tr != 'String' and f.get('a'):
            v = ('l', ())
        if tr == 'String' or (v[0] == 's'):
            sa = v
            ta, tb = as_str_const(I, st, v), as_str_const(I, st, x)
            xv = I.strip(st, x)
            if ta is not None and tb is not None and xv[0] in ('s', 'v'):
                nv = ('s', ta + tb)
            elif ta is not None and single and xv[0] == 'n' and not xv[2]:
                nv = ('s', ta + chr(xv[1]))
            elif m == 'push_str' and v[0] in ('s', 'o') and xv[0] in ('s', 'o'):
                nv = text_cat(I, st, [v, xv])
            elif m == 'push' and v[0] == 'o' and xv[0] == 'n' and not xv[2]:
                nv = text_cat(I, st, [v, ('s', chr(xv[1]))])
            else:
                segs = list(I.segs_of(st, v))
                for g in ((('be', xv, 1),) if single and xv[0] == 'n' else I.segs_of(st, x)):
                    segs = I.seg_push(segs, g)
                nv = ('v', tuple(segs))
        elif v[0] == 'v' or (v[0] in ('l', 'o') and isb and not (v[0] == 'o' and '?' in v[1])):
            if v[0] != 'v':
                v = ('v', I.segs_of(st, v))
            xv = I.strip(st, x)
            if m == 'put_u32':
                add = (('be', I.nval(st, x, 'u32'), 4),)
            elif m == 'put_u64':
                add = (('be', I.nval(st, x, 'u64'), 8),)
            elif single or m == 'put_u8':
                b = I.nval(st, x, 'u8')
                add = (('k', bytes([b[1] & 255])),) if not b[2] else (('be', b, 1),)
            elif xv[0] == 'it':
                add = None
                r = collect(I, st, xv, 'std::vec::Vec<u8>')
                if len(r) == 1:
                    st = r[0][0]
                    add = I.segs_of(st, r[0][1])
                else:
                    add = (('p', 'iter(%s)' % it_term(I, st, xv)),)
            else:
                add = I.segs_of(st, x)
            segs = list(v[1])
            total = len(segs)
            for g in add:
                segs = I.seg_push(segs, g)
            if len(segs) > 40:
                nv = ('o', 'bytes(%s…)' % I.seg_str(segs[0]))
            else:
                nv = ('v', tuple(segs))
        elif v[0] == 'l':
            if single:
                items = (x if x[0] != 'r' or True else x,)
                items = (own(I, st, x),)
            else:
                it = to_iter(I, st, x)
                if finite(it) or it[1] == 'flat' and it[3] is None and finite(it[2]):
                    r = collect(I, st, it, 'std::vec::Vec<?>')
                    out = []
                    for s, y in r:
                        y = I.strip(s, y)
                        nl = ('l', v[1] + y[1]) if y[0] == 'l' else ('o', 'list(%s ++ %s)' % (I.term(s, v), y[1][5:-1])) if y[0] == 'o' and y[1].startswith('list(') else ('o', 'extended(%s)' % I.term(s, v))
                        out.append((store_ref(I, s, ref, nl), UNIT))
                    return out
                items = None
                nv = ('o', 'list(%s ++ %s)' % (I.term(st, v), it_term(I, st, it)))
            if items is not None:
                t = I.term(st, items[0])
                if '?' in t and len(v[1]) >= 1 and any('?' in I.term(st, y) for y in v[1]):
                    # repeated generic element: the list is "some of these, any number of times"
                    nv = ('o', 'list(%s…)' % I.term(st, v[1][0]))
                elif len(v[1]) > 40:
                    nv = ('o', 'list(%s…)' % I.term(st, v[1][0]))
                else:
                    nv = ('l', v[1] + items)
        elif v[0] == 'o':
            t = v[1]
            if t.startswith('list('):
                # a list of known parts grows by one part; a repeated generic element stays "some of these"
                if '?' in t or '…' in t or len(t) > 6000:
                    nv = v
                else:
                    y = '[%s]' % I.term(st, x) if single else it_term(I, st, to_iter(I, st, x))
                    nv = v if '?' in y else ('o', '%s ++ %s)' % (t[:-1], y))
            else:
                base = t
                nm = 'pushed(%s,%s)' % (base, I.term(st, x))
                if base.startswith('pushed(') and ('?' in nm or len(nm) > 6000):
                    nv = v
                else:
                    nv = ('o', nm)
                    if single:
                        L1, L0 = I.len_of(st, nv), I.len_of(st, v)
                        s2 = I.restrict(st, lin_add(L1, L0, -1)[2], ((1, 1),))
                        st = s2 if s2 is not None else st
        if nv is None:
            nv = ('o', 'pushed(%s,%s)' % (I.term(st, v)[:60], I.term(st, x)[:60]))
        return [(store_ref(I, st, ref, nv), ok(UNIT) if m.startswith('write') else UNIT)]
    if m == 'insert' and tr in ('Vec', 'VecDeque') and len(args) == 3:
        ref = cell_of(I, st, a0)
        ix = I.nval(st, args[1])
        if not ix[2] and v == ('v', ()) and not bytes_vec(f, 'push'):
            v = ('l', ())
        if not ix[2] and v[0] == 'l' and ix[1] <= len(v[1]):
            return [(store_ref(I, st, ref, ('l', v[1][:ix[1]] + (own(I, st, args[2]),) + v[1][ix[1]:])), UNIT)]
        if v[0] == 'v' and not ix[2] and ix[1] == 0:
            b = I.nval(st, args[2], 'u8')
            segs = []
            for g in ((('k', bytes([b[1] & 255])) if not b[2] else ('be', b, 1)),) + tuple(v[1]):
                segs = I.seg_push(segs, g)
            return [(store_ref(I, st, ref, ('v', tuple(segs))), UNIT)]
        return None
    if m in ('chunks', 'chunks_exact') and v is not None and v[0] == 'l' and len(args) == 2:
        n = I.nval(st, args[1])
        if not n[2] and n[1] > 0:
            cs = [v[1][i:i + n[1]] for i in range(0, len(v[1]), n[1])]
            if m == 'chunks_exact':
                cs = [c for c in cs if len(c) == n[1]]
            return [(st, ('it', 'lst', tuple(('l', c) for c in cs), 0))]
    if m in ('insert',) and tr in ('HashMap', 'BTreeMap', 'Map') and len(args) == 3:
        ref = cell_of(I, st, a0)
        if v[0] == 'm':
            k = I.strip(st, args[1])
            ks = k[1] if k[0] == 's' else I.term(st, k)
            kv = tuple((a, b) for a, b in v[1] if a != ks) + ((ks, own(I, st, args[2])),)
            if len(kv) > 60 or ('?' in ks and any('?' in a for a, _ in v[1])):
                return [(store_ref(I, st, ref, ('o', 'map(%s…)' % v[1][0][0])), ('o', 'insert-result'))]
            return [(store_ref(I, st, ref, ('m', kv)), NONE)]
        return [(store_ref(I, st, ref, ('o', 'map+')), ('o', 'insert-result'))]
    if m in ('values', 'into_values') and v is not None and v[0] == 'm' and len(v[1]) <= 1:
        return [(st, ('it', 'lst', tuple(y for _, y in v[1]), 0))]
    if m in ('get', 'contains_key', 'get_mut', 'remove') and v is not None and v[0] == 'm':
        k = I.strip(st, args[1])
        out = []
        states = [st]
        for a, b in v[1]:
            nxt = []
            for s in states:
                kk = ('s', a)
                e = eqv(I, s, kk, k) if k[0] == 's' else (TRUE if I.term(s, k) == a else eqv(I, s, ('o', a), k))
                for s2, tv in I.split_b2(s, e):
                    if tv:
                        out.append((s2, TRUE if m == 'contains_key' else some(b)))
                    else:
                        nxt.append(s2)
            states = nxt
        return out + [(s, FALSE if m == 'contains_key' else NONE) for s in states]
    if m == 'insert' and tr in ('HashSet', 'BTreeSet') and len(args) == 2:
        ref = cell_of(I, st, a0)
        if v[0] == 'l':
            out = []
            for s, tv in contains(I, st, v, args[1]):
                if tv:
                    out.append((s, FALSE))
                else:
                    out.append((store_ref(I, s, ref, ('l', v[1] + (own(I, s, args[1]),)) if len(v[1]) < 12 and not any('?' in I.term(s, y) for y in v[1]) else ('o', 'set(%s…)' % I.term(s, v[1][0]))), TRUE))
            return out
        t = I.term(st, args[1])
        return [(store_ref(I, st, ref, v if v[0] == 'o' else ('o', 'set+')), atom(I, st, 'fresh(%s)' % t, None if False else 'set insert'))]
    if m == 'contains' and len(args) == 2:
        x = I.strip(st, args[1])
        if tr in ('str', 'String') or (dty == 'bool' and tr == 'str'):
            a, b = as_str_const(I, st, v), pat_const(I, st, args[1])
            if a is not None and b is not None:
                return [(st, TRUE if b in a else FALSE)]
            return pure(I, st, 'contains', args, 'bool')
        if v[0] in ('l', 'v'):
            return merge_out(I, [(s, TRUE if tv else FALSE) for s, tv in contains(I, st, v, args[1])])
        if v[0] == 'o' and tr in ('slice', 'Vec', 'array', 'VecDeque'):
            n = rs_const(I.rng(st, (('len(%s)' % v[1], 1),)))
            if n is not None and 0 < n <= 4 and (('in(%s,%s)' % (I.term(st, x), v[1]), 1),) not in I.spec.cell and any(t.startswith(v[1] + '[0]') or 'eq(%s[0]' % v[1] in t or ',%s[0])' % v[1] in t for key in I.spec.cell for t, _ in key):
                return merge_out(I, [(s, TRUE if tv else FALSE) for s, tv in contains(I, st, ('l', tuple(('o', '%s[%d]' % (v[1], i)) for i in range(n))), args[1])])
            return [(st, atom(I, st, 'in(%s,%s)' % (I.term(st, x), v[1]), unk_val(I, st, x, v)))]
        return [(st, atom(I, st, 'in(%s,%s)' % (I.term(st, x), I.term(st, v)), unk_val(I, st, x, v)))]
    if m in ('iter', 'into_iter', 'iter_mut', 'drain', 'chars_', 'bytes'):
        if m == 'bytes' and v[0] == 'o':
            return [(st, sym_iter(I, st, v[1]))]
        return [(st, to_iter(I, st, v))]
    if m == 'windows' and v[0] == 'o':
        n = I.nval(st, args[1])
        if n == num(2):
            return [(st, ('it', 'win', v[1], 'f', group_of(I, v[1])))]
    if m == 'windows' and v[0] == 'l':
        n = I.nval(st, args[1])
        if not n[2]:
            return [(st, ('it', 'lst', tuple(('l', v[1][i:i + n[1]]) for i in range(len(v[1]) - n[1] + 1)), 0))]
    if m in ('is_sorted',):
        if v[0] == 'l':
            r = TRUE
            for x, y in zip(v[1], v[1][1:]):
                r = b_and(r, I.cmpv(st, 'Le', I.nval(st, x), I.nval(st, y)))
            return [(st, r)]
        return [(st, atom(I, st, 'sorted(%s)' % I.term(st, v)))]
    if m in ('first', 'last', 'get', 'get_mut', 'first_mut', 'last_mut', 'front', 'back') and tr in ('slice', 'Vec', 'VecDeque', 'array', 'str', 'String'):
        n = I.len_of(st, v)
        if m.startswith(('first', 'front')):
            ix = num(0)
        elif m.startswith(('last', 'back')):
            ix = lin_add(n, num(1), -1)
        else:
            ixv = I.strip(st, args[1])
            if ixv[0] == 'a':
                nm = ixv[1].rsplit('::', 1)[-1]
                lo = num(0)
                hi = n
                if nm in ('Range', 'RangeFrom'):
                    lo = I.nval(st, ixv[4][0])
                if nm == 'Range':
                    hi = I.nval(st, ixv[4][1])
                if nm == 'RangeTo':
                    hi = I.nval(st, ixv[4][0])
                if nm in ('Range', 'RangeFrom', 'RangeTo'):
                    out = []
                    for s, tv in I.split_b2(st, b_and(I.cmpv(st, 'Le', lo, hi), I.cmpv(st, 'Le', hi, n))):
                        out.append((s, some(('cr', slice_val(I, s, v, lo, hi, n))) if tv else NONE))
                    return out
                return None
            ix = I.nval(st, ixv, 'usize')
        out = []
        for s, tv in I.split_b2(st, I.cmpv(st, 'Lt', ix, n) if not m.startswith(('last', 'back')) else I.cmpv(st, 'Gt', n, num(0))):
            if tv:
                x = I.project(s, v, ('i', ix))
                out.append((s, some(x if x[0] == 'o' else ('cr', x))))
            else:
                out.append((s, NONE))
        return out
    if m in ('pop', 'pop_front', 'pop_back'):
        ref = cell_of(I, st, a0)
        if v[0] == 'l':
            if not v[1]:
                return [(st, NONE)]
            if m == 'pop_front':
                return [(store_ref(I, st, ref, ('l', v[1][1:])), some(v[1][0]))]
            return [(store_ref(I, st, ref, ('l', v[1][:-1])), some(v[1][-1]))]
    if m in ('clear', 'truncate', 'reserve', 'shrink_to_fit', 'sort', 'sort_by', 'sort_unstable', 'sort_by_key', 'dedup', 'reverse', 'retain', 'resize', 'fill', 'sort_unstable_by', 'sort_unstable_by_key', 'copy_from_slice', 'clone_from_slice', 'swap', 'swap_remove', 'rotate_left'):
        if m in ('reserve', 'shrink_to_fit'):
            return [(st, UNIT)]
        ref = cell_of(I, st, a0)
        if m == 'clear':
            return [(store_ref(I, st, ref, ('v', ()) if v[0] == 'v' else ('m', ()) if v[0] == 'm' else ('l', ())), UNIT)]
        if m in ('copy_from_slice', 'clone_from_slice'):
            x = I.strip(st, args[1])
            if a0[0] == 'cr':
                return [(st, UNIT)]
            return [(store_ref(I, st, ref, x), UNIT)]
        if m == 'resize' and (v[0] == 'v' or v[0] == 'o' and bytes_vec(f, 'push')):
            n = I.nval(st, args[1])
            z = I.nval(st, args[2])
            L = I.len_of(st, v)
            if L[2]:
                c = rs_const(I.range_of(st, L))
                if c is not None:
                    L = num(c)
            if v[0] == 'o' and not L[2]:
                v = ('v', I.segs_of(st, v))
            if v[0] == 'v' and not n[2] and not L[2] and not z[2] and n[1] >= L[1]:
                segs = I.seg_push(v[1], ('k', bytes([z[1]]) * (n[1] - L[1])))
                return [(store_ref(I, st, ref, ('v', tuple(segs))), UNIT)]
        if v[0] == 'o' and not v[1].startswith('pushed(') and (m.startswith('sort') or m in ('retain', 'dedup', 'reverse')) and not bytes_vec(f, m):
            c = rs_const(I.range_of(st, I.len_of(st, v)))
            if c is not None and c <= 4:
                v = ('l', tuple(I.project(st, v, ('i', num(i))) for i in range(c)))
        if m == 'reverse' and v[0] == 'l':
            return [(store_ref(I, st, ref, ('l', v[1][::-1])), UNIT)]
        if m.startswith('sort') and v[0] == 'l' and len(v[1]) <= 1:
            return [(store_ref(I, st, ref, v), UNIT)]
        if m.startswith('sort') and v[0] == 'l' and len(v[1]) <= 4:
            r = sort_list(I, st, m, v, args)
            if r is not None:
                return [(store_ref(I, s, ref, nl), UNIT) for s, nl in r]
        if m == 'retain' and v[0] == 'l' and len(v[1]) <= 8:
            out, states = [], [(st, ())]
            for x in v[1]:
                nxt = []
                for s, kept in states:
                    for s2, b in callf(I, s, args[1], [('cr', x) if x[0] not in ('cr', 'o') else x], 'bool'):
                        for s3, tv in I.split_b2(s2, b):
                            nxt.append((s3, kept + (x,) if tv else kept))
                states = nxt
            return [(store_ref(I, s, ref, ('l', k)), UNIT) for s, k in states]
        if m == 'dedup' and v[0] == 'l' and len(v[1]) <= 6:
            states = [(st, ())]
            for x in v[1]:
                nxt = []
                for s, kept in states:
                    if not kept:
                        nxt.append((s, (x,)))
                        continue
                    for s2, tv in I.split_b2(s, eqv(I, s, kept[-1], x)):
                        nxt.append((s2, kept if tv else kept + (x,)))
                states = nxt
            return [(store_ref(I, s, ref, ('l', k)), UNIT) for s, k in states]
        nm = '%s(%s)' % ('sorted' if m.startswith('sort') else m, ', '.join(I.term(st, a) for a in args))
        nv = ('o', nm)
        s2 = store_ref(I, st, ref, nv)
        if m.startswith('sort') or m in ('reverse', 'swap', 'rotate_left'):
            L1, L0 = I.len_of(s2, nv), I.len_of(st, v)
            d = lin_add(L1, L0, -1)
            if d[2]:
                s3 = I.restrict(s2, d[2], ((-d[1], -d[1]),))
                s2 = s3 if s3 is not None else s2
        else:
            I.unkpaths.setdefault(nm, m)
        return [(s2, UNIT)]
    if m in ('starts_with', 'ends_with') and len(args) == 2:
        a, b = as_str_const(I, st, v), pat_const(I, st, args[1])
        if a is not None and b is not None:
            return [(st, TRUE if (a.startswith(b) if m == 'starts_with' else a.endswith(b)) else FALSE)]
        if v[0] == 'v' and m == 'starts_with' and b is not None and v[1] and v[1][0][0] == 'k' and len(v[1][0][1]) >= len(b.encode()):
            return [(st, TRUE if v[1][0][1].startswith(b.encode()) else FALSE)]
        if b is not None and tr in ('str', 'String'):
            return [(st, affix(I, st, m, v, b))]
        cp = const_bytes_of(I, st, args[1])
        if m == 'starts_with' and cp and v[0] == 'o':
            L, out = I.len_of(st, v), []
            for s in I.assume(st, I.cmpv(st, 'Ge', L, num(len(cp))), True):
                out.append((s, eqv(I, s, slice_val(I, s, v, num(0), num(len(cp)), L), ('v', (('k', cp),)))))
            return out + [(s, FALSE) for s in I.assume(st, I.cmpv(st, 'Ge', L, num(len(cp))), False)]
        return pure(I, st, m, args, 'bool')
    if m in ('strip_prefix', 'strip_suffix') and len(args) == 2:
        a, b = as_str_const(I, st, v), pat_const(I, st, args[1])
        w = 'starts_with' if m == 'strip_prefix' else 'ends_with'
        if a is not None and b is not None:
            if a.startswith(b) if m == 'strip_prefix' else a.endswith(b):
                return [(st, some(('s', a[len(b):] if m == 'strip_prefix' else a[:len(a) - len(b)])))]
            return [(st, NONE)]
        if b is None:
            return pure(I, st, m, args, dty)
        out = []
        for s, tv in I.split_b2(st, affix(I, st, w, v, b)):
            if not tv:
                out.append((s, NONE))
                continue
            r = stripped(I, s, m, v, b)
            if r:
                out.append((r[0], some(r[1])))
        return out
    if m in ('split', 'splitn', 'rsplit', 'split_terminator') and tr == 'str':
        c, pc = as_str_const(I, st, v), pat_const(I, st, args[-1])
        if c is not None and pc and m in ('split', 'rsplit'):
            xs = c.split(pc)
            return [(st, ('it', 'lst', tuple(('s', x) for x in (xs if m == 'split' else xs[::-1])), 0))]
        return [(st, split_iter(I, st, '%s(%s)' % (m, ', '.join(pat_term(I, st, a) for a in args))))]
    if m in ('find', 'rfind') and len(args) == 2 and (dty or '').startswith(OPT + '<usize') and I.strip(st, args[1])[0] in ('n', 's', 'o'):
        t, p = I.term(st, a0), I.term(st, args[1])
        path = '%s(%s, %s)' % (m, t, p)
        u = unk_val(I, st, a0)
        at = atom(I, st, 'has_' + path, u)
        out = []
        for s, tv in I.split_b2(st, at):
            if not tv:
                out.append((s, ('a', OPT, 'None', (), ())))
                continue
            k = I.sym(path, ((0, 2 ** 40),), u)
            L = I.len_of(s, I.strip(s, a0))
            d = lin_add(k, L, -1)
            if d[2]:
                nk, fc = norm_key(d[2])
                s = I.restrict(s, d[2], ((NEG, -1 - d[1]),))
                if s is None:
                    continue
            out.append((s, ('a', OPT, 'Some', ('0',), (k,))))
        return out
    if m in ('split_at', 'split_at_mut', 'split_first', 'split_last') and tr != 'str' and 'str::' not in (f.get('ip') or '')[:16]:
        n = I.len_of(st, v)
        if m in ('split_first', 'split_last'):
            out = []
            for s in I.assume(st, I.cmpv(st, 'Eq', n, num(0)), True):
                out.append((s, NONE))
            for s in I.assume(st, I.cmpv(st, 'Eq', n, num(0)), False):
                last = lin_add(n, num(-1))
                a, b = (I.project(s, v, ('i', num(0))), slice_val(I, s, v, num(1), n, n)) if m == 'split_first' else (I.project(s, v, ('i', last)), slice_val(I, s, v, num(0), last, n))
                out.append((s, some(('t', (('cr', a), ('cr', b))))))
            return out
        mid = I.nval(st, args[1])
        sts = panic_if(I, st, I.cmpv(st, 'Gt', mid, n), fn, 'split index out of range')
        if m == 'split_at':
            return [(s, ('t', (('cr', slice_val(I, s, v, num(0), mid, n)), ('cr', slice_val(I, s, v, mid, n, n))))) for s in sts]
        if a0[0] == 'r' and v[0] in ('l', 'v'):
            ref = cell_of(I, st, a0)
            return [(s, ('t', tuple(('r', ref[1], ref[2] + (('sl', a, b),)) for a, b in ((num(0), mid), (mid, n))))) for s in sts]
    if m in ('split_once', 'rsplit_once') and tr == 'str':
        c, pc = as_str_const(I, st, v), pat_const(I, st, args[-1])
        if c is not None and pc:
            if pc not in c:
                return [(st, NONE)]
            x, _, y = c.partition(pc) if m == 'split_once' else c.rpartition(pc)
            return [(st, some(('t', (('s', x), ('s', y)))))]
        p = I.strip(st, args[-1])
        pl = 1 if p[0] == 'n' and p[1] < 128 and not p[2] else len(p[1].encode()) if p[0] == 's' else None
        if pl and c is None and v is not None:
            path = '%s(%s, %s)' % ('find' if m == 'split_once' else 'rfind', I.term(st, a0), I.term(st, args[-1]))
            u = unk_val(I, st, a0)
            out = []
            for s, tv in I.split_b2(st, atom(I, st, 'has_' + path, u)):
                if not tv:
                    out.append((s, NONE))
                    continue
                k = I.sym(path, ((0, 2 ** 40),), u)
                n = I.len_of(s, v)
                d = lin_add(k, n, -1)
                if d[2]:
                    s = I.restrict(s, d[2], ((NEG, -pl - d[1]),))
                    if s is None:
                        continue
                out.append((s, some(('t', (('cr', slice_val(I, s, v, num(0), k, n)), ('cr', slice_val(I, s, v, lin_add(k, num(pl)), n, n)))))))
            return out
    if m in ('split_once', 'rsplit_once', 'split_at', 'char_indices', 'chars', 'trim', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'parse', 'find', 'rfind', 'is_ascii', 'replace', 'concat', 'join', 'repeat', 'is_char_boundary', 'trim_end_matches', 'trim_start_matches', 'split_first', 'split_last', 'chunks', 'chunks_exact', 'binary_search', 'binary_search_by', 'partition_point', 'lines', 'split_whitespace', 'bytes', 'eq_ignore_ascii_case', 'get_unchecked', 'trim_matches', 'trim_start', 'trim_end'):
        if m == 'repeat' or m == 'concat':
            pass
        c = as_str_const(I, st, v) if v is not None else None
        if c is not None and m in ('trim', 'to_lowercase', 'to_uppercase'):
            return [(st, ('s', {'trim': c.strip(), 'to_lowercase': c.lower(), 'to_uppercase': c.upper()}[m]))]
        if m == 'concat' and v[0] == 'l':
            segs = []
            for x in v[1]:
                for g in I.segs_of(st, x):
                    segs = I.seg_push(segs, g)
            return [(st, ('v', tuple(segs)))]
        return pure(I, st, m, args, dty)
    if m in ('unwrap_or_clone',):
        return [(st, v)]
    return None


def sort_list(I, st, m, v, args):
    """insertion sort of a short list, one state per ordering of its elements (stable)"""
    def cmpf(s, x, y):
        if m in ('sort', 'sort_unstable'):
            return cmp_lex(I, s, x, y)
        if m in ('sort_by', 'sort_unstable_by'):
            out = []
            for s2, o in callf(I, s, args[1], [x if x[0] in ('cr', 'o') else ('cr', x), y if y[0] in ('cr', 'o') else ('cr', y)], 'std::cmp::Ordering'):
                d = I.discr(s2, o, 'std::cmp::Ordering')
                for s3, n, _ in I.three_way(s2, d, num(0)):
                    out.append((s3, n))
            return out
        out = []
        for s2, kx in callf(I, s, args[1], [x if x[0] in ('cr', 'o') else ('cr', x)]):
            for s3, ky in callf(I, s2, args[1], [y if y[0] in ('cr', 'o') else ('cr', y)]):
                out += cmp_lex(I, s3, kx, ky)
        return out
    states = [(st, ())]
    for x in v[1]:
        nxt = []

        def place(s, done, i):
            # done is sorted; insert x before the first element greater than it, scanning from the right
            if i == 0:
                nxt.append((s, (x,) + done))
                return
            for s2, o in cmpf(s, done[i - 1], x):
                if o == 'Greater':
                    if i - 1 == 0:
                        nxt.append((s2, (x,) + done))
                    else:
                        place(s2, done, i - 1)
                else:
                    nxt.append((s2, done[:i] + (x,) + done[i:]))
        for s, done in states:
            place(s, done, len(done))
        states = nxt
        if len(states) > 64:
            return None
    return [(s, ('l', d)) for s, d in states]


def bytes_vec(f, m):
    """the container is, by its type, a byte string"""
    a = f.get('a') or []
    t = a[0] if a else ''
    return t == 'u8' or (m not in ('push', 'push_back', 'extend_from_slice', 'append') and t.startswith(('std::vec::Vec<u8', 'bytes::BytesMut')))


def range_bounds(I, st, r, n):
    nm = r[1].rsplit('::', 1)[-1]
    if nm == 'Range':
        return I.nval(st, r[4][0]), I.nval(st, r[4][1])
    if nm == 'RangeInclusive':
        return I.nval(st, r[4][0]), lin_add(I.nval(st, r[4][1]), num(1))
    if nm == 'RangeFrom':
        return I.nval(st, r[4][0]), n
    if nm == 'RangeTo':
        return num(0), I.nval(st, r[4][0])
    if nm == 'RangeToInclusive':
        return num(0), lin_add(I.nval(st, r[4][0]), num(1))
    if nm == 'RangeFull':
        return num(0), n
    return None


def own(I, st, v):
    """value to keep in a container (references to locals are followed once)"""
    if v[0] == 'r':
        x = I.strip(st, v)
        return ('cr', x) if x[0] not in ('o',) else x
    return v


def contains(I, st, v, x):
    out = []
    states = [st]
    items = v[1] if v[0] == 'l' else to_iter(I, st, v)[2]
    for y in items:
        nxt = []
        for s in states:
            for s2, tv in I.split_b2(s, eqv(I, s, y, x)):
                if tv:
                    out.append((s2, True))
                else:
                    nxt.append(s2)
        states = nxt
    return out + [(s, False) for s in states]


def iter_method(I, st, m, args, dty, fn):
    a0 = args[0]
    if m == 'into_iter':
        v = I.strip(st, a0)
        if v[0] == 'o' and strip_generics(dty or '').startswith('std::option'):
            return [(s, ('it', 'lst', () if var == 'None' else (p,), 0)) for s, var, p in split_opt(I, st, v)]
        return [(st, to_iter(I, st, v))]
    if m in ('from_iter', 'collect_vec'):
        return collect(I, st, to_iter(I, st, a0), dty)
    v = I.strip(st, a0)
    if v[0] != 'it':
        v = to_iter(I, st, v)
    ref = cell_of(I, st, a0)
    if m == 'next':
        return it_step_store(I, st, ref, v)
    if m in ITER_ADAPT:
        return [(st, ('it', m, v, own_cl(I, st, args[1])))]
    if m in ('copied', 'cloned', 'by_ref', 'into_iter', 'fuse', 'iter'):
        return [(st, v if m in ('by_ref', 'into_iter', 'fuse', 'iter') else ('it', 'copied', v))]
    if m == 'enumerate':
        return [(st, ('it', 'enum', v, 0))]
    if m == 'rev':
        return [(st, rev_it(v))] if rev_it(v) else None
    if m == 'zip':
        return [(st, ('it', 'zip', v, to_iter(I, st, args[1])))]
    if m == 'chain':
        return [(st, ('it', 'chain', v, to_iter(I, st, args[1])))]
    if m in ('skip', 'take'):
        n = I.nval(st, args[1])
        if not n[2] and n[1] <= 64:
            return [(st, ('it', m, v, n[1]))]
        if v[1] == 'sym' and v[3] == 'f':
            return [(st, ('it', 'sym', '%s.%s(%s)' % (v[2], m, lin_str(n)), 'f', group_of(I, '%s.%s' % (v[2], m))))]
        return None
    if m == 'peekable':
        return [(st, ('it', 'peek', v, None))]
    if m == 'flatten':
        return [(st, ('it', 'flat', v, None))]
    if m == 'flat_map':
        return [(st, ('it', 'flat', ('it', 'map', v, own_cl(I, st, args[1])), None))]
    if m == 'peek' and v[1] == 'peek':
        if v[3] is not None:
            return [(st, some(v[3][0]))]
        out = []
        for s, i2, x, ix in it_next(I, st, v[2]):
            if x is None:
                out.append((store_ref(I, s, ref, ('it', 'peek', i2, None)), NONE))
            else:
                out.append((store_ref(I, s, ref, ('it', 'peek', i2, (x,))), some(x)))
        return out
    if m == 'tuple_windows' and v[1] == 'sym':
        return [(st, ('it', 'map', ('it', 'win', v[2], 'f', v[4]), ('bi', 'l2t')))]
    if m in ('is_sorted', 'all_unique'):
        return [(st, atom(I, st, '%s(%s)' % ('sorted' if m == 'is_sorted' else m, it_term(I, st, v))))]
    if m == 'contains' and len(args) == 2:
        # itertools: consumes up to and including the match
        def step(s, x, ix, a):
            r = []
            for s2, tv in I.split_b2(s, eqv(I, s, x, args[1])):
                r.append(('d', s2, TRUE) if tv else ('c', s2, a))
            return r
        return merge_out(I, [(s, x[1] if x[0] == 'done' else FALSE) for s, x in drive(I, st, v, 0, step)])
    if m in ITER_CONS:
        # &mut self consumers keep the remaining iterator; treat it as finished
        a = [v] + list(args[1:])
        if m in ('max', 'min') and len(args) > 1:
            return None
        return consume(I, st, m, a, dty)
    return None


def own_cl(I, st, f):
    if f[0] == 'r':
        v = I.strip(st, f)
        return f if v[0] != 'f' else v
    return f


def rev_it(v):
    if v[1] == 'lst':
        return ('it', 'lst', v[2][v[3]:][::-1], 0)
    if v[1] == 'rng':
        return ('it', 'lst', tuple(num(i) for i in range(v[2], v[3]))[::-1], 0) if v[3] - v[2] <= 64 else None
    if v[1] in ('map', 'filter', 'filter_map', 'copied'):
        r = rev_it(v[2])
        return ('it', v[1], r) + tuple(v[3:]) if r else None
    if v[1] == 'enum' and v[2][1] == 'lst':
        return ('it', 'lst', tuple(('t', (num(i), x)) for i, x in enumerate(v[2][2][v[2][3]:]))[::-1], 0)
    if v[1] == 'sym' and v[3] == 'f' and v[4][1] == 0:
        return v
    return None


def hash32(I, nm):
    I.sym('len(%s)' % nm, ((32, 32),))
    return ('o', nm)


def unknown(I, st, f, name, args, dty):
    """no body and no model: an unmodelled result; anything passed by mutable reference is lost"""
    path = '%s(%s)' % (name, ', '.join(I.term(st, a) for a in args))
    why = 'unmodelled ' + name
    I.notes.add(why)
    st = st.copy()
    for a in args:
        if a[0] == 'r':
            ref = cell_of(I, st, a)
            v = I.strip(st, a)
            if v[0] in ('l', 'v', 'm', 'it', 'upd') or (v[0] == 'o' and v[1].startswith('list(')):
                nm = 'after %s(%s)' % (name, I.term(st, v)[:60])
                I.unkpaths.setdefault(nm, why)
                I.store(st, ('cell', ref[1], ref[2]), ('o', nm)) if ref[0] == 'r' else None
    if dty == '()':
        return [(st, UNIT)]
    I.unkpaths.setdefault(path, why)
    if dty in INT and dty != 'bool':
        return [(st, I.sym(path, (INT[dty],), why))]
    if dty == 'bool':
        return [(st, atom(I, st, path, why))]
    return [(st, ('o', path))]
