"""Decides whether a path that branched on arithmetic of known quantities is consistent with its cell, by interval
arithmetic over single candidate points of those quantities (end points of their ranges and their neighbourhoods)."""
import re

OPS = {'/': lambda a, b: (abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1), '%': lambda a, b: a - (abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1) * b, '&': lambda a, b: a & b, '|': lambda a, b: a | b,
       '^': lambda a, b: a ^ b, '<<': lambda a, b: a << b if b < 200 else None, '>>': lambda a, b: a >> b, '*': lambda a, b: a * b}


def tops(s):
    """(position, character) of s at bracket depth 0, outside quotes"""
    d, q, i = 0, False, 0
    while i < len(s):
        c = s[i]
        if q:
            if c == '\\':
                i += 1
            elif c == '"':
                q = False
        elif c == '"':
            q = True
        elif c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
        elif d == 0:
            yield i, c
        i += 1


def parse(s, leaf):
    """expression tree: ('n', k) | ('s', name) | ('+', [(c, tree)]) | (op, l, r); None when not arithmetic"""
    s = s.strip()
    if re.fullmatch(r'-?\d+', s):
        return ('n', int(s))
    if leaf(s):
        return ('s', s)
    if s.startswith('(') and s.endswith(')') and not any(True for i, c in tops(s) if 0 < i < len(s) - 1):
        inner = s[1:-1]
        sp = [i for i, c in tops(inner) if c == ' ']
        for a, b in zip(sp, sp[1:]):
            op = inner[a + 1:b]
            if op in OPS:
                l, r = parse(inner[:a], leaf), parse(inner[b + 1:], leaf)
                return (op, l, r) if l and r else None
        return None
    sp = [i for i, c in tops(s) if c == ' ']
    cut, sign, parts = 0, 1, []
    for a, b in zip(sp, sp[1:]):
        if s[a + 1:b] in '+-' and b == a + 2:
            parts.append((sign, s[cut:a]))
            cut, sign = b + 1, (1 if s[a + 1] == '+' else -1)
    parts.append((sign, s[cut:]))
    out = []
    for sg, p in parts:
        m = re.match(r'(-?\d*)\*(.*)', p)
        k = 1
        if m:
            k, p = int(m.group(1) or 1), m.group(2)
        elif p.startswith('-') and not re.fullmatch(r'-\d+', p):
            k, p = -1, p[1:]
        if len(parts) == 1 and k == 1:
            return None
        t = parse(p, leaf)
        if t is None:
            return None
        out.append((sg * k, t))
    return ('+', out)


def syms(t, out):
    if t[0] == 's':
        out.add(t[1])
    elif t[0] == '+':
        for _, x in t[1]:
            syms(x, out)
    elif t[0] != 'n':
        syms(t[1], out)
        syms(t[2], out)
    return out


def ev(t, env):
    if t[0] == 'n':
        return t[1]
    if t[0] == 's':
        return env.get(t[1])
    if t[0] == '+':
        r = 0
        for c, x in t[1]:
            v = ev(x, env)
            if v is None:
                return None
            r += c * v
        return r
    a, b = ev(t[1], env), ev(t[2], env)
    if a is None or b is None or (b == 0 and t[0] in '/%'):
        return None
    return OPS[t[0]](a, b)


def confirm(I, st):
    """True when a concrete choice of the base quantities satisfies every constraint of the path on them"""
    names = []
    for w in st.unk:
        if not str(w).startswith('branch on '):
            return False
        names.append(str(w)[10:])

    def leaf(s):
        return s in I.symty and I.spec.known(s)
    trees, base = {}, set()
    for n in names:
        if n in trees:
            continue
        inner = parse(n, lambda s: s != n and leaf(s))
        if inner is None:
            return False
        trees[n] = inner
    for key in st.R:
        for s, _ in key:
            if s not in trees and s.startswith('('):
                t = parse(s, lambda x: x != s and leaf(x))
                if t is not None:
                    trees[s] = t
    # expand derived quantities that are themselves derived

    def expand(t):
        if t[0] == 's' and t[1].startswith('(') :
            x = trees.get(t[1]) or parse(t[1], lambda y: y != t[1] and leaf(y))
            return expand(x) if x else t
        if t[0] == '+':
            return ('+', [(c, expand(x)) for c, x in t[1]])
        if t[0] in ('n', 's'):
            return t
        return (t[0], expand(t[1]), expand(t[2]))
    trees = {n: expand(t) for n, t in trees.items()}
    for n in names:
        syms(trees[n], base)
    if not base or len(base) > 2:
        return False
    cons = []
    for key, rg in st.R.items():
        if all((s in base) or (s in trees and syms(trees[s], set()) <= base) for s, _ in key):
            cons.append((key, rg))
    N = 700 if len(base) == 1 else 24
    cand = {}
    for b in base:
        r = I.rng1(st, ((b, 1),))
        c = []
        for lo, hi in r[:8]:
            lo, hi = max(lo, -2 ** 70), min(hi, 2 ** 70)
            c += [v for v in range(lo, min(hi, lo + N) + 1)] + [v for v in range(max(lo, hi - N), hi + 1)]
            c += [v for v in (1 << k for k in range(0, 66, 4)) if lo <= v <= hi] + [v for v in ((1 << k) + 1 for k in range(8, 66, 4)) if lo <= v <= hi]
        cand[b] = sorted(set(c))
    bl = sorted(base)

    def inside(v, rg):
        return any(l <= v <= h for l, h in rg)
    import itertools
    for vals in itertools.product(*[cand[b] for b in bl]):
        env = dict(zip(bl, vals))
        good = True
        for n, t in trees.items():
            if syms(t, set()) <= base:
                v = ev(t, env)
                if v is None:
                    good = False
                    break
                env[n] = v
        if not good:
            continue
        if all(inside(sum(c * env[s] for s, c in key), rg) for key, rg in cons):
            return True
    return False
