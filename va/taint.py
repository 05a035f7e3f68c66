"""Forward may-taint over compiler bodies: which branches, results and stores depend on a source of values.

A source is a callee matching a pattern. Locals are tainted whole; a callee of the repository is analysed with the
taint its arguments carry, any other callee passes taint from arguments to result and into what it mutably borrows."""
import re


def places(x, out=None):
    """base locals of the places a right-hand side or operand list reads"""
    if out is None:
        out = []
    if isinstance(x, list):
        if len(x) >= 2 and x[0] in ('c', 'm') and isinstance(x[1], list) and x[1] and isinstance(x[1][0], int):
            out.append(x[1])
            return out
        if x and x[0] in ('ref', 'addr', 'discr') and len(x) >= 2:
            p = x[2] if x[0] == 'ref' else x[1]
            if isinstance(p, list) and p and isinstance(p[0], int):
                out.append(p)
                return out
        for y in x:
            if isinstance(y, list):
                places(y, out)
    return out


class Taint:
    def __init__(self, F, G, source, stop=None, ignore=None):
        self.F, self.G = F, G
        self.source = re.compile(source)
        self.stop = stop or (lambda k: False)      # own functions whose result counts as clean
        self.ignore = ignore and re.compile(ignore)
        self.memo = {}

    def src(self, f):
        return any(self.source.search(x) for x in (f.get('p', ''), f.get('ip') or ''))

    def run(self, key, params=frozenset()):
        """(result tainted, {(function, line, kind)})"""
        m = self.memo.get((key, params))
        if m is not None:
            return m
        self.memo[(key, params)] = (False, frozenset())
        b = self.F.fn(key)
        if b is None:
            return (bool(params), frozenset())
        T = set(params)
        hits = set()
        refs = {}
        changed = True
        while changed:
            changed = False
            n0 = len(T)
            for bb in b['blocks']:
                if len(bb) > 2 and bb[2]:
                    continue
                for s in bb[0]:
                    if s[0] != '=':
                        continue
                    ps = places(s[2])
                    if s[2][0] == 'ref' and s[2][1] == 1 and len(s[1]) == 1:
                        refs[s[1][0]] = s[2][2][0]
                    elif s[2][0] == 'use' and ps and ps[0][0] in refs and len(s[1]) == 1:
                        refs[s[1][0]] = refs[ps[0][0]]
                    if any(p[0] in T for p in ps):
                        T.add(s[1][0])
                        if '*' in s[1][1:] and (s[1][0] <= b['argc']):
                            hits.add((key, s[3] if len(s) > 3 else 0, 'store'))
                t = bb[1]
                if t['k'] == 'switch':
                    if any(p[0] in T for p in places([t['d']])) and not re.search(r'trace|debug|info|warn|error|event|assert', t.get('m') or ''):
                        hits.add((key, t['l'], 'branch'))
                elif t['k'] == 'call':
                    f = t.get('f') or {}
                    av = [places([a]) for a in t['args']]
                    ta = frozenset(i + 1 for i, ps in enumerate(av) if any(p[0] in T for p in ps))
                    res = False
                    if f and self.src(f):
                        res = True
                    else:
                        own = self.G.targets(f)[0] if f else []
                        if own and not (self.ignore and self.ignore.search(own[0])):
                            for o in own:
                                if self.stop(o):
                                    continue
                                r, h = self.run(o, ta)
                                res = res or r
                                if ta and (h - self.run(o)[1]):
                                    hits.add((key, t['l'], 'hands it to %s, which branches on it' % o.split('<')[0].split('::')[-1]))
                        elif ta and not own:
                            res = True
                    if res or (ta and not (f and self.G.targets(f)[0])):
                        if res:
                            T.add(t['d'][0])
                        for ps in av:
                            for p in ps:
                                if p[0] in refs:
                                    T.add(refs[p[0]])
            changed = len(T) != n0
        r = (0 in T, frozenset(hits))
        self.memo[(key, params)] = r
        return r
