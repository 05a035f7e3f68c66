"""The call graph of the crate, over the compiler's resolved bodies.

Edges: a resolved callee; every implementation of the method when the callee is virtual or still generic; and every
closure, coroutine or function item a body constructs (so a callback counts as called where it is made). Bodies outside
the repository are leaves, reported by path."""
import re


def operands(x):
    """every operand inside a nested statement or terminator"""
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from operands(v)
    elif isinstance(x, list):
        for v in x:
            yield from operands(v)


class CG:
    def __init__(self, F, roots_pred=None):
        self.F = F
        self.out = {}
        self.impls = {}
        for k, ix in F.index.items():
            m = re.match(r'^<(.+) as (.+)>::([\w#{}]+)$', ix[3])
            if m and self.own(k):
                tr = m.group(2).split('<')[0]
                if not tr.startswith(('snapchain', 'fc::')):
                    continue    # Clone, Default, From ... of an unknown type say nothing about who is called
                self.impls.setdefault((tr, m.group(3)), []).append(k)

    def own(self, k):
        ix = self.F.index.get(k)
        if not ix:
            return False
        f = ix[5]
        return f.startswith('src/') or f.startswith('proto/') or f.startswith('cli/') or '/src/snapchain' in f or ix[3].lstrip('<&').startswith(('snapchain', 'fc::'))

    def targets(self, f):
        """(own bodies, leaf path or None) of a callee record"""
        k = f.get('i')
        if k and self.own(k):
            return [k], None
        p = f.get('p', '')
        ip = f.get('ip')
        if ip and not k:
            k = ip
        if ip in self.F.bypath and self.own(self.F.bypath[ip][0]):
            return [self.F.bypath[ip][0]], None
        if (f.get('virt') or not f.get('i')) and f.get('tr'):
            tr = f['tr'].split('<')[0]
            name = p.rsplit('::', 1)[-1]
            c = self.impls.get((tr, name), [])
            d = self.F.bypath.get(p, [])
            d = [x for x in d if self.own(x)]
            s = f.get('self', '')
            if c or d:
                return sorted(set(c) | set(d)), (None if c or d else p)
        if p in self.F.bypath and self.own(self.F.bypath[p][0]):
            return [self.F.bypath[p][0]], None
        return [], (ip or p)

    def edges(self, k):
        """[(kind, target, line)]: kind 'own' for a body key, 'leaf' for a foreign path"""
        r = self.out.get(k)
        if r is not None:
            return r
        b = self.F.fn(k)
        r = []
        if b is not None:
            for bb in b['blocks']:
                if len(bb) > 2 and bb[2]:
                    continue    # unwinding
                t = bb[1]
                if t['k'] == 'call' and 'f' in t:
                    own, leaf = self.targets(t['f'])
                    for o in own:
                        r.append(('own', o, t['l'], t))
                    if leaf:
                        r.append(('leaf', leaf, t['l'], t))
                for s in list(bb[0]) + [t.get('args', [])]:
                    for o in self.made(s):
                        r.append(('own', o, t['l'], None))
            for pr in b.get('proms') or []:
                for o in self.made(pr):
                    r.append(('own', o, b['line'], None))
        self.out[k] = r
        return r

    def made(self, s):
        """closures, coroutines and function items a statement mentions"""
        st = [s]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                f = x.get('fn')
                if isinstance(f, dict):
                    own, _ = self.targets(f)
                    yield from own
                for v in x.values():
                    if isinstance(v, (dict, list)):
                        st.append(v)
            elif isinstance(x, list):
                for v in x:
                    if isinstance(v, (dict, list)):
                        st.append(v)
                    elif isinstance(v, str) and '{closure#' in v or isinstance(v, str) and 'coroutine' in v:
                        if v in self.F.index and self.own(v):
                            yield v

    def reach(self, roots, stop=None):
        """key -> (caller key, line) for everything reachable"""
        seen = {r: None for r in roots}
        st = list(roots)
        while st:
            k = st.pop()
            if stop and stop(k):
                continue
            for kind, t, line, _ in self.edges(k):
                if kind == 'own' and t not in seen:
                    seen[t] = (k, line)
                    st.append(t)
        return seen

    def path(self, seen, k):
        out = []
        while k is not None:
            out.append(k)
            k = seen[k][0] if seen[k] else None
        return out[::-1]
