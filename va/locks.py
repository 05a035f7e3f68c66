"""Which locks are held where: guards tracked through each body, locks acquired summed over the call graph."""
import re
from taint import places

GUARD = re.compile(r'\b(MutexGuard|RwLockReadGuard|RwLockWriteGuard|MappedMutexGuard|MappedRwLock\w*Guard|OwnedMutexGuard|OwnedRwLock\w*Guard)<')
LOCKCALL = re.compile(r'\b(Mutex|RwLock)::<[^>]*>::(lock|read|write|lock_owned|read_owned|write_owned|blocking_lock|blocking_read|blocking_write)$')


def arg_of(ty):
    """(kind, protected type, blocking?) of a guard type that is owned, not borrowed"""
    if ty.startswith('&') or 'impl ' in ty or ty.startswith('{') or 'Ready<' in ty or 'Pin<' in ty:
        return None
    m = GUARD.search(ty)
    if not m:
        return None
    kind = m.group(1)
    i, d, parts, cur = m.end(), 1, [], ''
    while i < len(ty) and d:
        c = ty[i]
        d += c in '<([{'
        d -= c in '>)]}' and ty[i - 1] != '-'
        if d:
            if c == ',' and d == 1:
                parts.append(cur.strip())
                cur = ''
            else:
                cur += c
        i += 1
    parts.append(cur.strip())
    parts = [p for p in parts if not p.startswith("'") and 'RawMutex' not in p and 'RawRwLock' not in p]
    pre = ty[:m.start()]
    return kind, (parts[0] if parts else '?'), 'tokio' not in pre.rsplit('<', 1)[-1]


class Locks:
    def __init__(self, F, G):
        self.F, self.G = F, G
        self.memo = {}
        self.direct = {}

    def own_locks(self, k):
        """locks a body takes itself: [(class, mode, line)]"""
        r = self.direct.get(k)
        if r is None:
            r = []
            b = self.F.fn(k)
            for bb in b['blocks'] if b else ():
                if len(bb) > 2 and bb[2]:
                    continue
                t = bb[1]
                f = t.get('f') if t['k'] == 'call' else None
                if f:
                    p = f.get('p', '')
                    m = re.search(r'\b(Mutex|RwLock)::<.*>::(lock|read|write|lock_owned|read_owned|write_owned|blocking_lock|blocking_read|blocking_write)$', p)
                    if m:
                        a = [x for x in f.get('a') or [] if 'RawMutex' not in x and 'RawRwLock' not in x]
                        r.append((a[0] if a else '?', 'read' if 'read' in m.group(2) else 'write', t['l']))
            self.direct[k] = r
        return r

    def acquires(self, k):
        """{(class, mode): path} over everything the body may call"""
        r = self.memo.get(k)
        if r is not None:
            return r
        seen = self.G.reach([k])
        r = {}
        for x in seen:
            for c, m, l in self.own_locks(x):
                r.setdefault((c, m), (x, l))
        self.memo[k] = r
        return r

    def held(self, k):
        """[(block, terminator, {local: (kind, class, blocking)})] with at least one guard live"""
        b = self.F.fn(k)
        gl = {}
        for i, d in enumerate(b['locals']):
            a = arg_of(d[0])
            if a:
                gl[i] = a
        if not gl:
            return []
        n = len(b['blocks'])
        inn = [None] * n
        inn[0] = frozenset()
        work = [0]
        out = []
        res = {}
        while work:
            i = work.pop()
            st = set(inn[i])
            bb = b['blocks'][i]
            for s in bb[0]:
                if s[0] == 'dead':
                    st.discard(s[1])
                elif s[0] == '=':
                    for x in moved(s[2]):
                        st.discard(x)
                    if s[1][0] in gl and s[2][0] in ('use', 'agg', 'cast') and (moved(s[2]) or s[2][0] != 'use'):
                        if len(s[1]) == 1:
                            st.add(s[1][0])
            t = bb[1]
            before = frozenset(st)
            if t['k'] == 'drop' and len(t['p']) == 1:
                st.discard(t['p'][0])
                before = frozenset(st)
            elif t['k'] == 'call':
                for a in t['args']:
                    for x in moved(a):
                        st.discard(x)
                before = frozenset(st)
                if t['d'][0] in gl and len(t['d']) == 1:
                    st.add(t['d'][0])
            res[i] = before
            for s in succ(t):
                new = frozenset(st) if inn[s] is None else inn[s] | frozenset(st)
                if new != inn[s]:
                    inn[s] = new
                    work.append(s)
        for i, h in sorted(res.items()):
            if h and not (len(b['blocks'][i]) > 2 and b['blocks'][i][2]):
                out.append((i, b['blocks'][i][1], {x: gl[x] for x in h}))
        return out


def succ(t):
    k = t['k']
    r = []
    if k == 'switch':
        r = [v[1] for v in t['v']] + ([t['o']] if t.get('o') is not None else [])
    elif t.get('t') is not None:
        r = [t['t']]
    return r


def moved(x):
    """locals moved whole"""
    out = []
    if isinstance(x, list):
        if len(x) >= 2 and x[0] == 'm' and isinstance(x[1], list) and x[1] and isinstance(x[1][0], int):
            return [x[1][0]]
        for y in x:
            if isinstance(y, list):
                out += moved(y)
    return out
