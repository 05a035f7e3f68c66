"""Effects: what code may reach (writes, clocks, random order), what it may hold (locks), what must come first (credentials)."""
import re, collections
from cg import CG
from taint import Taint, places
from locks import Locks, succ, arg_of
from harness import Anchor, Row

_G = {}


def graph(ctx):
    g = _G.get(id(ctx.F))
    if g is None:
        g = _G[id(ctx.F)] = CG(ctx.F)
    return g


def base(p):
    return re.sub(r'(::\{closure#\d+\})+', '', p)


def pathof(ctx, k):
    return ctx.F.index[k][3]


def short(p):
    p = re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', p)) if p.count('<') > 1 and not p.startswith('<') else p
    return p.replace('snapchain::', '').replace('storage::store::', '')


def where(ctx, k, line):
    ix = ctx.F.index[k]
    return '%s (%s:%s)' % (short(ix[3]), ix[5], line)


def roots(ctx, g, name, pat, least):
    r = sorted(k for k in ctx.F.index if g.own(k) and re.search(pat, pathof(ctx, k)))
    ctx.counts['entry points: ' + name] = len(r)
    if len(r) < least:
        ctx.lost.append('%s: only %d entry points found' % (name, len(r)))
        ctx.undecided.append('%s: only %d of the entry points the rule starts from are found' % (name, len(r)))
    return r


def trail(ctx, g, seen, k):
    return ' <- '.join(short(pathof(ctx, x)) for x in g.path(seen, k)[::-1][:6])


# ------------------------------------------------------------------ D01 determinism
APPLY = r'(ShardEngine|BlockEngine)::(validate_state_change|commit_shard_chunk|commit_block|replay_\w+|commit_and_emit_events|merge_\w+)$'
CLOCK = r'SystemTime::now|Instant::(elapsed|duration_since|checked_duration_since|saturating_duration_since)$|<std::time::(Instant|SystemTime) as .*(PartialOrd|PartialEq|Ord|Sub)|chrono::.*::now|tokio::time::Instant::elapsed'
RANDOM = r'(^|[<: ])(rand|rand_core|getrandom|fastrand)::|OsRng|thread_rng|std::env::(var|vars|args|temp_dir|current_dir)|std::process::id|std::thread::current|RandomState::new|Uuid::new|available_parallelism'
HASHITER = re.compile(r'collections::(hash_map|hash_set|HashMap|HashSet)')
ORDERED = re.compile(r'(::|>::)(into_iter|iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if|union|intersection|difference|symmetric_difference)$')
# maps whose iteration order is immaterial, by the type of what they hold
COMMUTES = {
    'Vec<u8>, Option<Vec<u8>>': 'a write batch: every key occurs once, so applying or merging its entries commutes',
    'u8, TrieNodeType': 'the children of a trie node, taken only when there is exactly one',
    'u8, Vec<u8>': 'child hashes of a trie node on their way into the stored form, which is keyed',
    'u32, Vec<u8>': 'child hashes of a stored trie node on their way into a keyed map',
    'u8, (Vec<usize>, Vec<Vec<u8>>)': 'insertions grouped by child: the groups touch disjoint subtrees and report by position',
    'u8, Vec<(usize, Vec<u8>)>': 'deletions grouped by child: the groups touch disjoint subtrees and report by position',
}


def plain(t):
    return re.sub(r'\b[\w]+::', '', t)


def hashed(call, leaf, fnrec):
    """the element types of the hash collection a call iterates, or None"""
    f = call['f']
    n = f.get('p', '')
    if not (ORDERED.search(leaf) or ORDERED.search(n)):
        return None
    ty = None
    if f.get('self') and HASHITER.search(f['self']) and 'IntoIter' not in f['self'] and 'hash_map::Iter' not in f['self']:
        ty = f['self']
        m = re.search(r'Hash(?:Map|Set)<(.*)>$', ty)
        return plain(m.group(1)) if m else plain(ty)
    m = re.match(r'std::collections::Hash(Map|Set)::<', leaf) or re.match(r'std::collections::Hash(Map|Set)::<', n)
    if m:
        a = [x for x in f.get('a') or [] if 'RandomState' not in x and 'Global' not in x]
        return plain(', '.join(a[:2 if m.group(1) == 'Map' else 1]))
    return None


def d01(ctx):
    """Applying a decided block or chunk is a function of the chain state and the value alone."""
    F = ctx.F
    g = graph(ctx)
    start = roots(ctx, g, 'replay, validation and commit of chunks and blocks', APPLY, 8)
    if not start:
        raise Anchor('no function that replays, validates or commits a chunk or block is left')
    ctx.explain.append('Rule: in everything reachable from replaying, validating and committing a shard chunk or block (call graph of resolved bodies, '
                       'virtual and generic calls widened to every implementation, closures counted where they are made), no branch, stored value or returned value may depend on the clock; '
                       'no call draws randomness or reads the environment or thread identity; and no hash map or set is iterated unless the listed reason makes the order immaterial.')
    known = {k: v for k, v in ctx.known.items() if not k.startswith('order of')}
    kn = {}
    for k in F.index:
        b = base(pathof(ctx, k))
        for name in known:
            if b.endswith('::' + name):
                kn[k] = name
    full = g.reach(start)
    left = g.reach(start, stop=lambda k: k in kn)
    t = Taint(F, g, CLOCK, stop=lambda k: k in kn)
    ctx.fns |= {pathof(ctx, k) for k in full}
    for k in sorted(left):
        if k in kn:
            continue
        ret, hits = t.run(k)
        own = sorted(h for h in hits if h[0] == k)
        if ret or not own:
            # a wrapper that only hands the time on is judged where it is used
            ctx.obligations += 1
            ctx.discharged += 1
            if not own or ret:
                continue
        for h in own[:3]:
            ctx.ob(False, 'clock: ' + base(pathof(ctx, k)), 'the outcome depends on the local clock: %s %s; reached by %s' % (where(ctx, h[0], h[1]), h[2], trail(ctx, g, left, k)))
    tk = Taint(F, g, CLOCK)
    for name in sorted(set(kn.values())):
        ks = [k for k in kn if kn[k] == name and k in left]
        sub = g.reach(ks)
        if ks and any(tk.run(k)[0] or tk.run(k)[1] for k in sub):
            ctx.ob(False, name, 'the outcome depends on the local clock in %s' % name)
    n = 0
    rr = re.compile(RANDOM)
    for k in sorted(full):
        for kind, leaf, line, call in g.edges(k):
            if kind != 'leaf' or call is None:
                continue
            if rr.search(leaf) or rr.search(call['f'].get('p', '')):
                ctx.ob(False, 'random: ' + base(pathof(ctx, k)), '%s calls %s; reached by %s' % (where(ctx, k, line), leaf, trail(ctx, g, full, k)))
            e = hashed(call, leaf, None)
            if e is not None:
                n += 1
                if e in COMMUTES:
                    ctx.ob(True, 'order of %s' % e)
                else:
                    ctx.ob(False, 'order of ' + e, '%s iterates a hash collection of %s, in an order that differs from node to node; reached by %s' % (where(ctx, k, line), e, trail(ctx, g, full, k)))
    ctx.counts['functions reachable'] = len(full)
    ctx.counts['hash iterations judged'] = n


# ------------------------------------------------------------------ D02 writes
WRITE = re.compile(r'rocksdb::(DB::(write|destroy|put|delete|merge|ingest)|Transaction::<.*>::(put|delete|commit|merge)|TransactionDB::(put|delete|write|merge))|std::fs::(write|remove|rename|create|copy|File::create|OpenOptions)')
QUIET = [
    ('proposing, validating, replaying and simulating', r'(ShardEngine|BlockEngine)::(propose_state_change|validate_state_change|replay_\w+|merge_\w+|simulate_\w+|validate_\w+|prepare_\w+|start_round|get_\w+)$', 30, None),
    ('gRPC queries', r' as snapchain_proto::hub_service_server::HubService>::(?!submit)\w+', 60, None),
    ('gRPC submission', r' as snapchain_proto::hub_service_server::HubService>::submit\w+', 2, r'(Shard|Block)Engine::new(_with_opts)?$'),
    ('serving replicas', r' as snapchain_proto::replication_service_server::ReplicationService>::\w+', 3, None),
    ('merging, deleting and reading records', r'storage::store::account::.*(merge|get_|is_|prune_messages|revoke|put_\w*transaction|delete_\w*transaction|find_|make_)\w*$', 200, None),
    ('the mempool', r'mempool::mempool::.*', 20, None),
    ('gossip', r'network::gossip::.*', 20, None),
    ('message validation', r'core::validations::', 100, None),
    ('proposing and checking values', r'consensus::(validator|proposer)::.*::(propose|add_proposed\w*|get_\w+|start_\w+|validate_\w+|propose_\w+)$', 15, r'LocalStateStore::put_proposal$'),
]


def d02(ctx):
    """Only committing, pruning and node bookkeeping write to disk."""
    F = ctx.F
    g = graph(ctx)
    ctx.explain.append('Rule: over the call graph, no write, delete or commit of the database (nor a file write) is reachable from the entry points of each group; '
                       'the single exceptions are opening an engine over a fresh directory and recording one\'s own proposal.')
    # the rule only means something while the database writes are seen at all
    writers = {k for k in F.index if g.own(k) for e in g.edges(k) if e[0] == 'leaf' and WRITE.search(e[1])}
    ctx.floor('functions that write to disk', len(writers), 3)
    for name, pat, least, stop in QUIET:
        rs = roots(ctx, g, name, pat, least)
        sr = stop and re.compile(stop)
        seen = g.reach(rs, (lambda k: bool(sr.search(pathof(ctx, k)))) if sr else None)
        bad = []
        for k in seen:
            if sr and sr.search(pathof(ctx, k)):
                continue
            ctx.fns.add(pathof(ctx, k))
            for kind, leaf, line, _ in g.edges(k):
                if kind == 'leaf' and WRITE.search(leaf):
                    bad.append((k, leaf, line))
        ctx.obligations += len(rs)
        ctx.discharged += len(rs)
        if bad:
            ctx.discharged -= len(rs)
        for k, leaf, line in bad[:4]:
            ctx.violations.append({'key': 'write: %s: %s' % (name, trail(ctx, g, seen, k)), 'msg': '%s reaches %s at %s by way of %s' % (name, leaf, where(ctx, k, line), trail(ctx, g, seen, k)), 'detail': None})


# ------------------------------------------------------------------ D03 locks
def d03(ctx):
    """Locks are taken in one order, never twice, and never across an await."""
    F = ctx.F
    g = graph(ctx)
    L = Locks(F, g)
    ctx.explain.append('Rule: guards are followed through every body (assigned, moved, dropped); while one is held, the locks any callee may take are summed over the call graph. '
                       'A thread-blocking guard may not be live at an await; no lock may be taken again while held unless both are reads; and the order relation between locks, named by what they protect, has no cycle.')
    nl = 0
    order = {}
    for k in sorted(F.index):
        if not g.own(k):
            continue
        b = F.fn(k)
        nl += len(L.own_locks(k))
        if not any('Guard<' in d[0] for d in b['locals']):
            continue
        ctx.fns.add(pathof(ctx, k))
        bad = False
        for i, t, h in L.held(k):
            if t['k'] == 'yield':
                for kd, c, bl in h.values():
                    if bl:
                        bad = True
                        ctx.ob(False, 'await: ' + base(pathof(ctx, k)), 'the guard of %s is held across the await at %s' % (plain(c), where(ctx, k, t['l'])))
            if t['k'] != 'call' or 'f' not in t:
                continue
            acq = {}
            own, leaf = g.targets(t['f'])
            for o in own:
                acq.update(L.acquires(o))
            if leaf:
                for c, m, l in L.own_locks(k):
                    if l == t['l'] and re.search(r'(Mutex|RwLock)::<', t['f'].get('p', '')):
                        acq[(c, m)] = (k, l)
            for kd, c, bl in h.values():
                for (c2, m), p in acq.items():
                    if c == c2:
                        if not ('Read' in kd and m == 'read'):
                            bad = True
                            ctx.ob(False, 'twice: %s' % plain(c), '%s holds the lock on %s and takes it again in %s' % (where(ctx, k, t['l']), plain(c), where(ctx, *p)))
                    else:
                        order.setdefault(c, {}).setdefault(c2, (k, t['l'], p))
        if not bad:
            ctx.ob(True, 'guards of ' + short(pathof(ctx, k)))
    ctx.floor('lock acquisitions', nl, 15)
    # cycles
    state = {}

    def visit(c, stack):
        state[c] = 1
        for d, (k, l, p) in sorted(order.get(c, {}).items()):
            if state.get(d) == 1:
                cyc = stack[stack.index(d):] + [d] if d in stack else [c, d]
                ctx.ob(False, 'cycle: ' + ' -> '.join(plain(x) for x in cyc), 'locks are taken in both orders: %s; %s takes %s while holding %s' % (' -> '.join(plain(x) for x in cyc), where(ctx, k, l), plain(d), plain(c)))
            elif d not in state:
                visit(d, stack + [d])
        state[c] = 2
    for c in sorted(order):
        if c not in state:
            visit(c, [c])
        ctx.ob(True, 'order after %s: %s' % (plain(c), ', '.join(sorted(plain(x) for x in order[c]))))


# ------------------------------------------------------------------ D04 allocation
PARSED = r'(from_be_bytes|from_le_bytes|from_ne_bytes|<impl str>::parse|from_str_radix|Buf::get_\w+|read_u(16|32|64)|decode_varint|decode_length_delimiter)$'
ALLOC = re.compile(r'(::with_capacity|::reserve|::reserve_exact|::resize|from_elem|::repeat|::resize_with|repeat_n|set_len|zeroed)$')
CAPPED = re.compile(r'(Ord::min|Ord::clamp|cmp::min|::min|::clamp|saturating_sub|::len)$')


class Alloc(Taint):
    """values read out of bytes or fields of a message, until they are bounded"""

    def __init__(self, F, G):
        Taint.__init__(self, F, G, PARSED)
        self.compared = {}
        self.tested = set()

    def run(self, key, params=frozenset()):
        m = self.memo.get((key, params))
        if m is not None:
            return m
        self.memo[(key, params)] = (False, frozenset())
        b = self.F.fn(key)
        if b is None:
            return (False, frozenset())
        T, refs = set(params), {}
        hits = set()
        inty = re.compile(r'^(u|i)(8|16|32|64|128|size)$')
        while True:
            n0 = len(T)
            for bb in b['blocks']:
                if len(bb) > 2 and bb[2]:
                    continue
                for s in bb[0]:
                    if s[0] != '=':
                        continue
                    rv = s[2]
                    src = [rv]
                    if rv[0] == 'bin':
                        op = rv[1]
                        l, r = places([rv[2]]), places([rv[3]])
                        lt, rt = any(p[0] in T for p in l), any(p[0] in T for p in r)
                        if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
                            if lt != rt:    # compared with something that is not from the wire: bounded, by a test this rule does not read
                                for p in l + r:
                                    if p[0] in T:
                                        self.compared.setdefault(key, set()).add(p[0])
                            src = []
                        elif op.startswith(('Sub', 'Div', 'Shr')):
                            src = [rv[2]]
                        elif op.startswith('Rem'):
                            src = [rv[3]]
                        elif op == 'BitAnd':
                            src = [rv[2], rv[3]] if lt and rt else []
                    for p in places(src):
                        if p[0] in T:
                            T.add(s[1][0])
                        # an integer field of a wire message
                        elif len(s[1]) == 1 and inty.match(b['locals'][s[1][0]][0]) and 'snapchain_proto::' in b['locals'][p[0]][0] and any(isinstance(x, list) and x[0] == 'f' for x in p[1:]):
                            T.add(s[1][0])
                t = bb[1]
                if t['k'] != 'call':
                    continue
                f = t.get('f') or {}
                av = [places([a]) for a in t['args']]
                ta = frozenset(i + 1 for i, ps in enumerate(av) if any(p[0] in T for p in ps))
                p = f.get('p', '')
                if f and ALLOC.search(p):
                    for a in t['args']:
                        if inty.match(self.optype(b, a)) and any(q[0] in T for q in places([a])):
                            hits.add((key, t['l'], p))
                            if chain(b, places([a])[0][0]) & {y for x in self.compared.get(key, ()) for y in chain(b, x)}:
                                self.tested.add((key, t['l'], p))
                if f and self.src(f):
                    T.add(t['d'][0])
                    continue
                own = self.G.targets(f)[0] if f else []
                if own:
                    for o in own:
                        r, h = self.run(o, ta)
                        if r:
                            T.add(t['d'][0])
                        if ta and (h - self.run(o)[1]):
                            hits.add((key, t['l'], 'handed to %s' % o.split('<')[0].split('::')[-1]))
                elif ta:
                    if CAPPED.search(p) and len(ta) < max(2, len(t['args'])) and not (p.endswith('clamp')):
                        continue
                    if p.endswith('len') or p.endswith('clamp') and not (ta - {1}):
                        continue
                    T.add(t['d'][0])
            if len(T) == n0:
                break
        r = (0 in T, frozenset(hits))
        self.memo[(key, params)] = r
        return r

    def optype(self, b, a):
        ps = places([a])
        if not ps:
            return ''
        return b['locals'][ps[0][0]][0] if len(ps[0]) == 1 else ''


def chain(b, x):
    """the locals a value was copied or cast from"""
    out = {x}
    while True:
        n = len(out)
        for bb in b['blocks']:
            for s in bb[0]:
                if s[0] == '=' and len(s[1]) == 1 and s[1][0] in out and s[2][0] in ('use', 'cast'):
                    out |= {p[0] for p in places(s[2]) if len(p) == 1}
        if len(out) == n:
            return out


def d04(ctx):
    """No number read from the wire sizes an allocation unchecked."""
    F = ctx.F
    g = graph(ctx)
    A = Alloc(F, g)
    ctx.explain.append('Rule: an integer parsed from bytes or text, or read from a field of a wire message, may not reach the size argument of an allocation (with_capacity, reserve, resize, vec![_; n], repeat) unless it went through min or clamp against a value that is not itself parsed.')
    n = 0
    for k in sorted(F.index):
        if not g.own(k):
            continue
        b = F.fn(k)
        sites = [t for bb in b['blocks'] for t in [bb[1]] if t['k'] == 'call' and ALLOC.search((t.get('f') or {}).get('p', '')) and not (len(bb) > 2 and bb[2])]
        if sites:
            n += len(sites)
            ctx.fns.add(pathof(ctx, k))
        _, hits = A.run(k)
        for h in sorted(hits):
            ctx.ob(False, 'size: ' + base(pathof(ctx, h[0])), undecided='%s sizes an allocation by a number from the wire that is compared with something first' % where(ctx, h[0], h[1]) if h in A.tested else None, msg='%s sizes an allocation by a number taken from the wire (%s)' % (where(ctx, h[0], h[1]), h[2]))
        if sites and not hits:
            ctx.obligations += len(sites)
            ctx.discharged += len(sites)
    ctx.floor('allocation sites', n, 60)


# ------------------------------------------------------------------ D05 credentials
GATED = [
    (r'server::MyHubService as .*HubService>::submit_message$', 'allowed_users'),
    (r'server::MyHubService as .*HubService>::submit_bulk_messages$', 'allowed_users'),
    (r'server::MyHubService as .*HubService>::get_mesh_view$', 'admin_allowed_users'),
    (r'server::MyHubService as .*HubService>::get_mesh_topology$', 'admin_allowed_users'),
    (r'admin_server::MyAdminService as .*AdminService>::upload_snapshot$', 'allowed_users'),
    (r'admin_server::MyAdminService as .*AdminService>::run_onchain_events_migration$', 'allowed_users'),
]
SEND = re.compile(r'(mpsc|oneshot|broadcast|watch)::.*::(send|try_send|blocking_send)$|tokio::spawn$|task::spawn|spawn_blocking|thread::spawn')


class Gate:
    def __init__(self, F, G):
        self.F, self.G = F, G
        self.has = {}
        self.eff = {}
        self.memo = {}

    def is_auth(self, k):
        return pathless(self.F.index[k][3]).endswith('::authenticate_request')

    def reaches_auth(self, k):
        r = self.has.get(k)
        if r is None:
            r = self.has[k] = any(self.is_auth(x) for x in self.G.reach([k]))
        return r

    def effect(self, k):
        """a call that sends, spawns or writes, below k"""
        r = self.eff.get(k)
        if r is None:
            r = False
            for x in self.G.reach([k]):
                for kind, leaf, line, _ in self.G.edges(x):
                    if kind == 'leaf' and (SEND.search(leaf) or WRITE.search(leaf)):
                        r = True
            self.eff[k] = r
        return r

    def exposed(self, k):
        """[(line, what)] effects a run of the body can have before the credentials were accepted"""
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = []
        b = self.F.fn(k)
        T, refs = set(), {}
        while True:
            n0 = len(T)
            for bb in b['blocks']:
                for s in bb[0]:
                    if s[0] == '=' and any(p[0] in T for p in places(s[2])):
                        T.add(s[1][0])
                t = bb[1]
                if t['k'] == 'call':
                    own = self.G.targets(t['f'])[0] if 'f' in t else []
                    if any(self.is_auth(o) or self.reaches_auth(o) for o in own) or any(p[0] in T for a in t['args'] for p in places([a])) and not own:
                        T.add(t['d'][0])
            if len(T) == n0:
                break
        # a switch over what became of the answer: the edge on which it was accepted
        cut = set()
        for i, bb in enumerate(b['blocks']):
            t = bb[1]
            if t['k'] != 'switch':
                continue
            ps = places([t['d']])
            if not ps or ps[0][0] not in T:
                continue
            ty, neg = '', False
            for c in b['blocks']:
                for s in c[0]:
                    if s[0] == '=' and s[1] == [ps[0][0]] and s[2][0] == 'discr':
                        ty = s[2][2]
                if c[1]['k'] == 'call' and c[1]['d'] == [ps[0][0]]:
                    p = c[1].get('f', {}).get('p', '')
                    ty = 'is_ok' if p.endswith(('is_ok', 'is_some')) else 'is_err' if p.endswith(('is_err', 'is_none')) else p
            want = {'is_ok': 1, 'is_err': 0}.get(ty)
            if want is None:
                want = 0 if re.search(r'(Result|ControlFlow)<', ty) else 1 if 'Option<' in ty else None
            if want is None:
                continue
            hit = [v[1] for v in t['v'] if v[0] == want]
            cut.add((i, hit[0] if hit else t['o']))
        seen, st, out = {0}, [0], []
        while st:
            i = st.pop()
            bb = b['blocks'][i]
            t = bb[1]
            for s in bb[0]:
                if s[0] == '=' and s[1] == [0] and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][2] == 'Ok':
                    out.append((s[3], 'answers'))
            if t['k'] == 'yield':
                out.append((t['l'], 'awaits'))
            elif t['k'] == 'call' and 'f' in t:
                own, leaf = self.G.targets(t['f'])
                if leaf and (SEND.search(leaf) or SEND.search(t['f'].get('p', ''))):
                    out.append((t['l'], 'calls ' + leaf))
                for o in own:
                    if self.reaches_auth(o):
                        out += [(t['l'], w + ' in ' + short(self.F.index[o][3])) for _, w in self.exposed(o) if w != 'answers']
                    elif self.effect(o):
                        out.append((t['l'], 'calls ' + short(self.F.index[o][3])))
            for x in succ(t):
                if (i, x) not in cut and x not in seen:
                    seen.add(x)
                    st.append(x)
        self.memo[k] = sorted(set(out))
        return self.memo[k]


def pathless(p):
    return p.split('<')[0] if not p.startswith('<') else p


def credential(b, call):
    """the field the second argument of the call was borrowed from"""
    ps = places([call['args'][1]])
    for _ in range(12):
        if not ps:
            return None
        p = ps[0]
        f = [x[2] for x in p[1:] if isinstance(x, list) and x[0] == 'f' and len(x) > 2]
        if f and not (len(f) == 1 and f[0].startswith('__')):
            return f[-1]
        nxt = None
        for bb in b['blocks']:
            for s in bb[0]:
                if s[0] == '=' and s[1] == [p[0]]:
                    nxt = places(s[2])
        ps = nxt
    return None


def d05(ctx):
    """Guarded endpoints check credentials before they do anything."""
    F = ctx.F
    g = graph(ctx)
    G = Gate(F, g)
    ctx.explain.append('Rule: in the body of each guarded endpoint, no await, channel send, spawned task, database write or successful answer lies on a path that has not crossed the accepting edge of the test of authenticate_request; '
                       'and the credentials compared against are the ones of that endpoint (user or admin).')
    n = 0
    for pat, field in GATED:
        ks = [k for k in F.index if g.own(k) and re.search(pat, pathof(ctx, k))]
        if not ks:
            ctx.lost.append('endpoint ' + pat)
            ctx.undecided.append('endpoint %s not found' % pat)
            continue
        for k in ks:
            # the body proper: the coroutine it boxes
            body = [k] + [x for x in g.reach([k]) if base(pathof(ctx, x)) == base(pathof(ctx, k)) and x != k and F.index[x][4] == 'coroutine']
            main = body[1] if len(body) > 1 else k
            main = min(body[1:], key=lambda x: len(pathof(ctx, x))) if len(body) > 1 else k
            n += 1
            ctx.fns.add(pathof(ctx, main))
            ex = G.exposed(main)
            name = short(base(pathof(ctx, k))).split('::')[-1]
            ctx.ob(not ex, 'credentials first: ' + name, '; '.join('%s at line %s before the credentials were accepted' % (w, l) for l, w in ex[:4]))
            b = F.fn(main)
            for bb in b['blocks']:
                t = bb[1]
                if t['k'] == 'call' and 'f' in t and any(G.is_auth(o) for o in g.targets(t['f'])[0]) and len(t['args']) > 1:
                    got = credential(b, t)
                    if got in ('allowed_users', 'admin_allowed_users'):
                        ctx.ob(got == field, 'credentials of ' + name, '%s checks %s, not %s (line %s)' % (name, got, field, t['l']))
                    else:
                        ctx.ob(True, 'credentials of ' + name, undecided='the credentials compared against come from %s' % got)
    ctx.counts['guarded endpoints'] = n


# ------------------------------------------------------------------ D06 dropped results
def judged(g, b, d):
    """is what became of a result looked at: branched on, returned, stored away, handed on or unwrapped"""
    T = {d}
    while True:
        n = len(T)
        for bb in b['blocks']:
            if len(bb) > 2 and bb[2]:
                continue
            for s in bb[0]:
                if s[0] == '=' and any(p[0] in T for p in places(s[2])):
                    if '*' in s[1][1:]:
                        return True
                    T.add(s[1][0])
            t = bb[1]
            if t['k'] == 'switch' and any(p[0] in T for p in places([t['d']])):
                return True
            if t['k'] == 'call' and any(p[0] in T for a in t['args'] for p in places([a])):
                f = t.get('f')
                if not f or re.search(r'unwrap|expect|from_residual|push|insert|send|extend|assert', f.get('p', '')) or g.targets(f)[0]:
                    return True
                T.add(t['d'][0])
        if 0 in T:
            return True
        if len(T) == n:
            return False


def origin(g, b, x):
    """the own callee whose future is being polled"""
    for _ in range(25):
        nxt = None
        for bb in b['blocks']:
            if len(bb) > 2 and bb[2]:
                continue
            for s in bb[0]:
                if s[0] == '=' and s[1] == [x]:
                    ps = places(s[2])
                    if ps:
                        nxt = ps[0][0]
            t = bb[1]
            if t['k'] == 'call' and t['d'] == [x]:
                own = g.targets(t['f'])[0] if 'f' in t else []
                if own:
                    return own
                ps = places(t['args'][:1])
                if not ps:
                    return []
                nxt = ps[0][0]
        if nxt is None or nxt == x:
            return []
        x = nxt
    return []


TOLERATED = [
    (r'emit_commit_metrics$', r'Engine::', 'telemetry'),
    (r'StoreEventHandler::commit_transaction$', r'(Shard|Block)Engine::', 'the event that only reports a refused message is best effort'),
]


def d06(ctx):
    """A failed write or replay step is never dropped."""
    F = ctx.F
    g = graph(ctx)
    ctx.explain.append('Rule: the Result of every call (awaited or not) into code that writes to disk, or that is reachable from replaying, validating and committing, is branched on, returned, unwrapped or handed on; '
                       'only telemetry and the event that reports a refused message may be dropped.')
    wr = {k for k in F.index if g.own(k) for e in g.edges(k) if e[0] == 'leaf' and WRITE.search(e[1])}
    rev = collections.defaultdict(set)
    for k in F.index:
        if g.own(k):
            for e in g.edges(k):
                if e[0] == 'own':
                    rev[e[1]].add(k)
    W, st = set(wr), list(wr)
    while st:
        for c in rev[st.pop()]:
            if c not in W:
                W.add(c)
                st.append(c)
    R = g.reach(roots(ctx, g, 'replay, validation and commit of chunks and blocks', APPLY, 8))
    n = 0
    for k in sorted(F.index):
        if not g.own(k):
            continue
        file = F.index[k][5]
        if re.search(r'test|perf|/main\.rs|/bin/|^cli/|proto/', file):
            continue
        b = F.fn(k)
        L = [d[0] for d in b['locals']]
        todo = []
        for bb in b['blocks']:
            if len(bb) > 2 and bb[2]:
                continue
            t = bb[1]
            if t['k'] == 'call' and 'f' in t and len(t['d']) == 1 and L[t['d'][0]].startswith('std::result::Result<'):
                todo.append((g.targets(t['f'])[0], t['d'][0], t['l']))
            for s in bb[0]:
                if s[0] == '=' and len(s[1]) == 1 and s[2][0] == 'use' and L[s[1][0]].startswith('std::result::Result<') and s[2][1][0] in ('m', 'c'):
                    p = s[2][1][1]
                    if len(p) > 1 and L[p[0]].startswith('std::task::Poll<std::result::Result<'):
                        src = [c[1] for c in b['blocks'] if c[1]['k'] == 'call' and c[1]['d'] == [p[0]]]
                        ps = places(src[0]['args'][:1]) if src else []
                        if ps:
                            todo.append((origin(g, b, ps[0][0]), s[1][0], s[3]))
        for own, d, line in todo:
            own = [o for o in own if o in W or o in R]
            if not own:
                continue
            n += 1
            ctx.fns.add(pathof(ctx, k))
            if judged(g, b, d):
                ctx.obligations += 1
                ctx.discharged += 1
                continue
            o = base(pathof(ctx, own[0]))
            if any(re.search(a, o) and re.search(c, pathof(ctx, k)) for a, c, _ in TOLERATED):
                ctx.ob(True, 'dropped on purpose: ' + o)
                continue
            ctx.ob(False, 'dropped: %s in %s' % (o, base(pathof(ctx, k))), '%s drops the result of %s' % (where(ctx, k, line), short(o)))
    ctx.floor('results followed', n, 700)


# ------------------------------------------------------------------ P01 nothing decoded is taken on trust
FALLIBLE = re.compile(r'prost::DecodeError>$|libp2p_identity::ParseError>$')
OWN = re.compile(r'::(encode|encode_to_vec|encode_length_delimited_to_vec|to_bytes)$')


VIEW = re.compile(r'::(as_ref|as_slice|deref|borrow|clone|into|from|as_bytes|to_vec|branch|unwrap|expect|map_err|into_iter|from_residual|decode|from_bytes|new|poll|into_future|index)$')


def own_bytes(fn, local):
    """the decoded bytes were encoded right here, or are constant"""
    defs = {}
    for b in fn['blocks']:
        t = b[1]
        if t['k'] == 'call':
            defs.setdefault(t['d'][0], []).append((t.get('f', {}).get('p', '?'), t['args']))
        for s in b[0]:
            if s[0] == '=':
                defs.setdefault(s[1][0], []).append((None, s[2]))
    seen, todo = set(), [local]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x not in defs:
            return False
        for p, a in defs[x]:
            if p and OWN.search(p):
                continue
            if p and not VIEW.search(p):
                return False
            ps = places(a[:1] if p else a)
            if any(len(q) > 1 and x != local and any(isinstance(z, list) and z[0] == 'f' for z in q[1:]) and q[0] == 1 for q in ps):
                return False
            todo += [q[0] for q in ps]
    return True


def p01_mir(ctx):
    """no panicking accessor on what decoding peer bytes returned"""
    g = graph(ctx)
    F = ctx.F
    n = m = 0
    for k in sorted(F.index):
        if not g.own(k) or re.search(r'/(perf|tests?|utils/factory)', F.index[k][5]):
            continue
        fn = F.fn(k)
        L = [x[0] if isinstance(x, list) else x for x in fn['locals']]
        for b in fn['blocks']:
            t = b[1]
            if t['k'] != 'call' or not t.get('args'):
                continue
            p = t.get('f', {}).get('p', '')
            if p.endswith('prost::Message::decode') or p.endswith('PeerId::from_bytes'):
                m += 1
            a = t['args'][0]
            if a[0] not in ('m', 'c') or not str(L[a[1][0]]).startswith('std::result::Result<') or not FALLIBLE.search(str(L[a[1][0]])) or not re.search(r'Result.*::(unwrap|expect|unwrap_unchecked)$', p):
                continue
            n += 1
            ctx.ob(own_bytes(fn, a[1][0]), 'trusted decode: ' + base(pathof(ctx, k)), '%s panics when the bytes it was given do not decode' % where(ctx, k, t['l']))
            ctx.fns.add(pathof(ctx, k))
    ctx.floor('places that decode a protobuf message or a peer id', m, 20)
    ctx.counts['panicking accessors on decoded values (all on own encodings or constants)'] = n
    ctx.explain.append('Rule: outside tests no unwrap or expect is applied to the result of decoding a protobuf message or a peer id, unless the bytes were encoded by the same function or are constant.')



SECRET_FIELDS = ('private_key', 'aws_secret_access_key', 'rpc_auth', 'admin_rpc_auth')
SECRET_TYPES = ('snapchain::cfg::Config', 'snapchain::consensus::consensus::Config', 'snapchain::storage::db::snapshot::Config')
TEXTY = re.compile(r'String|\bstr\b|Vec<u8>|\[u8|Argument|Cow<|Box<')
SHOWS = re.compile(r'fmt::rt::Argument::<.*>::new_\w+$|tracing(_core)?::field::(debug|display)$|serde_json::(ser::)?to_\w+$|toml::(ser::)?to_\w+$')


def secret_place(p):
    return isinstance(p, list) and any(isinstance(x, list) and x and x[0] == 'f' and len(x) > 2 and x[2] in SECRET_FIELDS for x in p[1:])


def shown_secrets(F, fn):
    """(line, what) for every place this function hands a secret to something that writes text"""
    L = [x[0] if isinstance(x, list) else x for x in fn['locals']]
    secret = set()
    hit = lambda ps: any(p[0] in secret or secret_place(p) and True for p in ps)
    grew = True
    while grew:
        grew = False
        for b in fn['blocks']:
            for st in b[0]:
                if st[0] == '=' and st[1][0] not in secret and not re.match(r'(bool|u\d+|usize|i\d+)$', str(L[st[1][0]])) and hit(places(st[2])):
                    secret.add(st[1][0])
                    grew = True
            t = b[1]
            if t['k'] == 'call' and t.get('d') and t['d'][0] not in secret and TEXTY.search(str(L[t['d'][0]])) and re.search(r'Clone|Deref|AsRef|Borrow|ToString|ToOwned|as_str|as_bytes|Into|From|format|fmt::|to_\w+$|must_use|concat|Add|trim|split|encode', t.get('f', {}).get('p', '')) and hit(places(t.get('args') or [])):
                secret.add(t['d'][0])
                grew = True
    out = []
    for b in fn['blocks']:
        t = b[1]
        if t['k'] != 'call' or 'f' not in t:
            continue
        p = t['f'].get('p', '')
        if not SHOWS.search(p):
            continue
        if hit(places(t.get('args') or [])):
            out.append((t['l'], 'a secret setting'))
        elif any(re.fullmatch(r'(?:&(?:mut )?|std::(?:option::Option|sync::Arc|boxed::Box)<)*(%s)>*' % '|'.join(map(re.escape, SECRET_TYPES)), str(a)) for a in t['f'].get('a') or ()):
            out.append((t['l'], 'a whole configuration record, keys included'))
    return out


def f02(ctx):
    """What a configuration error may say is read off every failing path of the loader; and no function writes a secret setting, or a record that holds one, as text."""
    g = graph(ctx)
    F = ctx.F
    n = m = 0
    for k in sorted(F.index):
        if not g.own(k) or re.search(r'/(perf|tests?|utils/factory)|_tests?\.rs', F.index[k][5]) or re.search(r'serde::Serialize|fmt::Debug>::fmt|_::<impl', F.index[k][3]):
            continue
        fn = F.fn(k)
        n += 1
        m += any(secret_place(p) for b in fn['blocks'] for st in b[0] if st[0] == '=' for p in places(st[2]))
        bad = shown_secrets(F, fn)
        for line, what in bad:
            ctx.ob(False, 'shown: ' + base(pathof(ctx, k)), '%s writes %s into text that is logged or returned' % (where(ctx, k, line), what))
    ctx.ob(True, 'functions', '')
    ctx.counts['functions read'] = n
    ctx.floor('functions that read a secret setting', m, 2)

    RAW = re.compile(r'(?:read_to_string|read)\((?:[^()]|\([^()]*\))*\)\.Ok')
    FINE = {'message', 'span', 'len', 'count', 'Error::message', 'Error::span', 'line_col', 'is_empty'}
    THROUGH = {'Err', 'fmt', 'parse', 'from_str', 'FromStr::from_str', 'toml::from_str', 'into', 'to_string', 'Into', 'cli', 'str::matches', 'lines', 'str::lines'}

    def judge(I, o, k, txt):
        if k == 'panic':
            return True
        given = any(s in txt for s in ('Format::file(', 'Toml::file(', 'Toml::string('))
        if given:
            ok = [key for key in list(o.st.R) if len(key) == 1 and key[0][0].startswith('discr(') and RAW.search(key[0][0]) and I.rng(o.st, key) == ((0, 0),)]
            if not ok:
                return 'hands a file to the configuration reader, whose errors quote the file, that it has not parsed itself'
            at = [txt.find(x) for x in ('defaults()', 'Format::file(', 'Env::prefixed(')]
            if -1 not in at and at != sorted(at):
                return 'layers in another order than defaults, file, environment' if 'join' not in txt else '?layers joined'
        if k != 'err':
            return True
        t = re.sub(r'Format::file\(', 'file(', txt)
        for mm in RAW.finditer(t):
            stack, names = 0, []
            i = mm.start() - 1
            while i >= 0:
                c = t[i]
                if c == ')':
                    stack += 1
                elif c == '(':
                    if stack:
                        stack -= 1
                    else:
                        w = re.search(r'[\w:]*$', t[:i]).group(0)
                        names.append(w)
                i -= 1
            if any(x in FINE or x.split('::')[-1] in FINE for x in names):
                continue
            odd = [x for x in names if x and x not in THROUGH and x.split('::')[-1] not in THROUGH]
            if odd:
                return '?error built with %s of the file' % odd[0]
            return 'an error that carries the contents of the configuration file: %s' % txt[:160]
        return True
    e = ctx.entry('snapchain::cfg::load_and_merge_config', [('args', r'Vec<')])
    from p_s import load, models_of
    d = load('config_load')['load_and_merge_config']
    ctx.table('errors', e, [Row('all', {}, judge, say='errors without the contents of the file')], vocab=[r'.*'], models=models_of(d.get('oracles'), d.get('kv'), d.get('env')))



# ------------------------------------------------------------------ D07 test and act under one guard
def guard_groups(F, b):
    """owned guards of a body, those moved into one another taken together: [(class, members)]"""
    gl = {i: arg_of(d[0]) for i, d in enumerate(b['locals']) if arg_of(d[0])}
    up = {i: i for i in gl}

    def root(i):
        while up[i] != i:
            i = up[i]
        return i
    for bb in b['blocks']:
        for s in bb[0]:
            if s[0] == '=' and s[1][0] in gl:
                for x in places(s[2]):
                    if x[0] in gl:
                        up[root(x[0])] = root(s[1][0])
        t = bb[1]
        if t['k'] == 'call' and t['d'][0] in gl:
            for x in places(t['args']):
                if x[0] in gl:
                    up[root(x[0])] = root(t['d'][0])
    out = {}
    for i in gl:
        out.setdefault(root(i), set()).add(i)
    return [(gl[r][1], m) for r, m in out.items()]


def derived(b, start):
    """every local that holds something obtained from the given ones"""
    D = set(start)
    while True:
        n = len(D)
        for bb in b['blocks']:
            for s in bb[0]:
                if s[0] == '=' and s[1][0] not in D and any(x[0] in D for x in places(s[2])) and not (s[2][0] == 'discr' and s[2][1][0] in start):
                    D.add(s[1][0])
            t = bb[1]
            if t['k'] == 'call' and t['d'][0] not in D and any(x[0] in D for x in places(t['args'])):
                D.add(t['d'][0])
        if len(D) == n:
            return D


def reaches(b, start, goal, cut):
    """a path of blocks from start to one of goal that enters none of cut"""
    seen, work = {start: None}, [start]
    while work:
        i = work.pop()
        if i in goal:
            p = [i]
            while seen[p[-1]] is not None:
                p.append(seen[p[-1]])
            return p[::-1]
        if i in cut:
            continue
        for j in succ(b['blocks'][i][1]):
            if j not in seen:
                seen[j] = i
                work.append(j)
    return None


MEMBER = re.compile(r'(::any|::contains|::position|::find|::contains_key|::all|::binary_search\w*|::entry|::is_some_and)$')


def d07(ctx):
    """What was tested under a lock is acted on under the same guard."""
    F = ctx.F
    g = graph(ctx)
    ctx.explain.append('Rule: in every body the owned lock guards are grouped by moves and everything obtained from a guard is followed. (1) A constant true stored into a flag behind a lock must come, on every path, after a branch on a value '
                       'read through that same guard; (2) from there every path to a return stores false again (in the body or in a function it calls); (3) a push onto a list behind a lock, in a body that tests membership under another guard of the '
                       'same lock, must be preceded on every path by a membership test under its own guard.')

    def flag_stores(k):
        b = F.fn(k)
        out = []
        for c, m in guard_groups(F, b):
            if c != 'bool':
                continue
            D = derived(b, m)
            for i, bb in enumerate(b['blocks']):
                if len(bb) > 2 and bb[2]:
                    continue
                for s in bb[0]:
                    if s[0] == '=' and s[1][0] in D and '*' in s[1][1:] and b['locals'][s[1][0]][0].replace("'{erased} ", '').endswith('bool') and s[2][0] == 'use':
                        v = s[2][1]
                        if v[0] == 'k' and 'v' in v[1]:
                            out.append((i, bool(v[1].get('v')), D, s[3] if len(s) > 3 else 0))
        return out
    lowers = set()
    bodies = [k for k in sorted(F.index) if g.own(k)]
    has = {}
    for k in bodies:
        b = F.fn(k)
        if any('Guard<' in d[0] for d in b['locals']):
            has[k] = flag_stores(k)
            if any(not v for _, v, _, _ in has[k]):
                lowers.add(k)
    nclaim = nlist = 0
    for k, st in has.items():
        b = F.fn(k)
        ctx.fns.add(pathof(ctx, k))
        for i, v, D, line in st:
            if not v:
                continue
            nclaim += 1
            tests = {j for j, bb in enumerate(b['blocks']) if bb[1]['k'] == 'switch' and any(x[0] in D for x in places(bb[1]['d']))}
            p = reaches(b, 0, {i}, tests)
            ctx.ob(p is None, 'claim: ' + short(pathof(ctx, k)), '%s sets the flag behind the lock without having tested it under the same guard: two callers can both find it clear and both set it' % where(ctx, k, line))
            low = {j for j, w, _, _ in st if not w}
            for j, bb in enumerate(b['blocks']):
                t = bb[1]
                if t['k'] == 'call' and 'f' in t:
                    own, _ = g.targets(t['f'])
                    if any(x in lowers for o in own for x in [o] + sorted(g.reach([o]))[:400]):
                        low.add(j)
            rets = {j for j, bb in enumerate(b['blocks']) if bb[1]['k'] == 'ret' and not (len(bb) > 2 and bb[2])}
            if not low:
                ctx.ob(True, 'release: ' + short(pathof(ctx, k)), undecided='the flag is lowered elsewhere')
                continue
            bad = None
            for s in succ(b['blocks'][i][1]):
                bad = bad or reaches(b, s, rets, low)
            ctx.ob(bad is None, 'release: ' + short(pathof(ctx, k)), '%s sets the flag behind the lock and a path returns without clearing it: every later run is refused' % where(ctx, k, line))
        groups = guard_groups(F, b)
        ds = [(c, derived(b, m)) for c, m in groups]
        for n, (c, D) in enumerate(ds):
            pushes = [(i, bb[1]) for i, bb in enumerate(b['blocks']) if bb[1]['k'] == 'call' and 'f' in bb[1] and re.search(r'Vec::<.*>::push$', bb[1]['f'].get('p', '')) and any(x[0] in D for x in places(bb[1]['args'][:1]))]
            if not pushes:
                continue

            def tested(E):
                return {i for i, bb in enumerate(b['blocks']) if bb[1]['k'] == 'call' and 'f' in bb[1] and MEMBER.search(bb[1]['f'].get('p', '')) and any(x[0] in E for x in places(bb[1]['args'][:1]))}
            other = set().union(*[tested(E) for q, (c2, E) in enumerate(ds) if q != n and c2 == c] or [set()])
            if not other:
                continue
            nlist += 1
            for i, t in pushes:
                p = reaches(b, 0, {i}, tested(D))
                ctx.ob(p is None, 'push: ' + short(pathof(ctx, k)), '%s appends to a list behind a lock whose membership was only tested under an earlier guard: two callers can both find the entry missing and both append it' % where(ctx, k, t['l']))
    ctx.counts['claims'] = nclaim
    ctx.counts['tested appends'] = nlist
    if not nclaim:
        ctx.ob(True, 'claims', undecided='no flag behind a lock is set anywhere')

CHECKS = {'D01': d01, 'D02': d02, 'D03': d03, 'D04': d04, 'D05': d05, 'D06': d06, 'D07': d07, 'P01': p01_mir, 'F02': f02}
