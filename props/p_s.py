"""Functions decided whole: a committed table says, for every cell of a partition of the inputs, what the function returns and leaves behind."""
import json, os, re
from harness import Row
from vcommon import canon, judge_path, calls, full
import kv, webio
from models import callf, some

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(name):
    return json.load(open(os.path.join(HERE, 'spec', name + '.json')))


def rng(v):
    return ((v, v),) if isinstance(v, int) else tuple((a, b) for a, b in v)


def cached(I, st, f, a, d):
    """a cache filled on demand: what it holds is what the caller puts there for that key"""
    st = kv.note(st, 'call', 'cached(%s, %s)' % (I.term(st, a[0]), I.term(st, a[1])))
    return callf(I, st, a[2], [])


def models_of(oracles, kvrows=None, env=None):
    """callees other checks decide, as named answers: [pattern, kind, label, argument positions]"""
    m = kv.models(kvrows, True) if kvrows is not None else {}
    if env == 'http':
        m.update(webio.models())
    for o in oracles or ():
        pat, kind = o[0], o[1]
        if kind == 'ident':
            m[pat] = (lambda i: lambda I, st, f, a, d: [(st, a[i])])(o[2] if len(o) > 2 else 0)
        elif kind == 'named':
            m[pat] = kv.named(skip=o[2] if len(o) > 2 else 0, tag=o[3] if len(o) > 3 else None)
        elif kind == 'text':
            m[pat] = (lambda t: lambda I, st, f, a, d: [(st, some(('s', t)))])(o[2])
        elif kind == 'cached':
            m[pat] = cached
        elif kind == 'unit':
            m[pat] = lambda I, st, f, a, d: [(st, ('t', ()))]
        elif kind == 'effect':
            m[pat] = kv.oracle(o[2], *o[3], effect=True)
        else:
            m[pat] = kv.oracle(o[2], *o[3], kind={'value': None, 'u8': ((0, 255),), 'i8': ((-128, 127),), 'u32': ((0, 2**32 - 1),), 'u64': ((0, 2**64 - 1),)}.get(kind, kind))
    return m


def pats_of(pats):
    return [(a, rng(b)) for a, b in pats or ()]


def out_of_order(o, before):
    """an effect that came without the one that has to come first"""
    seen = set()
    for e in o.st.ev if before else ():
        n = str(e[1] if len(e) > 1 else e[0]).split('(')[0]
        for a, b in before:
            if n == b and a not in seen:
                return '%s without an earlier %s' % (e[1], a)
        seen.add(n)


def expects(want, words, params, before=()):
    cw = canon(want)

    def f(I, o, k, txt):
        if want == 'Err':
            return True if k == 'err' else 'accepted with %s' % txt[:200] if not calls(txt) - words else False
        if want.startswith('PANIC') or k == 'panic':
            return want.startswith('PANIC') and k == 'panic'
        bad = out_of_order(o, before)
        if bad:
            return bad
        return judge_path(I, o, lambda: full(I, o, params), {cw}, words, elide=lambda t: t)
    return f


def words_of(d):
    words = set()
    for c, w in d['rows']:
        words |= calls(w)
        for q in c:
            words |= calls(q)
    return words | {o[2] for o in d.get('oracles', ()) if len(o) > 2 and isinstance(o[2], str)}


def spec_table(ctx, name, d, more=()):
    words = words_of(d) | set(more)
    e = ctx.entry(d['fn'], [(n, '^' + re.escape(t) + '$') for n, t in d['params']])
    ps = d['params']
    rows = [Row('%d' % i, {q: rng(v) for q, v in c.items()}, expects(w, words, ps, d.get('before', ())), say=w[:300]) for i, (c, w) in enumerate(d['rows'])]
    ctx.table(name, e, rows, models=models_of(d.get('oracles'), d.get('kv'), d.get('env')), pats=pats_of(d.get('pats')))


def decide(*files):
    def check(ctx):
        for f in files:
            ds = load(f)
            words = set().union(*(words_of(d) for d in ds.values()))
            for n, d in ds.items():
                spec_table(ctx, n, d, words if f in WIDE else ())
    check.__doc__ = 'Each function named in spec/%s is interpreted over every cell of the committed partition of its inputs; its result, its writes and the final state of what it was given must be the table\'s.' % ', '.join(x + '.json' for x in files)
    return check


# files whose functions name each other's parts: an answer built of another row's words is that other answer
WIDE = ('http_routes',)


def also(fn, *files):
    """a check of its own, and the functions it leans on decided whole"""
    more = decide(*files)

    def check(ctx):
        fn(ctx)
        more(ctx)
    check.__doc__ = (fn.__doc__ or '') + ' ' + more.__doc__
    return check


CHECKS = {
    'S01': decide('storage_units', 'storage_active'), 'S02': decide('storage_limits', 'limits_more'), 'M01': decide('routing', 'mempool', 'mempool_more'), 'C01': decide('channel_rules'),
    'K13': decide('store_helpers'), 'K14': decide('trie_node', 'trie_keys', 'trie_pages', 'trie_more'), 'R01': decide('rpc_pages', 'rpc_helpers', 'auth', 'errors', 'engine_errors'),
    'N01': decide('validator_sets', 'proposals'), 'H07': decide('http_router', 'http_routes'), 'K15': decide('local_state'), 'O01': decide('replay_order'),
    'G01': decide('store_rules', 'store_types'), 'G02': decide('store_core'), 'G03': decide('replay_txn'), 'G04': decide('engine'),
    'G05': decide('store_index'), 'G06': decide('slot_stores'), 'G07': decide('gasless'), 'G08': decide('onchain_store'), 'G09': decide('chunks', 'stores'), 'G10': decide('account_reads'),
    'N02': decide('consensus_types', 'peer_decode'), 'N03': decide('proposer', 'validator'), 'N04': decide('read_validator'),
    'B01': decide('batch'), 'F01': decide('defaults'), 'W01': decide('chunk_writer', 'boot_files'), 'W02': decide('boot_signatures', 'message_kind'), 'W03': decide('boot_client'), 'X01': decide('connectors', 'fname'), 'X02': decide('mesh', 'mesh_render', 'mesh_more'), 'X03': decide('misc', 'cutoff', 'snapshot_config'),
}

# tables that belong to a property decided elsewhere
ALSO = {'K06': ('event_ids_more',), 'V20': ('asset_id',), 'H06': ('peers',), 'K03': ('key_options', 'migration_rows'), 'P01': ('peer_decode', 'gossip_in'), 'F02': ('config_load',)}
