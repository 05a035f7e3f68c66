"""The key-value store as seen by merge logic: reads are functions of the key (and of the pending writes of
the transaction), writes are recorded in order as effects of the path."""
import re
from absint import TRUE, FALSE, UNIT, num
from models import some, ok, err, NONE, OPT, RES, atom, split_res, callf, unk_val, split_opt
from vcommon import canon


def key_of(I, st, v):
    return canon(I.term(st, v))


def row(I, st, k):
    """the stored value under key k"""
    return ('o', 'row(%s)' % k)


def pending(st, k):
    for e in reversed(st.ev):
        if e[0] in ('put', 'del') and e[1] == k:
            return e
    return None


def note(st, *e):
    s = st.copy()
    s.ev = s.ev + (e,)
    return s


def fail(I, st, k, mk):
    """[(state, failed?)]: a storage read may fail"""
    out = []
    for s, tv in I.split_b2(st, atom(I, st, 'dberr(%s)' % k)):
        out.append((s, tv))
    return out


def read(I, st, k, overlay):
    if overlay:
        e = pending(st, k)
        if e:
            return [(st, ok(NONE if e[0] == 'del' else some(e[3])))]
    out = []
    for s, bad in fail(I, st, k, None):
        if bad:
            out.append((s, err(('o', 'dberror'))))
        else:
            out.append((s, ok(('o', 'row(%s)' % k if overlay else 'dbrow(%s)' % k))))
    return out


def m_overlay(I, st, f, args, dty):
    return read(I, st, key_of(I, st, args[2]), True)


def m_get(I, st, f, args, dty):
    return read(I, st, key_of(I, st, args[1]), False)


def m_put(I, st, f, args, dty):
    k = key_of(I, st, args[1])
    v = I.strip(st, args[2])
    return [(note(st, 'put', k, canon(I.term(st, v)), v), UNIT)]


def m_del(I, st, f, args, dty):
    return [(note(st, 'del', key_of(I, st, args[1])), UNIT)]


def m_dbput(I, st, f, args, dty):
    v = I.strip(st, args[2])
    return [(note(st, 'dbput', key_of(I, st, args[1]), canon(I.term(st, v)), v), ok(UNIT))]


def m_dbdel(I, st, f, args, dty):
    return [(note(st, 'dbdel', key_of(I, st, args[1])), ok(UNIT))]


def m_commit(I, st, f, args, dty):
    return [(note(st, 'commit'), ok(UNIT))]


def m_merge(I, st, f, args, dty):
    return [(note(st, 'txn-merge'), UNIT)]


def m_event(I, st, f, args, dty):
    return [(note(st, 'event', canon(I.term(st, args[2]))), ok(('o', 'event_id')))]


def m_bytes_compare(I, st, f, args, dty):
    # decided on its own (K11): three-way comparison
    return [(st, I.sym('cmpb(%s, %s)' % (canon(I.term(st, args[0])), canon(I.term(st, args[1]))), ((-1, 1),)))]


def decoded(I, st, k):
    """the message held in row k: decoding may fail"""
    out = []
    for s, tv in I.split_b2(st, atom(I, st, 'corrupt(%s)' % k)):
        out.append((s, err(('o', 'decode-error')) if tv else ok(('o', 'stored(%s)' % k))))
    return out


def m_message(I, st, f, args, dty):
    k = key_of(I, st, args[2])
    out = []
    for s, r in read(I, st, k, True):
        for s2, var, x in split_res(I, s, r):
            if var == 'Err':
                out.append((s2, err(x)))
                continue
            for s3, v2, y in split_opt(I, s2, x):
                if v2 == 'None':
                    out.append((s3, ok(NONE)))
                else:
                    for s4, m in decoded(I, s3, k):
                        out.append((s4, m if m[2] == 'Err' else ok(some(m[4][0]))))
    return out


def m_decode(I, st, f, args, dty):
    t = canon(I.term(st, args[0]))
    if t.startswith('row(') and t.endswith(').Some'):
        return decoded(I, st, t[4:-6])
    return decoded(I, st, t)


def scan(n, counted=False):
    """prefix scans return up to n rows; counted: how many is a quantity of its own, rows(start of the range)"""
    def m(I, st, f, args, dty):
        a, b = (split_opt(I, st, x) for x in args[1:3])
        lo = 'none' if a[0][2] is None else key_of(I, st, a[0][2])
        hi = 'none' if b[0][2] is None else key_of(I, st, b[0][2])
        st = note(st, 'scan', lo, hi)
        out = []
        live = [st]
        for i in range(n + 1):
            nxt = []
            for s in live:
                if counted:
                    more = []
                    for s2, tv in I.split_b2(s, atom(I, s, 'more%d(%s)' % (i, lo))) if i < n else [(s, 0)]:
                        (more.append(s2) if tv else out.append((s2, ok(TRUE))))
                    if not more:
                        continue
                    s, = more
                else:
                    out.append((s, ok(TRUE)))
                if i == n:
                    continue
                k, v = ('o', 'rowkey%d(%s)' % (i, lo)), ('o', 'rowval%d(%s)' % (i, lo))
                for s2, r in callf(I, s, args[4], [k, v], 'std::result::Result<bool, snapchain::core::error::HubError>'):
                    for s3, var, x in split_res(I, s2, r):
                        if var == 'Err':
                            out.append((s3, err(x)))
                            continue
                        for s4, tv in I.split_b2(s3, I.strip(s3, x)):
                            if tv:
                                out.append((s4, ok(FALSE)))
                            else:
                                nxt.append(s4)
            live = nxt
        return out
    return m


def models(rows=1, counted=False):
    return {
        r'::get_from_db_or_txn$': m_overlay,
        r'RocksDB::get$': m_get,
        r'RocksDbTransactionBatch::put$': m_put,
        r'RocksDbTransactionBatch::delete$': m_del,
        r'RocksDbTransactionBatch::merge$': m_merge,
        r'RocksDB::put$': m_dbput,
        r'RocksDB::del$': m_dbdel,
        r'RocksDB::commit$': m_commit,
        r'message::get_message_by_key$': m_message,
        r'message::message_decode$': m_decode,
        r'storage::util::bytes_compare$': m_bytes_compare,
        r'StoreEventHandler::commit_transaction$': m_event,
        r'RocksDB::for_each_iterator_by_prefix(_paged)?(?:::<.*>)?$': scan(rows, counted),
    }


def effects(o, kinds=('put', 'del', 'dbput', 'dbdel', 'commit')):
    """net effects of a path: the last write of each key, in text"""
    last = {}
    for e in o.st.ev:
        if e[0] in ('put', 'del', 'dbput', 'dbdel') and e[0] in kinds:
            last[e[1]] = e
    return {('put %s = %s' % (e[1], e[2])) if 'put' in e[0] else 'del %s' % e[1] for e in last.values()}


def state(o, *want, **kw):
    """True when the net effects are exactly the wanted ones (each a text or a tuple of alternatives), else a description"""
    got = effects(o)
    left = set(got)
    for w in want:
        alts = [canon(x) for x in (w if isinstance(w, tuple) else (w,))]
        hit = [g for g in left if g in alts]
        if not hit:
            return 'effects %s without %s' % (sorted(x[:150] for x in got), alts[0][:150])
        left.remove(hit[0])
    return True if not left else 'unexpected effect %s' % sorted(x[:200] for x in left)


def oracle(label, *sel, effect=False, kind=None):
    """a callee decided by its own check: its answer is a quantity named by the arguments at the given positions"""
    def m(I, st, f, args, dty):
        nm = '%s(%s)' % (label, ', '.join(re.sub(r'^Some\((\w+)\)$', r'\1', key_of(I, st, args[i])) for i in sel if -len(args) <= i < len(args)))
        if effect:
            st = note(st, 'call', nm)
        return [(st, atom(I, st, nm) if kind == 'bool' else I.sym(nm, kind) if kind else ('o', nm))]
    return m


def calls(o, label=None):
    return [e[1] for e in o.st.ev if e[0] == 'call' and (label is None or e[1].startswith(label + '('))]


def named(sel=None, skip=0, tag=None):
    """callees of one family, each answer named by the callee and its arguments"""
    def m(I, st, f, args, dty):
        n = re.sub(r'::<.*?>', '', f.get('ip') or f['p']).rsplit('::', 1)[-1]
        a = args[skip:] if sel is None else [args[i] for i in sel if i < len(args)]
        nm = '%s(%s)' % ((tag or '') + n, ', '.join(I.term(st, x) for x in a))
        return [(st, ('o', nm))]
    return m
