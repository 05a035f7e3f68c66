"""Version schedule, feature activation and time conversion."""
from harness import Row, between, one, atmost, atleast, POS, NEG, Anchor
from vcommon import enum_ix

A, R = 'accept', 'reject'
EV = 'snapchain::version::version::EngineVersion'
ON = {5: 'FarcasterPro Basenames EnsValidation MessageLengthCheckFix UsernameShardRoutingFix PrimaryAddresses', 6: 'FutureTimestampValidation', 7: 'DependentMessagesInBulkSubmit', 8: 'DecoupleShardZeroBlockProduction',
      9: 'WriteDataToShardZero', 10: 'ReadDataFromShardZero UserProfileToken', 11: 'StorageLending', 12: 'EventIdBugFix', 13: 'StorageLendingLimitFix', 14: 'StopRevokingExistingMessages', 15: 'IncreaseUsernameProofSizeLimit',
      16: 'GaslessSigners', 17: 'LiveAt', 18: 'StorageExpiryExtension2026', 19: 'BlockLinks', 20: 'IncreaseEmbedLimitForAllUsers',
      21: 'ChannelRegistrations SortedBlockEngineEvents ChannelOwnershipEvents ChannelMessages VerificationsOnShardZero ChannelFollows'}
MAIN = [(0, 0), (1747333800, 1), (1747352400, 2), (1747356000, 3), (1747417200, 4), (1750093200, 5), (1752685200, 6), (1756141200, 7), (1756918800, 8), (1757523600, 9), (1758733200, 10), (1759942800, 11), (1759942800, 12), (1759942800, 13),
        (1761757200, 14), (1765386000, 15), (1778173200, 16), (1780592400, 17), (1782147600, 18), (1785160800, 19), (1786640400, 20)]
TEST = [(0, 0), (1748970000, 5), (1752099060, 6), (1755291600, 7), (1755709200, 8), (1756918800, 9), (1757523600, 10), (1758733200, 11), (1758763200, 12), (1758906000, 13), (1761152400, 14), (1764783794, 15), (1777406400, 16), (1779382800, 17),
        (1781283600, 18), (1784124000, 19), (1786035600, 20)]
PROTO = [1] * 5 + [2, 3, 4, 5, 6, 7, 8, 8, 8, 9, 10, 11, 12, 13, 13, 13, 13]
EPOCH = 1609459200
BIG = 2 ** 40


def V(ctx, i):
    a = ctx.F.adt(EV)
    if a is None or 'V%d' % i not in a['byname']:
        raise Anchor('engine version %d not found' % i)
    return a['byname']['V%d' % i][0]


def tf(ctx):
    from vcommon import timefield
    return timefield(ctx)


def returns(want):
    def f(I, o, k, txt):
        return True if txt == want else 'result %s' % txt[:200]
    return f


def feat(ctx, f):
    a = ctx.F.adt('snapchain::version::version::ProtocolFeature')
    if a is None or f not in a['byname']:
        raise Anchor('protocol feature %s not found' % f)
    return a['byname'][f][0]


def e01(ctx):
    """The (feature, version) grid is enumerated completely; each of its cells is interpreted through the compiled predicate and compared with the published activation version."""
    e = ctx.entry(EV + '::is_enabled', [('self', r'EngineVersion$'), ('feature', r'ProtocolFeature$')])
    if e.missing:
        raise Anchor(e.missing)
    rows, known = [], {'SignerRevokeBug'}
    nv = len(ctx.F.adt(EV)['variants'])
    bug = [V(ctx, 1), V(ctx, 3)]
    rows.append(Row('SignerRevokeBug/on', {'discr(feature)': one(feat(ctx, 'SignerRevokeBug')), 'discr(self)': one(*bug)}, A))
    rows.append(Row('SignerRevokeBug/off', {'discr(feature)': one(feat(ctx, 'SignerRevokeBug')), 'discr(self)': one(*[i for i in range(nv) if i not in bug])}, R))
    for v, fs in ON.items():
        for f in fs.split():
            known.add(f)
            c = {'discr(feature)': one(feat(ctx, f))}
            rows.append(Row('%s/before' % f, dict(c, **{'discr(self)': between(0, V(ctx, v) - 1)}), R))
            rows.append(Row('%s/since' % f, dict(c, **{'discr(self)': between(V(ctx, v), nv - 1)}), A))
    ctx.table('grid', e, rows)
    ctx.floor('protocol features', len(known), 29)


def sched(ctx, rows, s, net, t, tag, e):
    """one row per half-open interval between consecutive activation instants"""
    cuts = sorted({a for a, _ in s})
    for i, a in enumerate(cuts):
        v = max(v for x, v in s if x <= a)
        lo, hi = max(a - EPOCH, 0), (cuts[i + 1] - 1 - EPOCH if i + 1 < len(cuts) else BIG)
        nxt = cuts[i + 1] if i + 1 < len(cuts) else None
        rows.append(Row('%s/from-%d' % (tag, a), {'discr(network)': net, 'time.' + t: between(lo, hi)}, returns('V%d' % v) if e == 'v' else returns('Some(%d)' % nxt if nxt else 'None'), say='V%d' % v if e == 'v' else str(nxt)))


def e02(ctx):
    """Time is cut at every published activation instant of each network; for every interval (all 64-bit times up to 2^40 seconds) the compiled lookup is interpreted and must yield exactly the published version, and the compiled 'next upgrade' lookup exactly the next instant."""
    t = tf(ctx)
    mn, tn = enum_ix(ctx, 'FarcasterNetwork', 'Mainnet'), enum_ix(ctx, 'FarcasterNetwork', 'Testnet')
    dn = [i for i in range(len(ctx.F.adt('snapchain_proto::FarcasterNetwork')['variants'])) if i not in (mn, tn)]
    for fn, k in (('version_for', 'v'), ('next_version_timestamp_for', 'n')):
        e = ctx.entry('%s::%s' % (EV, fn), [('time', r'FarcasterTime$'), ('network', r'FarcasterNetwork$')])
        rows = []
        sched(ctx, rows, MAIN, one(mn), t, 'mainnet', k)
        sched(ctx, rows, TEST, one(tn), t, 'testnet', k)
        sched(ctx, rows, [(0, 21)], one(*dn), t, 'devnet', k)
        ctx.table(fn, e, rows)
    # the lookup a replication snapshot is gated by
    e = ctx.entry(EV + '::channel_messages_enabled_for_snapshot', [('ts', r'^u64$'), ('network', r'FarcasterNetwork$')])
    ctx.table('snapshot-gate', e, [Row('mainnet', {'discr(network)': one(mn), 'ts': between(0, BIG)}, R), Row('testnet', {'discr(network)': one(tn), 'ts': between(0, BIG)}, R), Row('devnet', {'discr(network)': one(*dn), 'ts': between(0, BIG)}, A)])


def e03(ctx):
    """Each engine version is mapped through the compiled advertised-protocol function; the result must be the published number, and the sequence must never decrease."""
    e = ctx.entry(EV + '::protocol_version', [('self', r'EngineVersion$')])
    ctx.table('protocol', e, [Row('V%d' % i, {'discr(self)': one(V(ctx, i))}, returns(str(p)), say=str(p)) for i, p in enumerate(PROTO)])


def e04(ctx):
    """The five consensus-coupled channel features are evaluated over all engine versions and must have one common activation point; on every network and at every time at which follows are active the compiled registrar lookup must yield a registrar."""
    e = ctx.entry(EV + '::is_enabled', [('self', r'EngineVersion$'), ('feature', r'ProtocolFeature$')])
    from absint import Interp, Spec
    if e.missing:
        raise Anchor(e.missing)

    def on(f, v):
        I = Interp(ctx.F, Spec(cell={'discr(self)': one(v), 'discr(feature)': one(feat(ctx, f))}))
        r = {I.term(o.st, o.val) if o.kind == 'ret' else 'panic' for o in I.run(e.fn, list(e.args))}
        ctx.fns.update(I.used_fns)
        return r
    five = ['ChannelRegistrations', 'SortedBlockEngineEvents', 'ChannelOwnershipEvents', 'ChannelMessages', 'VerificationsOnShardZero']
    ix = [V(ctx, i) for i in range(22)]
    for v in ix:
        r = [on(f, v) for f in five]
        ctx.ob(all(x == r[0] and len(x) == 1 for x in r), 'co-activation/V%d' % v, 'the channel features disagree at this version: %s' % dict(zip(five, map(sorted, r))))
    # follows and the registrar, per network
    t = tf(ctx)
    ve = ctx.entry(EV + '::version_for', [('time', r'FarcasterTime$'), ('network', r'FarcasterNetwork$')])
    re_ = ctx.entry('snapchain::core::channel_uri::channel_registrar_for_network', [('net', r'FarcasterNetwork$')])
    if ve.missing or re_.missing:
        raise Anchor(ve.missing or re_.missing)
    fol = {v for v in ix if on('ChannelFollows', v) != {'0'}}
    ctx.floor('versions with follows', len(fol), 1)
    for n, vv in enumerate(ctx.F.adt('snapchain_proto::FarcasterNetwork')['variants']):
        I = Interp(ctx.F, Spec(cell={'discr(network)': one(n), 'time.' + t: between(0, BIG)}))
        reach = {I.term(o.st, o.val) for o in I.run(ve.fn, list(ve.args)) if o.kind == 'ret'}
        ctx.fns.update(I.used_fns)
        if vv['n'] == 'None' or not any(r == 'V%d' % i and V(ctx, i) in fol for r in reach for i in range(22)):
            ctx.ob(True, 'registrar/' + vv['n'])
            continue
        I = Interp(ctx.F, Spec(cell={'discr(net)': one(n)}))
        rs = [I.term(o.st, o.val) if o.kind == 'ret' else 'panic' for o in I.run(re_.fn, list(re_.args))]
        ctx.ob(bool(rs) and all(r.startswith('Some(') for r in rs), 'registrar/' + vv['n'], 'channel follows are scheduled on this network but its registrar is %s' % rs)


def t01(ctx):
    """Every conversion is interpreted over the whole range in which it is defined; the symbolic result must be the specified affine function of the input, which makes the conversions mutually inverse by construction."""
    t = tf(ctx)
    U = 'snapchain::core::util::'
    F = U + 'FarcasterTime::'
    e = ctx.entry(F + 'from_unix_seconds', [('x', r'^u64$')])
    ctx.table('from-unix', e, [Row('all', {'x': atleast(EPOCH)}, returns('FarcasterTime{%s: x - %d}' % (t, EPOCH)), say='x - epoch')])
    e = ctx.entry(F + 'to_unix_seconds', [('x', r'FarcasterTime$')])
    ctx.table('to-unix', e, [Row('all', {'x.' + t: between(0, 2 ** 60)}, returns('x.%s + %d' % (t, EPOCH)), say='x + epoch')])
    e = ctx.entry(F + 'to_u64', [('x', r'FarcasterTime$')])
    ctx.table('raw', e, [Row('all', {}, returns('x.' + t), say='x')])
    e = ctx.entry(F + 'new', [('x', r'^u64$')])
    ctx.table('new', e, [Row('all', {}, returns('FarcasterTime{%s: x}' % t), say='x')])
    for nm, sg, c in (('incr_by', '+', {'x.' + t: between(0, 2 ** 60), 's': between(0, 2 ** 60)}), ('decr_by', '-', {'x.%s - s' % t: between(0, 2 ** 63), 'x.' + t: between(0, 2 ** 60)})):
        e = ctx.entry(F + nm, [('x', r'FarcasterTime$'), ('s', r'^u64$')])
        w = {'FarcasterTime{%s: x.%s %s s}' % (t, t, sg), 'FarcasterTime{%s: s + x.%s}' % (t, t)} if sg == '+' else {'FarcasterTime{%s: x.%s - s}' % (t, t), 'FarcasterTime{%s: -s + x.%s}' % (t, t)}

        def f(I, o, k, txt, w=w):
            return True if txt in w else 'result %s' % txt
        ctx.table(nm, e, [Row('all', c, f, say='x %s s' % sg)])
    e = ctx.entry(U + 'to_farcaster_time', [('ms', r'^u64$')])
    M = EPOCH * 1000
    ctx.table('ms-to-farcaster', e, [Row('before-epoch', {'ms': between(0, M - 1)}, R), Row('too-late', {'ms': atleast(M + 2 ** 32 * 1000)}, R),
                                     Row('ok', {'ms': between(M, M + 2 ** 32 * 1000 - 1)}, returns('Ok((ms - %d / 1000))' % M), say='whole seconds since the epoch')])
    e = ctx.entry(U + 'from_farcaster_time', [('x', r'^u64$')])
    ctx.table('farcaster-to-ms', e, [Row('all', {'x': between(0, 2 ** 33)}, returns('1000*x + %d' % M), say='1000 x + epoch in ms')])


CHECKS = {'E01': e01, 'E02': e02, 'E03': e03, 'E04': e04, 'T01': t01}
