"""Admission: what the engines require of a user message before merging it."""
import re
from harness import Row, between, one, atmost, atleast, POS, NEG, Anchor
from vcommon import enum_ix, canon, MT, variant_index
from p_e import V
import kv

A, R = 'accept', 'reject'
S = 'snapchain::storage::store::'
SHARD, BLOCK = S + 'engine::ShardEngine::', S + 'block_engine::BlockEngine::'
U32 = between(0, 2 ** 32 - 1)
D = 'message.data.Some'
VOC = [r'^discr\((?:pro|valid|idreg|key|username|ethown|solown|bump|chval|slot|vkey)\(', r'^admits\(']


def oracles(shard=True):
    m = {
        r'(?:Stores|OnchainEventStore)::(?:is_pro_user|is_tier_subscription_active_at)$': kv.oracle('pro', -2, -1),
        r'validations::message::validate_message$': kv.oracle('valid', 0, 1, 2, 3, 4),
        r'OnchainEventStore::get_id_register_event_by_fid$': kv.oracle('idreg', 1, 2),
        r'active_key::get_active_key$': kv.oracle('key', 2, 3, 4),
        r'ActiveKey::admits$': kv.oracle('admits', 0, 1, kind='bool'),
        r'check_and_bump_last_used_at$': kv.oracle('bump', 2, 3, 4, 5, 6, effect=True),
        r'ShardEngine::validate_username$': kv.oracle('username', 1, 2),
        r'ShardEngine::validate_ethereum_address_ownership$': kv.oracle('ethown', 1, 2),
        r'ShardEngine::validate_solana_address_ownership$': kv.oracle('solown', 1, 2),
        r'BlockEngine::validate_channel_message$': kv.oracle('chval', 1),
        r'BlockStores::get_storage_slot_for_fid$': kv.oracle('slot', 1, 3, 4, 5),
        r'BlockEngine::verification_logical_key_type$': kv.oracle('vkey', 1, 2),
        r'StatsdClient|time_with_shard$': kv.oracle('metric'),
    }
    return m


def mt(ctx, *names):
    a = ctx.F.adt('snapchain_proto::MessageType')
    if not a:
        raise Anchor('message types not found')
    d = {v['n']: v['d'] for v in a['variants']}
    return [d.get(n) for n in names]


def udt(ctx, n):
    a = ctx.F.adt('snapchain_proto::UserDataType')
    d = {v['n']: v['d'] for v in a['variants']} if a else {}
    if n not in d:
        raise Anchor('user data type %s not found' % n)
    return d[n]


USER = ['CastAdd', 'CastRemove', 'ReactionAdd', 'ReactionRemove', 'LinkAdd', 'LinkRemove', 'UserDataAdd', 'UsernameProof', 'LinkCompactState']
BODY = {'CastAdd': 'CastAddBody', 'CastRemove': 'CastRemoveBody', 'ReactionAdd': 'ReactionBody', 'ReactionRemove': 'ReactionBody', 'LinkAdd': 'LinkBody', 'LinkRemove': 'LinkBody',
        'UserDataAdd': 'UserDataBody', 'UsernameProof': 'UsernameProofBody', 'LinkCompactState': 'LinkCompactStateBody', 'VerificationAddEthAddress': 'VerificationAddAddressBody',
        'VerificationRemove': 'VerificationRemoveBody', 'LendStorage': 'LendStorageBody', 'KeyAdd': 'KeyAddBody', 'KeyRemove': 'KeyRemoveBody', 'ChannelUpdate': 'ChannelUpdateBody',
        'ChannelMember': 'ChannelMemberBody', 'ChannelPin': 'ChannelPinBody', 'ChannelModerate': 'ChannelModerateBody'}

# the answers to the questions the engine asks, for the author and signer of the message and no other
GOODPRO = [(r'^discr\(pro\(%s\.fid, timestamp\)\)$' % re.escape(D), one(0))]
GOODVAL = [(r'^discr\(valid\(message, self(?:\.stores)?\.network, pro\(%s\.fid, timestamp\)\.Ok, timestamp, version\)\)$' % re.escape(D), one(0))]


def idreg(ok=0, some=1, txn='txn_batch'):
    q = r'idreg\(%s\.fid, (?:Some\()?%s\)?\)' % (re.escape(D), txn)
    return [(r'^discr\(%s\)$' % q, one(ok)), (r'^discr\(%s\.Ok\)$' % q, one(some))]


def key(ok=0, some=1, kind=None, txn='txn_batch'):
    q = r'key\(%s, %s\.fid, message\.signer\)' % (txn, re.escape(D))
    out = [(r'^discr\(%s\)$' % q, one(ok)), (r'^discr\(%s\.Ok\)$' % q, one(some))]
    if kind is not None:
        out.append((r'^discr\(%s\.Ok\.Some\)$' % q, one(kind)))
    return out


def admits(yes=1, ttype=None):
    return [(r'^admits\(key\(.*\)\.Ok\.Some, .*\)$', one(yes))]


KEYQ = 'key(%s, %s.fid, message.signer)'
TTL = [(r'.*\.ttl_seconds$', atleast(1))]


def adm_expect(bump):
    """accepted, and the last-use time of the signing key was checked and advanced exactly when due"""
    def f(I, o, k, txt):
        if k != 'ok':
            return False
        c = kv.calls(o, 'bump')
        if not bump:
            return True if not c else 'last-use update %s' % c[0]
        want = re.compile(r'^bump\(%s\.fid, message\.signer, key\(.*, %s\.fid, message\.signer\)\.Ok\.Some(?:\.Gasless)?\.ttl_seconds, %s\.timestamp, (?:timestamp(?:\.\w+)?)\)$' % (re.escape(D), re.escape(D), re.escape(D)))
        return True if len(c) == 1 and want.match(c[0]) else 'last-use update %s' % (c or 'missing')
    return f


def a01(ctx):
    """The data shard's admission function is interpreted with its questions to stores and validators as unknowns; every cell in which one required answer is missing must end in an error, and every cell with all of them must be accepted."""
    e = ctx.entry(SHARD + 'validate_user_message', [('message', r'Message$'), ('timestamp', r'FarcasterTime$'), ('version', r'EngineVersion$'), ('txn_batch', r'RocksDbTransactionBatch$'), ('self', r'ShardEngine$')])
    since = lambda v: between(V(ctx, v), V(ctx, 21))
    before = lambda v: between(0, V(ctx, v) - 1)
    rows = []

    def cell(t, v=None, **kw):
        c = {'discr(message.data)': one(1), D + '.type': one(mt(ctx, t)[0]), 'discr(%s.body)' % D: one(1), 'discr(%s.body.Some)' % D: one(variant_index(ctx, BODY[t])), D + '.fid': U32}
        c['discr(version)'] = v or since(16)
        if t == 'UserDataAdd':
            c[D + '.body.Some.UserDataBody.type'] = one(2)
        for k2, v2 in kw.items():
            c[k2] = v2
        return c
    bump0 = [(r'^discr\(bump\(.*\)\)$', one(0))]
    good = GOODPRO + GOODVAL + idreg() + key(kind=0) + admits() + bump0
    gas = GOODPRO + GOODVAL + idreg() + key(kind=1) + admits() + TTL + bump0
    for t in USER:
        rows.append(Row('%s/on-chain key' % t, cell(t), adm_expect(False), pats=good, say='acceptance with no last-use update'))
        rows.append(Row('%s/gasless key' % t, cell(t), adm_expect(True), pats=gas, say='acceptance with the signing key\'s last use checked and advanced'))
        rows.append(Row('%s/invalid' % t, cell(t), R, pats=GOODPRO + [(r'^discr\(valid\([^|]*\)\)$', one(1))]))
        rows.append(Row('%s/pro unknown' % t, cell(t), R, pats=[(r'^discr\(pro\(.*\)\)$', one(1))]))
        rows.append(Row('%s/fid unregistered' % t, cell(t), R, pats=GOODPRO + GOODVAL + idreg(some=0) + key(kind=0) + admits()))
        rows.append(Row('%s/fid lookup fails' % t, cell(t), R, pats=GOODPRO + GOODVAL + idreg(ok=1) + key(kind=0) + admits()))
        rows.append(Row('%s/signer inactive' % t, cell(t), R, pats=GOODPRO + GOODVAL + idreg() + key(some=0) + admits()))
        rows.append(Row('%s/signer lookup fails' % t, cell(t), R, pats=GOODPRO + GOODVAL + idreg() + key(ok=1) + admits()))
        rows.append(Row('%s/out of scope' % t, cell(t), R, pats=GOODPRO + GOODVAL + idreg() + key(kind=1) + admits(0) + TTL + bump0))
        rows.append(Row('%s/key expired' % t, cell(t), R, pats=GOODPRO + GOODVAL + idreg() + key(kind=1) + admits() + TTL + [(r'^discr\(bump\(.*\)\)$', one(1))]))
    for t in ('KeyAdd', 'KeyRemove'):
        rows.append(Row('%s/since V16' % t, cell(t, since(16)), adm_expect(False), pats=GOODPRO + GOODVAL + idreg(), say='acceptance (authenticated when merged)'))
        rows.append(Row('%s/before V16' % t, cell(t, before(16)), R, pats=GOODPRO + GOODVAL + [(r'^discr\(idreg\([^.]*\.Some\.fid, [^.]*\)\)$', one(0)), (r'^discr\(idreg\(.*\)\.Ok\)$', one(1))]))
        rows.append(Row('%s/invalid' % t, cell(t), R, pats=GOODPRO + [(r'^discr\(valid\([^|]*\)\)$', one(1))]))
        rows.append(Row('%s/fid unregistered' % t, cell(t), R, pats=GOODPRO + GOODVAL + idreg(some=0)))
    anykey = [(r'^discr\((?:idreg|key|bump)\([^|]*\)\)$', one(0)), (r'^discr\((?:idreg|key)\(.*\)\.Ok\)$', one(1)), (r'^admits\(', one(1))]
    allv = between(0, V(ctx, 21))
    for t in ('LendStorage', 'ChannelUpdate', 'ChannelMember', 'ChannelPin', 'ChannelModerate'):
        rows.append(Row('%s/shard 0 only' % t, cell(t, allv), R, pats=GOODPRO + GOODVAL + anykey))
    for t in ('VerificationAddEthAddress', 'VerificationRemove'):
        rows.append(Row('%s/since V21' % t, cell(t, since(21)), R, pats=GOODPRO + GOODVAL + anykey))
        rows.append(Row('%s/before V21' % t, cell(t, between(V(ctx, 7), V(ctx, 20))), adm_expect(False), pats=good, say='acceptance'))
    for n, ty, q in (('username', 6, 'username'), ('eth primary', 11, 'ethown'), ('sol primary', 12, 'solown')):
        tyn = udt(ctx, {'username': 'Username', 'eth primary': 'UserDataPrimaryAddressEthereum', 'sol primary': 'UserDataPrimaryAddressSolana'}[n])
        c = cell('UserDataAdd')
        ud = D + '.body.Some.UserDataBody'
        c[ud + '.type'] = one(tyn)
        want = r'^discr\(%s\(%s\.fid, %s\.value\)\)$' % (q, re.escape(D), re.escape(ud))
        rows.append(Row('%s/owned' % n, c, adm_expect(False), pats=good + [(want, one(0))], say='acceptance'))
        rows.append(Row('%s/not owned' % n, c, R, pats=good + [(want, one(1))]))
    rows.append(Row('no data', {'discr(message.data)': one(0)}, R))
    # before V7 the reads do not see the pending writes; the last-use update still lands on the real batch
    fid = re.escape(D) + r'\.fid'
    iso = [(r'^discr\(idreg\(%s, (?:Some\()?txn_batch\)?\)\)$' % fid, one(1)), (r'^discr\(key\(txn_batch, .*signer\)\)$', one(1)),
           (r'^discr\(idreg\(%s, (?!.*txn_batch).*\)\)$' % fid, one(0)), (r'^discr\(idreg\(.*\)\.Ok\)$', one(1)), (r'^discr\(key\((?!txn_batch).*, message\.signer\)\)$', one(0)), (r'^discr\(key\(.*\)\.Ok\)$', one(1)),
           (r'^discr\(key\(.*\)\.Ok\.Some\)$', one(0))]
    rows.append(Row('reads isolated before V7', cell('CastAdd', before(7)), adm_expect(False), pats=GOODPRO + GOODVAL + iso + admits(), say='acceptance without reading the pending batch'))
    ctx.table('admission', e, rows, models=dict(kv.models(), **oracles()), vocab=VOC)


CHECKS = {'A01': a01}


def a02(ctx):
    """The shard-0 admission function, the same way: every cell in which a required answer is missing or a cap is reached must be refused, every other cell accepted."""
    e = ctx.entry(BLOCK + 'validate_user_message_with_verification_counts', [('message', r'Message$'), ('slot', r'StorageSlot$'), ('timestamp', r'FarcasterTime$'), ('version', r'EngineVersion$'),
                  ('txn_batch', r'RocksDbTransactionBatch$'), ('counts', r'VerificationMessageCounts$'), ('self', r'BlockEngine$')])
    since = lambda v: between(V(ctx, v), V(ctx, 21))
    before = lambda v: between(0, V(ctx, v) - 1)
    allv = between(0, V(ctx, 21))
    rows = []
    OKMIX = one(0, 1)
    TSV = D + '.timestamp'
    V21T = None

    def cell(t, v=None, body=None, **kw):
        c = {'discr(message.data)': one(1), D + '.type': one(mt(ctx, t)[0]), 'discr(%s.body)' % D: one(1), 'discr(%s.body.Some)' % D: one(variant_index(ctx, body or BODY[t])), D + '.fid': U32,
             'slot.units_2024': one(0), 'slot.units_legacy': one(0), 'slot.units_2025': between(0, 10 ** 6), 'discr(self.network)': one(3)}
        c['discr(version)'] = v or since(21)
        c.update(kw)
        return c
    bump0 = [(r'^discr\(bump\(.*\)\)$', one(0))]
    base = GOODPRO + GOODVAL + idreg()
    good = base + key(kind=0) + admits() + bump0
    gas = base + key(kind=1) + admits() + TTL + bump0
    live, tomb, u = 'counts.live_adds', 'counts.tombstones', 'slot.units_2025'
    small = {u: between(1, 51)}      # 5u <= 255: the tombstone floor of 256 applies
    big = {u: between(52, 10 ** 6)}

    def vk(some, ty=None):
        out = [(r'^discr\(vkey\(.*\)\)$', one(0)), (r'^discr\(vkey\(.*\)\.Ok\)$', one(some))]
        if some:
            out.append((r'^discr\(vkey\(.*\)\.Ok\.Some\)$', one(enum_ix(ctx, 'MessageType', ty))))
        return out
    ADD, REM = 'VerificationAddEthAddress', 'VerificationRemove'
    # devnet: every version since the first is active from the start of time, so the embedded time is always admissible
    ver = []

    def vrow(name, t, c, exp, ex):
        ver.append(Row(name, cell(t, **c), exp, pats=good + ex, **({'say': 'acceptance'} if callable(exp) else {})))
    acc = adm_expect(False)
    vrow('add over add', ADD, dict(small), acc, vk(1, ADD))
    for n, c5 in (('small', small), ('big', big)):
        under, at = {'%s - 5*%s' % (live, u): atmost(-1)}, {'%s - 5*%s' % (live, u): atleast(0)}
        vrow('add over remove/%s/under limit' % n, ADD, dict(c5, **under), acc, vk(1, REM))
        vrow('add over remove/%s/at limit' % n, ADD, dict(c5, **at), R, vk(1, REM))
        vrow('new add/%s/at limit' % n, ADD, dict(c5, **at), R, vk(0))
    rows_small = '%s + %s - 5*%s' % (live, tomb, u)
    rows_big = '%s + %s - 10*%s' % (live, tomb, u)
    und = {'%s - 5*%s' % (live, u): atmost(-1), live: between(0, 2 ** 31), tomb: between(0, 2 ** 31)}
    vrow('new add/small/room', ADD, dict(small, **dict(und, **{rows_small: atmost(255)})), acc, vk(0))
    vrow('new add/small/rows full', ADD, dict(small, **dict(und, **{rows_small: atleast(256)})), R, vk(0))
    vrow('new add/big/room', ADD, dict(big, **dict(und, **{rows_big: atmost(-1)})), acc, vk(0))
    vrow('new add/big/rows full', ADD, dict(big, **dict(und, **{rows_big: atleast(0)})), R, vk(0))
    for ty in (None, ADD, REM):
        vrow('add without storage/%s' % ty, ADD, {u: one(0)}, R, vk(1, ty) if ty else vk(0))
    for n, c5 in (('none', {u: one(0)}), ('small', small), ('big', big)):
        for ty in (ADD, REM):
            vrow('remove over %s/%s' % ('add' if ty == ADD else 'remove', n), REM, dict(c5), acc, vk(1, ty))
    B31 = {live: between(0, 2 ** 31), tomb: between(0, 2 ** 31)}
    vrow('new remove/none', REM, {u: one(0)}, R, vk(0))
    vrow('new remove/small/room', REM, dict(small, **dict(B31, **{tomb: between(0, 255), rows_small: atmost(255)})), acc, vk(0))
    vrow('new remove/small/tombstones full', REM, dict(small, **{tomb: atleast(256)}), R, vk(0))
    vrow('new remove/small/rows full', REM, dict(small, **dict(B31, **{rows_small: atleast(256)})), R, vk(0))
    vrow('new remove/big/room', REM, dict(big, **dict(B31, **{'%s - 5*%s' % (tomb, u): atmost(-1), rows_big: atmost(-1)})), acc, vk(0))
    vrow('new remove/big/tombstones full', REM, dict(big, **{'%s - 5*%s' % (tomb, u): atleast(0)}), R, vk(0))
    vrow('new remove/big/rows full', REM, dict(big, **dict(B31, **{rows_big: atleast(0)})), R, vk(0))
    vrow('lookup fails', REM, dict(big), R, [(r'^discr\(vkey\(.*\)\)$', one(1))])
    for t in (ADD, REM):
        vrow('%s/before V21' % t, t, {'discr(version)': before(21)}, R, vk(1, ADD))
        wrong = [x for x in BODY if x != t and x not in (ADD, REM)] + [REM if t == ADD else ADD]
        for w in ('KeyAdd', 'CastAdd', REM if t == ADD else ADD):
            vrow('%s typed %s' % (BODY[t], w), w, dict(small, **{'discr(%s.body.Some)' % D: one(variant_index(ctx, BODY[t]))}), R, vk(1, ADD))
        # mainnet: a message whose own time precedes activation is refused however new the block
        main = {'discr(self.network)': one(1)}
        ver.append(Row('%s/own time before activation' % t, cell(t, **dict(small, **main)), R, pats=good + vk(1, ADD)))
    ctx.table('verifications', e, ver, models=dict(kv.models(), **oracles()), vocab=VOC)

    for t in ('KeyAdd', 'KeyRemove'):
        rows.append(Row('%s/since V16' % t, cell(t, since(16)), acc, pats=base, say='acceptance (authenticated when merged)'))
        rows.append(Row('%s/before V16' % t, cell(t, before(16)), R, pats=base))
    CH = ('ChannelUpdate', 'ChannelMember', 'ChannelPin', 'ChannelModerate')
    chv = lambda x: [(r'^discr\(chval\(%s\)\)$' % re.escape(D), one(x)), (r'^discr\(chval\(.*\)\.Ok\)$', one(0))]
    for t in CH:
        rows.append(Row('%s/admissible' % t, cell(t), acc, pats=good + chv(0), say='acceptance'))
        rows.append(Row('%s/refused by channel rules' % t, cell(t), R, pats=good + chv(1)))
        rows.append(Row('%s/before V21' % t, cell(t, before(21)), R, pats=good + chv(0)))
        rows.append(Row('%s typed LendStorage' % BODY[t], cell('LendStorage', body=BODY[t]), R, pats=good + chv(1)))
        rows.append(Row('LendStorageBody typed %s' % t, cell(t, body='LendStorageBody'), R, pats=good + chv(1)))
    lend = D + '.body.Some.LendStorageBody'
    LT = lend + '.unit_type'
    slotq = r'^discr\(slot\(%s\.fid, .*, 0, 0\)\)$' % re.escape(D)
    for i, f in ((0, 'units_legacy'), (1, 'units_2024'), (2, 'units_2025')):
        c = {LT: one(i), lend + '.num_units': between(0, 2 ** 31 - 1), 'slot.units_2024': U32, 'slot.units_legacy': U32, 'slot.units_2025': U32}
        need = '%s.num_units - slot.%s' % (lend, f)
        got = [(slotq, one(1))]
        bought = r'^slot\(.*\)\.Some\.%s$' % f
        rows.append(Row('lend %s/all but one unit' % f, cell('LendStorage', since(13), **dict(c, **{need: atmost(-1)})), acc, pats=good + got, say='acceptance'))
        rows.append(Row('lend %s/last unit' % f, cell('LendStorage', since(13), **dict(c, **{need: atleast(0)})), R, pats=good + got))
        rows.append(Row('lend %s/more than held before V13' % f, cell('LendStorage', before(13), **dict(c, **{need: atleast(1)})), R, pats=good + got))
        rows.append(Row('lend %s/purchases unknown' % f, cell('LendStorage', **c), R, pats=good + [(slotq, one(0))]))
        m = dict(c, **{'discr(self.network)': one(1), need: atmost(-1)})
        rows.append(Row('lend %s/mainnet lender bought 1000' % f, cell('LendStorage', since(13), **m), acc, pats=good + got + [(bought, atleast(1000))], say='acceptance'))
        rows.append(Row('lend %s/mainnet lender bought fewer' % f, cell('LendStorage', since(13), **m), R, pats=good + got + [(bought, atmost(999))]))
    okay = [(r'^discr\(slot\(.*\)\)$', one(1))] + chv(0) + vk(1, ADD)
    for t, c in (('LendStorage', {LT: one(2), lend + '.num_units': one(1), 'slot.units_2025': one(50)}), ('ChannelMember', {}), (REM, small)):
        rows.append(Row('%s/gasless key' % t, cell(t, **c), adm_expect(True), pats=gas + okay, say='acceptance with the signing key\'s last use checked and advanced'))
        rows.append(Row('%s/invalid' % t, cell(t, **c), R, pats=GOODPRO + okay + [(r'^discr\(valid\([^|]*\)\)$', one(1))]))
        rows.append(Row('%s/fid unregistered' % t, cell(t, **c), R, pats=GOODPRO + GOODVAL + okay + idreg(some=0) + key(kind=0) + admits()))
        rows.append(Row('%s/signer inactive' % t, cell(t, **c), R, pats=base + okay + key(some=0) + admits()))
        rows.append(Row('%s/out of scope' % t, cell(t, **c), R, pats=base + okay + key(kind=1) + admits(0) + TTL + bump0))
        rows.append(Row('%s/key expired' % t, cell(t, **c), R, pats=base + okay + key(kind=1) + admits() + TTL + [(r'^discr\(bump\(.*\)\)$', one(1))]))
    for t in USER:
        rows.append(Row('%s/not a shard 0 message' % t, cell(t, allv), R, pats=good))
    rows.append(Row('no data', {'discr(message.data)': one(0)}, R))
    rows.append(Row('no body', {'discr(message.data)': one(1), 'discr(%s.body)' % D: one(0), D + '.type': one(1)}, R, pats=good))
    ctx.table('admission', e, rows, models=dict(kv.models(), **oracles()), vocab=VOC)


CHECKS['A02'] = a02


# ------------------------------------------------------------------ channel authority

def discr_of(ctx, enum, path='snapchain_proto::'):
    a = ctx.F.adt(path + enum)
    if not a:
        raise Anchor('%s not found' % enum)
    return {v['n']: v['d'] for v in a['variants']}


def decide(action, role, target, is_self, mode, towner):
    """the channel authority table"""
    if action == 'None':
        return 'InvalidTargetState'
    if action == 'Ban' and towner:
        return 'OwnerUnbannable'
    if target == 'Banned' and action != 'Unban':
        return 'Banned'
    own, mod = role == 'Owner', role == 'Moderator'
    ok = lambda x: 'Allowed' if x else 'Unauthorized'
    if action == 'AddMember':
        return ok(own or mod or (is_self and mode == 'Open')) if target in (None, 'Removed') else 'InvalidTargetState'
    if action == 'RemoveMember':
        if target == 'Member':
            return 'Allowed' if own or mod or is_self else 'InvalidTargetState'
        return 'Allowed' if target == 'Moderator' and is_self else 'InvalidTargetState'
    if action == 'AddModerator':
        return ok(own) if target in (None, 'Removed', 'Member') else 'InvalidTargetState'
    if action == 'RemoveModerator':
        return ok(own) if target == 'Moderator' else 'InvalidTargetState'
    if action == 'Ban':
        return ok(own) if target == 'Moderator' else ok(own or mod)
    if action == 'Unban':
        return ok(own or mod) if target == 'Banned' else 'InvalidTargetState'


CS = S + 'account::channel_store::'


def a03(ctx):
    """The member-authority decision is enumerated over its whole finite input space and compared with the published authority table, and the admission function around it is interpreted with store lookups as unknowns."""
    e = ctx.entry(S + 'block_engine::channel_member_authority', [('action', r'ChannelMemberAction$'), ('role', r'ChannelAuthorRole$'), ('target', r'Option<.*ChannelMemberState>$'), ('isself', r'IsSelf$'),
                  ('mode', r'MembershipMode$'), ('towner', r'TargetIsOwner$')])
    act = discr_of(ctx, 'ChannelMemberAction')
    role = discr_of(ctx, 'ChannelAuthorRole', S + 'block_engine::')
    state = discr_of(ctx, 'ChannelMemberState', CS)
    mode = discr_of(ctx, 'MembershipMode')
    fld = lambda n: (ctx.F.adt(S + 'block_engine::' + n) or {}).get('variants', [{}])[0]
    rows = []
    for a in act:
        for r in role:
            for t in [None] + list(state):
                for me in (0, 1):
                    for m in mode:
                        for own in (0, 1):
                            c = {'discr(action)': one(act[a]), 'discr(role)': one(role[r]), 'discr(target)': one(0 if t is None else 1), 'discr(mode)': one(mode[m])}
                            if t:
                                c['discr(target.Some)'] = one(state[t])
                            want = decide(a, r, t, me, m, own)
                            allowed = want == 'Allowed'
                            rows.append(Row('%s by %s%s of %s/%s%s' % (a, r, ' itself' if me else '', t, m, '/owner' if own else ''), c,
                                            lambda I, o, k, txt, w=want, al=allowed: True if (txt == w if al else txt != 'Allowed' and k != 'panic') else 'decision %s' % txt, say=want,
                                            pats=[(r'^isself(\.\w+)?$', one(me)), (r'^towner(\.\w+)?$', one(own))]))
    ctx.table('authority', e, rows)

    e = ctx.entry(BLOCK + 'validate_channel_message', [('data', r'MessageData$'), ('txn', r'RocksDbTransactionBatch$'), ('self', r'BlockEngine$')])
    m = dict(kv.models())
    m.update({
        r'OnchainEventStore::get_channel_key_by_label$': kv.oracle('chkey', 1, 2),
        r'OnchainEventStore::get_channel_owner$': kv.oracle('chowner', 1, 2),
        r'BlockStores::resolve_channel_owner_fid$': kv.oracle('ownerfid', 1, 2),
        r'ChannelMemberStore::member_state$': kv.oracle('mstate', 1, 2, 3),
        r'ChannelUpdateStore::get_channel_update$': kv.oracle('update', 1, 2),
        r'ChannelMemberStore::live_moderator_count$': kv.oracle('mods', 1, 2),
        r'block_engine::channel_member_authority$': kv.oracle('authority', 0, 1, 2, 3, 4, 5),
    })
    voc = [r'^discr\((?:chkey|chowner|ownerfid|mstate|update|mods|authority)\(', r'^(?:ownerfid|mods)\(']
    B = 'data.body.Some.'
    T = r'(?:Some\()?txn\)?'
    LOOK = lambda v: [(r'^discr\(chkey\(%sChannel%sBody\.channel_id, %s\)\)$' % (re.escape(B), v, T), one(0)), (r'^discr\(chkey\(.*\)\.Ok\)$', one(1)),
                      (r'^discr\(chowner\(chkey\(.*\)\.Ok\.Some, %s\)\)$' % T, one(0)), (r'^discr\(chowner\(.*\)\.Ok\)$', one(1)),
                      (r'^discr\(ownerfid\(chowner\(.*\)\.Ok\.Some\.owner_address, %s\)\)$' % T, one(0))]
    KNOWN = [(r'^discr\(ownerfid\(.*\)\.Ok\)$', one(1))]
    PARKED = [(r'^discr\(ownerfid\(.*\)\.Ok\)$', one(0))]
    OWN = 'ownerfid(chowner(chkey(%s, txn).Ok.Some, txn).Ok.Some.owner_address, txn).Ok.Some'

    def cell(v, **kw):
        c = {'discr(data.body)': one(1), 'discr(data.body.Some)': one(variant_index(ctx, 'Channel%sBody' % v)), 'data.type': one(mt(ctx, 'Channel' + v)[0]), 'len(%sChannel%sBody.channel_id)' % (B, v): one(32), 'data.fid': U32}
        if v == 'Moderate':
            c['len(%sChannelModerateBody.cast_hash)' % B] = one(20)
            c[B + 'ChannelModerateBody.action'] = between(1, 2)
        if v == 'Member':
            c[B + 'ChannelMemberBody.fid'] = U32
        c.update(kw)
        return c

    def author(st):
        """the author's own membership; st None when unknown, else a state"""
        q = r'mstate\(%sChannel\w+Body\.channel_id, data\.fid, %s\)' % (re.escape(B), T)
        out = [(r'^discr\(%s\)$' % q, one(0)), (r'^discr\(%s\.Ok\)$' % q, one(0 if st is None else 1))]
        if st:
            out.append((r'^discr\(%s\.Ok\.Some\)$' % q, one(state[st])))
        return out
    owner_is = lambda v, yes: [(r'^ownerfid\(.*\)\.Ok\.Some$', U32)]
    rows = []

    def is_owner(v, yes):
        # the owner fid equals / differs from the author's fid
        return {'__owner__': yes}
    for v in ('Update', 'Pin', 'Moderate', 'Member'):
        body = B + 'Channel%sBody' % v
        for w in ('Update', 'Pin', 'Moderate', 'Member'):
            if w != v:
                rows.append(Row('%s body typed %s' % (v, w), cell(v, **{'data.type': one(mt(ctx, 'Channel' + w)[0])}), R, pats=LOOK(v) + KNOWN))
        rows.append(Row('%s body typed LendStorage' % v, cell(v, **{'data.type': one(mt(ctx, 'LendStorage')[0])}), R, pats=LOOK(v) + KNOWN))
        rows.append(Row('%s/short channel id' % v, cell(v, **{'len(%s.channel_id)' % body: between(0, 31)}), R, pats=LOOK(v) + KNOWN))
        rows.append(Row('%s/long channel id' % v, cell(v, **{'len(%s.channel_id)' % body: atleast(33)}), R, pats=LOOK(v) + KNOWN))
        rows.append(Row('%s/unknown channel' % v, cell(v), R, pats=[(r'^discr\(chkey\(.*\.channel_id, .*\)\)$', one(0)), (r'^discr\(chkey\(.*channel_id, .*\)\.Ok\)$', one(0))]))
        rows.append(Row('%s/lookup fails' % v, cell(v), R, pats=[(r'^discr\(chkey\(.*\.channel_id, .*\)\)$', one(1))]))
        rows.append(Row('%s/no owner record' % v, cell(v), R, pats=LOOK(v)[:3] + [(r'^discr\(chowner\(.*\)\.Ok\)$', one(0))]))
        if v != 'Member':
            rows.append(Row('%s/parked' % v, cell(v), R, pats=LOOK(v) + PARKED + [(r'^discr\(mstate\(.*\)\)$', one(0))]))
    rows.append(Row('Moderate/short hash', cell('Moderate', **{'len(%sChannelModerateBody.cast_hash)' % B: between(0, 19)}), R, pats=LOOK('Moderate') + KNOWN))
    rows.append(Row('Moderate/long hash', cell('Moderate', **{'len(%sChannelModerateBody.cast_hash)' % B: atleast(21)}), R, pats=LOOK('Moderate') + KNOWN))
    rows.append(Row('Moderate/no action', cell('Moderate', **{B + 'ChannelModerateBody.action': one(0)}), R, pats=LOOK('Moderate') + KNOWN))
    rows.append(Row('Moderate/unknown action', cell('Moderate', **{B + 'ChannelModerateBody.action': atleast(3)}), R, pats=LOOK('Moderate') + KNOWN))
    mb = B + 'ChannelMemberBody'
    leave, others = act['RemoveMember'], [x for n, x in act.items() if n != 'RemoveMember']
    rows.append(Row('parked/leaving', cell('Member', **{mb + '.action': one(leave), mb + '.fid - data.fid': one(0)}), A, pats=LOOK('Member') + PARKED + GOODSTATE(T) + [(r'^discr\(authority\(.*\)\)$', one(0))]))
    rows.append(Row('parked/removing someone else', cell('Member', **{mb + '.action': one(leave), mb + '.fid - data.fid': atleast(1)}), R, pats=LOOK('Member') + PARKED + GOODSTATE(T) + [(r'^discr\(authority\(.*\)\)$', one(0))]))
    rows.append(Row('parked/removing someone else (lower fid)', cell('Member', **{mb + '.action': one(leave), mb + '.fid - data.fid': atmost(-1)}), R, pats=LOOK('Member') + PARKED + GOODSTATE(T) + [(r'^discr\(authority\(.*\)\)$', one(0))]))
    for n, x in act.items():
        if n != 'RemoveMember':
            rows.append(Row('parked/%s' % n, cell('Member', **{mb + '.action': one(x)}), R, pats=LOOK('Member') + PARKED + GOODSTATE(T) + [(r'^discr\(authority\(.*\)\)$', one(0))]))
    ctx.table('admission', e, rows, models=m, vocab=voc)
    # authority of the author: owner, else his membership state
    rows = []
    for v in ('Update', 'Pin', 'Moderate'):
        key = '%sChannel%sBody.channel_id' % (B, v)
        rel = 'data.fid - ' + OWN % key
        rel2 = OWN % key + ' - data.fid'
        for who in ('Owner', 'Moderator', 'Member', 'Removed', 'Banned', None):
            c = cell(v)
            c[rel if not who == 'x' else rel2] = one(0) if who == 'Owner' else between(1, 2 ** 33)
            ok = who == 'Owner' or (who == 'Moderator' and v != 'Update')
            rows.append(Row('%s by %s' % (v, who or 'a stranger'), c, A if ok else R, pats=LOOK(v) + KNOWN + (author(who) if who != 'Owner' else [])))
    key = mb + '.channel_id'
    dec = discr_of(ctx, 'ChannelAuthorityDecision', S + 'block_engine::')
    rel = 'data.fid - ' + OWN % key
    modq = [(r'^discr\(mods\(%s, %s\)\)$' % (re.escape(key), T), one(0))]
    modn = r'^mods\(%s, %s\)\.Ok$' % (re.escape(key), T)
    for who in ('Owner', 'Moderator', None):
        for n, x in act.items():
            if n == 'None':
                continue
            for d in dec:
                if d not in ('Allowed', 'Unauthorized', 'Banned', 'InvalidTargetState', 'OwnerUnbannable'):
                    continue
                c = cell('Member', **{mb + '.action': one(x), rel: one(0) if who == 'Owner' else between(1, 2 ** 33)})
                p = LOOK('Member') + KNOWN + (author(who) if who != 'Owner' else []) + [(r'^discr\(mstate\(%s, .*fid, %s\)\)$' % (re.escape(key), T), one(0)), (r'^discr\(update\(%s, %s\)\)$' % (re.escape(key), T), one(0)),
                                                                                         (r'^discr\(authority\(.*\)\)$', one(dec[d]))] + modq
                if d != 'Allowed':
                    rows.append(Row('%s %s/%s' % (who, n, d), c, R, pats=p + [(modn, between(0, 9))]))
                elif n == 'AddModerator':
                    rows.append(Row('%s %s/below cap' % (who, n), c, A, pats=p + [(modn, between(0, 9))]))
                    rows.append(Row('%s %s/at cap' % (who, n), c, R, pats=p + [(modn, between(10, 2 ** 32 - 1))]))
                else:
                    rows.append(Row('%s %s/Allowed' % (who, n), c, A, pats=p + [(modn, between(0, 2 ** 32 - 1))]))
    ctx.table('roles', e, rows, models=m, vocab=voc)


def GOODSTATE(T):
    return [(r'^discr\(mstate\(.*\)\)$', one(0)), (r'^discr\(update\(.*\)\)$', one(0)), (r'^discr\(mods\(.*\)\)$', one(0))]


CHECKS['A03'] = a03
