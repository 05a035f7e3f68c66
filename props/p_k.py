"""Record layout: the byte strings under which everything is stored, indexed, ordered and committed to."""
import re
from harness import Row, between, one, atmost, atleast, POS, NEG, Anchor
from absint import rs_const
from vcommon import enum_ix, canon, judge_term

A, R = 'accept', 'reject'
S = 'snapchain::storage::store::account::'
U32 = between(0, 2 ** 32 - 1)
HASH, TSH = r'Vec<u8>|\[u8\]', r'\[u8; 24\]'


def gives(*want):
    """the result must be one of these terms"""
    def f(I, o, k, txt):
        return True if txt in want else judge_term(txt, cw, elide=lambda t: t)
    cw = {canon(w) for w in want}
    return f


def W(name, cell, *want, **kw):
    return Row(name, cell, gives(*want), say=want[0], **kw)


def layout(ctx, tbl, path, params, rows, **kw):
    e = ctx.entry(path, params)
    ctx.table(tbl, e, rows, **kw)


def B(*parts):
    """canonical rendering of a byte string"""
    out = []
    for p in parts:
        if p.startswith('0x') and out and out[-1].startswith('0x'):
            out[-1] += p[2:]
        else:
            out.append(p)
    return 'bytes(%s)' % ' ++ '.join(out)


def be32(x):
    return 'be32(%s)' % x


def t32(x):
    return 'be32((%s as u32))' % x


# ------------------------------------------------------------------ K01 message records


def k01(ctx):
    """The key builders are interpreted over symbolic author, set, time and hash; the resulting byte string must be the fixed-width big-endian concatenation the layout specifies (which is what makes byte order equal time order and keys of different authors or sets disjoint), and the reader must split it at the same offsets."""
    layout(ctx, 'ts-hash', S + 'message::make_ts_hash', [('ts', r'^u32$'), ('hash', HASH)],
           [W('ok', {'len(hash)': one(20)}, 'Ok(%s)' % B('be32(ts)', 'hash[0..20]'), 'Ok(%s)' % B('be32(ts)', 'hash')),
            Row('short', {'len(hash)': between(0, 19)}, R), Row('long', {'len(hash)': atleast(21)}, R)])
    layout(ctx, 'unpack', S + 'message::unpack_ts_hash', [('x', TSH)], [W('all', {}, '(from_be_bytes(x[0..4]), x[4..24])', '(from_be_bytes(x[..4]), x[4..])')])
    layout(ctx, 'user-key', S + 'message::make_user_key', [('fid', r'^u64$')], [W('all', {'fid': U32}, B('0x03', 'be32(fid)'))])
    layout(ctx, 'fid-key', S + 'message::make_fid_key', [('fid', r'^u64$')], [W('all', {'fid': U32}, B('be32(fid)'))])
    layout(ctx, 'read-fid', S + 'message::read_fid_key', [('key', r'\[u8\]'), ('at', r'^usize$')], [W('all', {'at': between(0, 64), 'len(key)': atleast(68)}, 'from_be_bytes(key[at..at + 4])')])
    layout(ctx, 'primary', S + 'message::make_message_primary_key', [('fid', r'^u64$'), ('set', r'^u8$'), ('tsh', TSH)],
           [W('full', {'fid': U32, 'discr(tsh)': one(1)}, B('0x03', 'be32(fid)', 'be8(set)', 'tsh.Some')), W('prefix', {'fid': U32, 'discr(tsh)': one(0)}, B('0x03', 'be32(fid)', 'be8(set)'))])
    layout(ctx, 'cast-id', S + 'message::make_cast_id_key', [('c', r'CastId$')], [W('all', {'c.fid': U32, 'len(c.hash)': one(20)}, B('be32(c.fid)', 'c.hash'))])
    e = ctx.entry(S + 'message::type_to_set_postfix', [('t', r'MessageType$')])
    a = ctx.F.adt('snapchain_proto::MessageType')
    pf = ctx.F.adt('snapchain::storage::constants::UserPostfix')
    if not a or not pf:
        raise Anchor('message type or set enumeration not found')
    SETNAME = {'CastAdd': 'CastMessage', 'CastRemove': 'CastMessage', 'ReactionAdd': 'ReactionMessage', 'ReactionRemove': 'ReactionMessage', 'LinkAdd': 'LinkMessage', 'LinkRemove': 'LinkMessage', 
               'VerificationAddEthAddress': 'VerificationMessage', 'VerificationRemove': 'VerificationMessage', 'UserDataAdd': 'UserDataMessage', 'UsernameProof': 'UsernameProofMessage', 'LendStorage': 'LendStorageMessage', 'ChannelUpdate': 'ChannelUpdateMessage', 'ChannelMember': 'ChannelMemberMessage', 'ChannelPin': 'ChannelPinMessage', 'ChannelModerate': 'ChannelModerateMessage'}
    rows = []
    for v in a['variants']:
        want = SETNAME.get(v['n'])
        if want:
            rows.append(W(v['n'], {'discr(t)': one(v['d'])}, 'Ok(%s)' % want))
        elif v['n'] in ('None', 'FrameAction'):
            rows.append(Row(v['n'], {'discr(t)': one(v['d'])}, R))
    ctx.floor('message types with a set', sum(1 for r in rows if r.expect != R), 15)
    ctx.table('set-of-type', e, rows)


# ------------------------------------------------------------------ K02 state keys
D = 'message.data.Some'
SD = S + 'store::StoreDef'


def impl(mod, ty, m):
    return '<%s%s::%s as %s>::%s' % (S, mod, ty, SD, m)


def msg(ctx, variant, **kw):
    from vcommon import variant_index
    c = {'discr(message.data)': one(1), 'discr(%s.body)' % D: one(1), 'discr(%s.body.Some)' % D: one(variant_index(ctx, variant)), D + '.fid': between(1, 2 ** 32 - 1)}
    c.update(kw)
    return c


MSG = [('message', r'(::|&)Message$')]
FID = 'be32(%s.fid)' % D


def k02(ctx):
    """For every account store the builder of the key under which a logical item's current state is kept is interpreted over symbolic messages; the key must consist of the author, the add or remove family of that store and exactly the item's identity (cast hash; link type and target; reaction type and target; address; data type; name; borrower), each field at a fixed width or last."""
    b = D + '.body.Some.'

    def t(tbl, mod, ty, m, rows):
        layout(ctx, tbl, impl(mod, ty, m), MSG, rows)
    t('cast-add', 'cast_store', 'CastStoreDef', 'make_add_key', [W('add', msg(ctx, 'CastAddBody', **{'len(message.hash)': one(20)}), 'Ok(%s)' % B('0x03', FID, '0x57', 'message.hash')),
                                                                 W('remove', msg(ctx, 'CastRemoveBody', **{'len(%sCastRemoveBody.target_hash)' % b: one(20)}), 'Ok(%s)' % B('0x03', FID, '0x57', b + 'CastRemoveBody.target_hash'))])
    t('cast-remove', 'cast_store', 'CastStoreDef', 'make_remove_key', [W('add', msg(ctx, 'CastAddBody', **{'len(message.hash)': one(20)}), 'Ok(%s)' % B('0x03', FID, '0x58', 'message.hash')),
                                                                       W('remove', msg(ctx, 'CastRemoveBody', **{'len(%sCastRemoveBody.target_hash)' % b: one(20)}), 'Ok(%s)' % B('0x03', FID, '0x58', b + 'CastRemoveBody.target_hash'))])
    L = b + 'LinkBody'
    for nm, m, p in (('link-add', 'make_add_key', '0x59'), ('link-remove', 'make_remove_key', '0x5a')):
        rows = []
        for n in (1, 6, 8):
            ty = [L + '.type'] + (['0x' + '00' * (8 - n)] if n < 8 else [])
            rows.append(W('type-%d' % n, msg(ctx, 'LinkBody', **{'len(%s.type)' % L: one(n), 'discr(%s.target)' % L: one(1), L + '.target.Some.TargetFid': U32}), 'Ok(%s)' % B('0x03', FID, p, *(ty + ['be32(%s.target.Some.TargetFid)' % L]))))
        rows.append(Row('type-too-long', msg(ctx, 'LinkBody', **{'len(%s.type)' % L: atleast(9), 'discr(%s.target)' % L: one(1)}), R))
        rows.append(Row('no-type', msg(ctx, 'LinkBody', **{'len(%s.type)' % L: one(0), 'discr(%s.target)' % L: one(1)}), R))
        t(nm, 'link_store', 'LinkStore', m, rows)
    C = b + 'LinkCompactStateBody'
    t('link-compact', 'link_store', 'LinkStore', 'make_compact_state_add_key', [W('type-6', msg(ctx, 'LinkCompactStateBody', **{'len(%s.type)' % C: one(6)}), 'Ok(%s)' % B('0x03', FID, '0x64', C + '.type', '0x0000')),
                                                                                W('type-8', msg(ctx, 'LinkCompactStateBody', **{'len(%s.type)' % C: one(8)}), 'Ok(%s)' % B('0x03', FID, '0x64', C + '.type'))])
    X = b + 'ReactionBody'
    for nm, m, p in (('reaction-add', 'make_add_key', '0x5b'), ('reaction-remove', 'make_remove_key', '0x5c')):
        base = {X + '.type': between(1, 127), 'discr(%s.target)' % X: one(1)}
        t(nm, 'reaction_store', 'ReactionStoreDef', m, [
            W('cast', msg(ctx, 'ReactionBody', **dict(base, **{'discr(%s.target.Some)' % X: one(0), X + '.target.Some.TargetCastId.fid': U32})), 'Ok(%s)' % B('0x03', FID, p, 'be8(%s.type)' % X, 'be32(%s.target.Some.TargetCastId.fid)' % X, X + '.target.Some.TargetCastId.hash')),
            W('url', msg(ctx, 'ReactionBody', **dict(base, **{'discr(%s.target.Some)' % X: one(1)})), 'Ok(%s)' % B('0x03', FID, p, 'be8(%s.type)' % X, X + '.target.Some.TargetUrl'))])
    va, vr = b + 'VerificationAddAddressBody.address', b + 'VerificationRemoveBody.address'
    for nm, m, p in (('verification-add', 'make_add_key', '0x5d'), ('verification-remove', 'make_remove_key', '0x5e')):
        t(nm, 'verification_store', 'VerificationStoreDef', m, [W('add', msg(ctx, 'VerificationAddAddressBody'), 'Ok(%s)' % B('0x03', FID, p, va)), W('remove', msg(ctx, 'VerificationRemoveBody'), 'Ok(%s)' % B('0x03', FID, p, vr))])
    t('user-data', 'user_data_store', 'UserDataStoreDef', 'make_add_key', [W('all', msg(ctx, 'UserDataBody', **{b + 'UserDataBody.type': between(1, 127)}), 'Ok(%s)' % B('0x03', FID, '0x61', 'be8(%sUserDataBody.type)' % b))])
    t('username', 'username_proof_store', 'UsernameProofStoreDef', 'make_add_key', [W('all', msg(ctx, 'UsernameProofBody'), 'Ok(%s)' % B('0x03', FID, '0x63', b + 'UsernameProofBody.name'))])
    layout(ctx, 'username-by-name', S + 'username_proof_store::UsernameProofStoreDef::make_username_proof_by_name_key', [('name', HASH)], [W('all', {}, B('0x10', 'name'))])
    t('lend', 'storage_lend_store', 'StorageLendStoreDef', 'make_add_key', [W('all', msg(ctx, 'LendStorageBody', **{b + 'LendStorageBody.to_fid': U32}), 'Ok(%s)' % B('0x03', FID, '0x65', 'be32(%sLendStorageBody.to_fid)' % b))])


# ------------------------------------------------------------------ K03 secondary indexes
def k03(ctx):
    """The builders of the reverse indexes are interpreted over symbolic messages; each key must be the index family, the indexed target, the record's time-and-hash and its author, so that a scan of a target's prefix returns exactly its records in time order and each entry leads back to one record."""
    b = D + '.body.Some.'
    TS = [('ts', TSH)] + MSG
    P = b + 'CastAddBody.parent.Some'
    c = S + 'cast_store::CastStoreDef::'
    one_parent = {'discr(%sCastAddBody.parent)' % b: one(1)}
    layout(ctx, 'by-parent', c + 'by_parent_secondary_index_key', TS, [
        W('cast', msg(ctx, 'CastAddBody', **dict(one_parent, **{'discr(%s)' % P: one(0), P + '.ParentCastId.fid': U32})), 'Ok(Some(%s))' % B('0x04', 'be32(%s.ParentCastId.fid)' % P, P + '.ParentCastId.hash', 'ts', FID)),
        W('url', msg(ctx, 'CastAddBody', **dict(one_parent, **{'discr(%s)' % P: one(1)})), 'Ok(Some(%s))' % B('0x04', P + '.ParentUrl', 'ts', FID)),
        W('remove', msg(ctx, 'CastRemoveBody'), 'Ok(None)')])
    ME = b + 'CastAddBody.mentions'
    for n in (1, 2):
        layout(ctx, 'by-mention-%d' % n, c + 'by_mention_secondary_index_key', TS, [Row('entries', msg(ctx, 'CastAddBody', **{'len(%s)' % ME: one(n), '%s[0]' % ME: U32, '%s[1]' % ME: U32}), mention_list(n, ME, FID), say='one entry per mention')])
    L = b + 'LinkBody'
    layout(ctx, 'links-by-target', S + 'link_store::LinkStore::secondary_index_key', TS, [W('all', msg(ctx, 'LinkBody', **{'discr(%s.target)' % L: one(1), L + '.target.Some.TargetFid': U32}), 'Ok((%s, %s.type))' % (B('0x06', 'be32(%s.target.Some.TargetFid)' % L, 'ts', FID), L))])
    X = b + 'ReactionBody'
    base = {X + '.type': between(1, 127), 'discr(%s.target)' % X: one(1)}
    layout(ctx, 'reactions-by-target', S + 'reaction_store::ReactionStoreDef::secondary_index_key', TS, [
        W('cast', msg(ctx, 'ReactionBody', **dict(base, **{'discr(%s.target.Some)' % X: one(0), X + '.target.Some.TargetCastId.fid': U32})), 'Ok((%s, %s.type))' % (B('0x07', 'be32(%s.target.Some.TargetCastId.fid)' % X, X + '.target.Some.TargetCastId.hash', 'ts', FID), X)),
        W('url', msg(ctx, 'ReactionBody', **dict(base, **{'discr(%s.target.Some)' % X: one(1)})), 'Ok((%s, %s.type))' % (B('0x07', X + '.target.Some.TargetUrl', 'ts', FID), X))])
    v = S + 'verification_store::VerificationStoreDef::'
    layout(ctx, 'by-address', v + 'make_verification_by_address_key', [('addr', HASH), ('fid', r'^u64$')], [W('all', {'fid': U32}, B('0x0e', 'addr', 'be32(fid)'))])
    layout(ctx, 'by-address-prefix', v + 'make_verification_by_address_prefix', [('addr', HASH)], [W('all', {}, B('0x0e', 'addr'))])
    l = S + 'storage_lend_store::StorageLendStoreDef::'
    layout(ctx, 'by-borrower', l + 'by_borrower_secondary_index_key', MSG, [W('all', msg(ctx, 'LendStorageBody', **{b + 'LendStorageBody.to_fid': U32}), 'Ok(%s)' % B('0x16', 'be32(%sLendStorageBody.to_fid)' % b, FID))])
    layout(ctx, 'read-borrower', l + 'read_borrower_from_secondary_key', [('key', r'u8')], [W('all', {'len(key)': one(9)}, 'from_be_bytes(key[1..5])')])
    layout(ctx, 'read-lender', l + 'read_lender_from_secondary_key', [('key', r'u8')], [W('all', {'len(key)': one(9)}, 'from_be_bytes(key[5..9])')])
    r = S + 'reaction_store::ReactionStoreDef::'
    layout(ctx, 'follow-by-fid', r + 'make_follow_by_fid_key', [('fid', r'^u64$'), ('ch', r'u8')], [W('all', {'fid': U32}, B('0x1901', 'be32(fid)', 'ch'))])
    layout(ctx, 'follow-by-channel', r + 'make_follow_by_channel_key', [('ch', r'u8'), ('fid', r'^u64$')], [W('all', {'fid': U32}, B('0x1902', 'ch', 'be32(fid)'))])
    layout(ctx, 'follow-prefix-fid', r + 'follow_by_fid_prefix', [('fid', r'^u64$')], [W('all', {'fid': U32}, B('0x1901', 'be32(fid)'))])
    layout(ctx, 'follow-prefix-channel', r + 'follow_by_channel_prefix', [('ch', r'u8')], [W('all', {}, B('0x1902', 'ch'))])


def mention_list(n, me, fid):
    def f(I, o, k, txt):
        got = re.findall(r'bytes\(0x05 \+\+ be32\((.*?)\) \+\+ ts \+\+ (be32\(.*?\))\)', txt)
        if txt.startswith('Ok(Some([') and len(got) == n and {g[0] for g in got} == {'%s[%d]' % (me, i) for i in range(n)} and all(g[1] == fid for g in got):
            return True
        return 'result %s' % txt[:240]
    return f


# ------------------------------------------------------------------ K04 on-chain and name records
def k04(ctx):
    """Key builders of on-chain events and fname proofs, interpreted over symbolic identity fields."""
    o = S + 'onchain_event_store::'
    pt = ctx.F.adt('snapchain_proto::OnChainEventType')
    if pt is None:
        raise Anchor('on-chain event type not found')
    rows = [W(v['n'], {'ev.type': one(v['d']), 'ev.fid': U32}, B('0x0c01%02x' % v['d'], 'be32(ev.fid)', 'be32(ev.block_number)', 'be32(ev.log_index)')) for v in pt['variants'] if v['d']]
    ctx.floor('on-chain event types', len(rows), 5)
    layout(ctx, 'event', o + 'make_onchain_event_primary_key', [('ev', r'OnChainEvent$')], rows)
    layout(ctx, 'type-prefix', o + 'make_onchain_event_type_prefix', [('t', r'OnChainEventType$')], [W(v['n'], {'discr(t)': one(v['d'])}, B('0x0c01%02x' % v['d']), '[12, 1, %d]' % v['d'], '[12, 1, discr(t)]') for v in pt['variants'] if v['d']])
    layout(ctx, 'signer', o + 'make_signer_onchain_event_by_signer_key', [('fid', r'^u64$'), ('key', HASH)], [W('all', {'fid': U32}, B('0x0c33', 'be32(fid)', 'key'))])
    layout(ctx, 'id', o + 'make_id_register_by_fid_key', [('fid', r'^u64$')], [W('all', {'fid': U32}, B('0x0c34', 'be32(fid)'))])
    layout(ctx, 'channel', o + 'make_channel_register_by_channel_key', [('key', r'str$')], [W('all', {}, B('0x0c37', 'key'))])
    layout(ctx, 'channel-by-label', o + 'make_channel_register_channel_key_by_label_key', [('label', HASH)], [W('all', {}, B('0x0c38', 'label'))])
    layout(ctx, 'channel-by-owner', o + 'make_channel_register_by_owner_address_key', [('owner', HASH), ('key', r'str$')], [W('all', {}, B('0x0c39', 'owner', 'key'))])
    layout(ctx, 'channel-by-owner-prefix', o + 'make_channel_register_by_owner_address_prefix', [('owner', HASH)], [W('all', {}, B('0x0c39', 'owner'))])
    e = ctx.entry(o + 'validate_channel_key_label', [('key', r'str$'), ('label', HASH)])
    eqp = r'eq\((?:keccak256\(key\),\s*label|label,\s*keccak256\(key\))\)'
    ctx.table('channel-label', e, [Row('matches', {}, A, pats=[(eqp, one(1))]), Row('differs', {}, R, pats=[(eqp, one(0))])], vocab=[r'^eq\(keccak256'])
    layout(ctx, 'fname', S + 'name_registry_events::make_fname_username_proof_key', [('name', HASH)], [W('all', {}, B('0x0b', 'name'))])
    layout(ctx, 'fname-by-fid', S + 'name_registry_events::make_fname_username_proof_by_fid_key', [('fid', r'^u64$')], [W('all', {'fid': U32}, B('0x0f', 'be32(fid)'))])


# ------------------------------------------------------------------ K05 chain records
def k05(ctx):
    """Key builders of blocks, shard chunks, their time indexes, block events, hub events, trie nodes and stored proposals, interpreted over symbolic numbers: fixed-width big-endian throughout, so that byte order is numeric order."""
    st = 'snapchain::storage::store::'
    layout(ctx, 'block', st + 'block::make_block_key', [('h', r'^u64$')], [W('all', {}, B('0x01', 'be64(h)'))])
    layout(ctx, 'shard', st + 'shard::make_shard_key', [('h', r'^u64$')], [W('all', {}, B('0x02', 'be64(h)'))])
    for nm in ('block', 'shard'):
        layout(ctx, nm + '-time', st + nm + '::make_block_timestamp_index', [('sh', r'^u32$'), ('t', r'^u64$')], [W('all', {}, B('0x12', 'be32(sh)', 'be64(t)'))])
    layout(ctx, 'block-event', S + 'block_event_store::make_block_event_key', [('n', r'^u64$')], [W('all', {}, B('0x13', 'be64(n)'))])
    layout(ctx, 'hub-event', S + 'event::make_event_key', [('n', r'^u64$')], [W('all', {}, B('0x09', 'be64(n)'))])
    layout(ctx, 'trie-node', 'snapchain::storage::trie::trie_node::TrieNode::make_primary_key', [('prefix', HASH), ('c', r'Option<u8>')], [W('node', {'discr(c)': one(0)}, B('0x08', 'prefix')), W('child', {'discr(c)': one(1)}, B('0x08', 'prefix', 'be8(c.Some)'))])
    l = 'snapchain::storage::store::node_local_state::LocalStateStore::'
    layout(ctx, 'proposal', l + 'make_proposal_key', [('sh', r'^u32$'), ('h', r'^u64$'), ('r', r'^i64$')], [W('all', {'r': between(0, 2 ** 32)}, B('0x01', 'be32(sh)', 'be64(h)', 'be64(r)'))])
    layout(ctx, 'proposal-height', l + 'make_height_prefix', [('sh', r'^u32$'), ('h', r'^u64$')], [W('all', {}, B('0x01', 'be32(sh)', 'be64(h)'))])


# ------------------------------------------------------------------ K06 event ids
def k06(ctx):
    """The id generator is interpreted over symbolic height, sequence number and event type; the id must be height * 2^14 + sequence, the reserved sequence 0 must go to the block-confirmation event alone, and any height or sequence that would spill into the other field must be refused."""
    g = S + 'event::HubEventIdGenerator::'
    e = ctx.entry(g + 'make_event_id', [('h', r'^u64$'), ('q', r'^u64$')])
    ctx.table('compose', e, [W('all', {'h': between(0, 2 ** 50 - 1), 'q': between(0, 2 ** 14 - 1)}, *ids('h', 'q'))])
    layout(ctx, 'height-of', g + 'extract_height_and_seq', [('id', r'^u64$')], [Row('all', {}, lambda I, o, k, txt: True if txt in ('((id / 16384), (id % 16384))', '((id >> 14), (id & 16383))') else 'result ' + txt)]) if ctx.F.bypath.get(g + 'extract_height_and_seq') else None
    e = ctx.entry(g + 'generate_id', [('self', r'HubEventIdGenerator$'), ('ev', r'HubEvent$')])
    H, Q = 'self.current_height', 'self.current_seq'
    ok = {H: between(0, 2 ** 50 - 1), Q: between(1, 2 ** 14 - 2)}

    def isid(seqs, nxt):
        def f(I, o, k, txt):
            c = rs_const(I.range_of(o.st, I.sym(Q)))
            fixed = {Q: str(c), Q + ' + 1': str(c + 1)} if c is not None else {}
            w = {'Ok(%s)' % x for q in seqs + ([fixed[q] for q in seqs if q in fixed]) for x in ids(H, q)}
            if txt not in w:
                return 'result %s' % txt[:160]
            left, h = I.term(o.st, ('o', Q)), I.term(o.st, ('o', H))
            return True if left in (nxt, fixed.get(nxt, nxt)) and h == H else 'result %s leaving sequence %s at height %s' % (txt[:120], left, h)
        return f
    ctx.table('generate', e, [
        Row('plain', dict(ok, **{'ev.type': ((NEG, 10), (12, POS))}), isid([Q], Q + ' + 1')),
        Row('first', {H: between(0, 2 ** 50 - 1), Q: one(0), 'ev.type': ((NEG, 10), (12, POS))}, isid(['1'], '2')),
        Row('confirmed', dict(ok, **{'ev.type': one(11)}), isid(['0'], Q)),
        Row('height-overflow', {H: between(2 ** 50, 2 ** 64 - 1), 'ev.type': ((NEG, 10), (12, POS))}, R),
        Row('seq-overflow', {H: between(0, 2 ** 50 - 1), Q: between(2 ** 14, 2 ** 60), 'ev.type': ((NEG, 10), (12, POS))}, R)])


def ids(h, q):
    if q == '0':
        return ('16384*%s' % h, '(%s << 14)' % h)
    return tuple({'16384*%s + %s' % (h, q), '%s + 16384*%s' % (q, h), '((%s << 14) | %s)' % (h, q), '(%s | (%s << 14))' % (q, h)})


# ------------------------------------------------------------------ K12 disjoint key spaces
ROOT = dict(Block=1, Shard=2, User=3, CastsByParent=4, CastsByMention=5, LinksByTarget=6, ReactionsByTarget=7, MerkleTrieNode=8, HubEvents=9, FNameUserNameProof=11, OnChainEvent=12, DBSchemaVersion=13, VerificationByAddress=14,
            FNameUserNameProofByFid=15, UserNameProofByName=16, NodeLocalState=17, BlockIndex=18, BlockEvent=19, LendStorageByRecipient=22)


ROOT.update(MerkleTrieMetadata=20, ReplicationBootstrapStatus=21, GaslessKey=23, Channel=24, ChannelFollow=25)
USERP = dict(CastMessage=1, LinkMessage=2, ReactionMessage=3, VerificationMessage=4, UserDataMessage=6, UsernameProofMessage=7, LendStorageMessage=8, ChannelUpdateMessage=9, ChannelMemberMessage=10, ChannelPinMessage=11, ChannelModerateMessage=12, CastAdds=87, CastRemoves=88, LinkAdds=89, LinkRemoves=90, ReactionAdds=91, ReactionRemoves=92, VerificationAdds=93, VerificationRemoves=94, UserDataAdds=97, UserNameProofAdds=99, LinkCompactStateMessage=100, LendStorages=101, GaslessKeyUserNonce=102, GaslessKeyAppNonce=103, GaslessKeyLastUsedAt=104, GaslessKeyByFid=105, GaslessKeyByPublicKey=106, GaslessKeyCountByFid=107, ChannelUpdateAdds=108, ChannelMemberAdds=109, ChannelPinAdds=110, ChannelModerateAdds=111)


def k12(ctx):
    """The enumerations that head every stored key are read from the type-checked program; discriminants within each must be pairwise distinct, must fit the one byte they are written as, and the published ones must keep their values."""
    n = 0
    for name, least in (('RootPrefix', 20), ('UserPostfix', 20), ('OnChainEventPostfix', 1)):
        path = 'snapchain::storage::constants::' + name
        ad = ctx.F.adt(path)
        if ad is None:
            raise Anchor('enumeration %s not found' % path)
        seen = {}
        for v in ad['variants']:
            d = v['d']
            ctx.ob(d not in seen, '%s/%s-distinct' % (name, v['n']), '%s and %s of %s share the byte %d: their records overwrite each other' % (v['n'], seen.get(d), name, d))
            ctx.ob(0 <= d <= 255, '%s/%s-byte' % (name, v['n']), '%s of %s does not fit the one byte it is written as' % (v['n'], name))
            seen[d] = v['n']
            n += 1
        for v, d in PUBLISHED[name].items():
            got = [x['d'] for x in ad['variants'] if x['n'] == v]
            if got:
                ctx.ob(got[0] == d, '%s/%s-value' % (name, v), '%s of %s is %s, existing databases hold it under %d' % (v, name, got[0], d))
        ctx.floor('variants of ' + name, len(ad['variants']), least)
    up = ctx.F.adt('snapchain::storage::constants::UserPostfix')
    for v in up['variants']:
        ctx.ob((v['d'] <= 85) == v['n'].endswith('Message') or v['n'] == 'LinkCompactStateMessage', 'UserPostfix/%s-range' % v['n'], 'message sets live at 1..85 and indexes above: %s is %d' % (v['n'], v['d']))


PUBLISHED = {'RootPrefix': ROOT, 'UserPostfix': USERP, 'OnChainEventPostfix': dict(OnChainEvents=1, ChannelRegisterByChannelKey=55, ChannelRegisterChannelKeyByLabel=56, ChannelRegisterByOwnerAddress=57)}


# ------------------------------------------------------------------ K07 state-trie keys
VS = 'be8((from_be_bytes(sha256(be32(%s))[0..4]) %% 256))'


def k07(ctx):
    """The trie-key builders and the decoder are interpreted over symbolic identity fields: one byte of the fid's hash, the fid, a type byte (on-chain types below 8, fnames 7, messages shifted left by three), then the identity of the record."""
    T = 'snapchain::storage::trie::merkle_trie::TrieKey::'

    def pre(f):
        return [VS % f, 'be32(%s)' % f]
    layout(ctx, 'fid', T + 'for_fid', [('fid', r'^u64$')], [W('all', {'fid': U32}, B(*pre('fid')))])
    layout(ctx, 'type', T + 'for_message_type', [('fid', r'^u64$'), ('t', r'^u8$')],
           [W('t=%d' % t, {'fid': U32, 't': one(t)}, B(*(pre('fid') + ['0x%02x' % (t << 3)]))) for t in range(1, 22)])
    layout(ctx, 'onchain', T + 'for_onchain_event', [('ev', r'OnChainEvent$')],
           [W('all', {'ev.fid': U32, 'ev.type': between(0, 7)}, B(*(pre('ev.fid') + ['be8(ev.type)', 'ev.transaction_hash', 'be32(ev.log_index)'])), B(*(pre('ev.fid') + ['be8((ev.type as u8))', 'ev.transaction_hash', 'be32(ev.log_index)'])))])

    def padded(I, o, k, txt):
        head = ' ++ '.join(pre('fid') + ['0x07', 'name'])
        n = I.rng(o.st, (('len(name)', 1),))
        n = n[0][0]
        want = {'bytes(%s)' % (head + x) for x in ((' ++ 0x' + '00' * (20 - n) if n < 20 else ''), (' ++ Iterator::take(iter(0), -len(name) + 20)' if n < 20 else ''), ' ++ repeat(0, %d)' % (20 - n))}
        return True if txt in want else 'result ' + txt[:200]
    layout(ctx, 'fname', T + 'for_fname', [('fid', r'^u64$'), ('name', r'String$|str$')],
           [Row('len=%d' % n, {'fid': U32, 'len(name)': one(n)}, padded, say='the name padded with zeros to 20 bytes') for n in (1, 5, 16, 19, 20)])
    e = ctx.entry(T + 'decode', [('key', r'\[u8\]|Vec<u8>')])
    on, ms = ('DecodedTrieKey{virtual_shard: key[0], fid: from_be_bytes(key[1..5]), onchain_message_type: %s, message_type: %s, rest: key[6..len(key)]}' % x for x in (('Some(key[5])', 'None'), ('None', 'Some((key[5] / 8))')))
    ctx.table('decode', e, [Row('short', {'len(key)': between(0, 11)}, R),
                            W('reserved', {'len(key)': atleast(12), 'key[5]': between(0, 7)}, 'Ok(%s)' % on),
                            W('message', {'len(key)': atleast(12), 'key[5]': between(8, 255)}, 'Ok(%s)' % ms)])
    a = ctx.F.adt('snapchain_proto::MessageType')
    e = ctx.entry(T + 'for_message', [('msg', r'Message$')])
    D = 'msg.data.Some.'
    lend = enum_ix(ctx, 'message_data::Body', 'LendStorageBody')
    rows = []
    for v in a['variants']:
        if not v['d']:
            continue
        base = {'discr(msg.data)': one(1), D + 'fid': U32, D + 'type': one(v['d']), 'discr(%sbody)' % D: one(1)}
        key = B(*(pre(D + 'fid') + ['0x%02x' % (v['d'] << 3), 'msg.hash']))
        if v['n'] == 'LendStorage':
            to = D + 'body.Some.LendStorageBody.to_fid'
            rows.append(W(v['n'], dict(base, **{to: U32, 'discr(%sbody.Some)' % D: one(lend)}), '[%s, %s]' % (key, B(*(pre(to) + ['0x%02x' % (v['d'] << 3), 'msg.hash'])))))
        else:
            rows.append(W(v['n'], dict(base, **{'discr(%sbody.Some)' % D: between(0, lend - 1)}), '[%s]' % key))
    ctx.floor('message types in the trie', len(rows), 15)
    ctx.table('message', e, rows)


# ------------------------------------------------------------------ K08 gasless-key records
def k08(ctx):
    """Key builders of the gasless-key, nonce and last-used records, interpreted over a symbolic fid and public key; only 32-byte keys are admitted to a record."""
    ka, kn, kl = S + 'key_add_store::', S + 'key_nonce_store::', S + 'key_last_used_at_store::'
    for tbl, path, pre, fid in (('by-fid', ka + 'make_gasless_key_by_fid_key', '0x1769', True), ('by-key', ka + 'make_gasless_key_by_public_key_key', '0x176a', False), ('last-used', kl + 'make_last_used_at_key', '0x1768', True)):
        f = {'fid': U32} if fid else {}
        layout(ctx, tbl, path, ([('fid', r'^u64$')] if fid else []) + [('key', HASH)],
               [W('32', dict(f, **{'len(key)': one(32)}), 'Ok(%s)' % B(*([pre] + (['be32(fid)'] if fid else []) + ['key']))),
                Row('shorter', dict(f, **{'len(key)': between(0, 31)}), R), Row('longer', dict(f, **{'len(key)': atleast(33)}), R)])
    for tbl, path, pre, nm in (('prefix', ka + 'make_gasless_key_by_fid_prefix', '0x1769', 'fid'), ('count', ka + 'make_gasless_key_count_by_fid_key', '0x176b', 'fid'), ('user-nonce', kn + 'make_user_nonce_key', '0x1766', 'fid'), ('app-nonce', kn + 'make_app_nonce_key', '0x1767', 'fid')):
        layout(ctx, tbl, path, [(nm, r'^u64$')], [W('all', {nm: U32}, B(pre, 'be32(fid)'))])


# ------------------------------------------------------------------ K09 channel slots
def k09(ctx):
    """Key builders of channel slots, their per-author rows and the reverse membership index, interpreted over symbolic channel ids, fids and hashes."""
    c = S + 'channel_store::'
    a = ctx.F.adt(c + 'ChannelIndex') or ctx.F.adt('snapchain::storage::constants::ChannelIndex')
    if a is None:
        raise Anchor('channel index enumeration not found')
    layout(ctx, 'index', c + 'channel_index_key', [('ix', r'ChannelIndex$'), ('ch', HASH), ('suffix', HASH)],
           [W(v['n'], {'discr(ix)': one(v['d'])}, B('0x18%02x' % v['d'], 'ch', 'suffix')) for v in a['variants']])
    layout(ctx, 'author-slot', c + 'author_slot_key', [('msg', r'Message$'), ('pf', r'UserPostfix$|^u8$'), ('suffix', HASH)],
           [W(v['n'], {'discr(msg.data)': one(1), 'msg.data.Some.fid': U32, 'discr(pf)': one(v['d'])}, 'Ok(%s)' % B('0x03', 'be32(msg.data.Some.fid)', '0x%02x' % v['d'], 'suffix')) for v in ctx.F.adt('snapchain::storage::constants::UserPostfix')['variants']]
           + [Row('no-data', {'discr(msg.data)': one(0)}, R)])
    wide = between(2 ** 32, 2 ** 64 - 1)
    layout(ctx, 'member', c + 'ChannelMemberStore::slot_key', [('ch', HASH), ('fid', r'^u64$')], [W('all', {'fid': U32}, 'Ok(%s)' % B('0x1802', 'ch', 'be32(fid)')), Row('wide', {'fid': wide}, R)])
    layout(ctx, 'member-by-fid', c + 'ChannelMemberStoreDef::make_member_by_fid_key', [('fid', r'^u64$'), ('ch', HASH)], [W('all', {'fid': U32}, 'Ok(%s)' % B('0x1808', 'be32(fid)', 'ch')), Row('wide', {'fid': wide}, R)])
    layout(ctx, 'moderate', c + 'ChannelModerateStore::slot_key', [('ch', HASH), ('hash', HASH)], [W('all', {}, B('0x1804', 'ch', 'hash'))])
    layout(ctx, 'update', c + 'ChannelUpdateStore::slot_key', [('ch', HASH)], [W('all', {}, B('0x1801', 'ch'))])
    layout(ctx, 'pin', c + 'ChannelPinStore::slot_key', [('ch', HASH)], [W('all', {}, B('0x1803', 'ch'))])
    layout(ctx, 'pointer', c + 'encode_slot_pointer', [('msg', r'Message$'), ('tsh', TSH)],
           [W('all', {'discr(msg.data)': one(1), 'msg.data.Some.fid': U32}, 'Ok(%s)' % B('be32(msg.data.Some.fid)', 'tsh')), Row('wide', {'discr(msg.data)': one(1), 'msg.data.Some.fid': wide}, R)])


# ------------------------------------------------------------------ K11 byte-string order and paging
def k11(ctx):
    """The byte-string helpers are interpreted over every explicit short list of symbolic bytes: comparison is lexicographic with a shorter prefix first, increment gives the next string of the same length (or one byte longer on wrap), and nibble expansion is inverted by combination."""
    u = 'snapchain::storage::util::'
    bs = ['x%d' % i for i in range(4)]
    ys = ['y%d' % i for i in range(4)]
    byte = between(0, 255)

    def L(v):
        return ('l', tuple(('o', x) for x in v))
    e = ctx.entry(u + 'bytes_compare', [('a', HASH), ('b', HASH)])
    rows = []
    for n in range(4):
        for m in range(4):
            for d in range(min(n, m) + 1):
                for sgn in ((-1, 1) if d < min(n, m) else (0,)):
                    cell = {x: byte for x in bs[:n] + ys[:m]}
                    for i in range(d):
                        cell['x%d - y%d' % (i, i)] = one(0)
                    if sgn:
                        cell['x%d - y%d' % (d, d)] = between(1, 255) if sgn > 0 else between(-255, -1)
                        want = '1' if sgn > 0 else '-1'
                    else:
                        want = '0' if n == m else '1' if n > m else '-1'
                    rows.append(Row('%d-%d-at%d%s' % (n, m, d, {0: '=', 1: '>', -1: '<'}[sgn]), cell, gives(want), args={'a': L(bs[:n]), 'b': L(ys[:m])}, say=want))
    ctx.table('compare', e, rows)
    e = ctx.entry(u + 'increment_vec_u8', [('v', HASH)])
    rows = []
    for n in range(1, 5):
        for k in range(n + 1):      # k trailing 0xff
            cell = {x: byte for x in bs[:n]}
            for i in range(n - k, n):
                cell[bs[i]] = one(255)
            out = list(bs[:n - k])
            if k < n:
                cell[bs[n - k - 1]] = between(0, 254)
                out[-1] = out[-1] + ' + 1'
                out += ['0'] * k
            else:
                out = ['1'] + ['0'] * n
            rows.append(W('%d-carry%d' % (n, k), cell, '[%s]' % ', '.join(out), 'bytes(0x%s)' % ('01' + '00' * n) if k == n else '', args={'v': L(bs[:n])}))
    ctx.table('increment', e, rows)
    e = ctx.entry('snapchain::storage::trie::util::expand_nibbles', [('v', HASH)])
    ctx.table('expand', e, [W('n=%d' % n, {x: byte for x in bs[:n]}, '[%s]' % ', '.join(y for x in bs[:n] for y in ('(%s / 16)' % x, '(%s %% 16)' % x)), args={'v': L(bs[:n])}) for n in (1, 2, 3)])
    e = ctx.entry('snapchain::storage::trie::util::combine_nibbles', [('v', HASH)])
    ctx.table('combine', e, [W('n=%d' % n, {x: between(0, 15) for x in bs[:n]}, '[%s]' % ', '.join('16*%s + %s' % (bs[i], bs[i + 1]) for i in range(0, n, 2)), args={'v': L(bs[:n])}) for n in (2, 4)])


CHECKS = {'K01': k01, 'K02': k02, 'K03': k03, 'K04': k04, 'K05': k05, 'K06': k06, 'K07': k07, 'K08': k08, 'K09': k09, 'K11': k11, 'K12': k12}
