"""Message validation: one property per rule family, as partition tables over validate_message."""
import json
from vcommon import *

R, A = 'reject', 'accept'


# ---------------------------------------------------------------- V01 envelope
def v01(ctx):
    """The space of message envelopes is cut along the hash comparison, the scheme numbers, the signature and key decoding results and the signature verdict; the abstract interpreter computes every outcome of validate_message reachable in each cell."""
    e = entry_vm(ctx)
    rows = []
    for r in ROUTES:
        d, b = ROUTES[r]
        bt = 'Message::encode_to_vec(message.data.Some)' if r == 'inline' else 'message.data_bytes.Some'
        good, gp = good_env(r)

        def cell(**kw):
            return dict(route_base(r), **kw)

        def bad(name, c, pats=()):
            rows.append(Row(r + '/' + name, dict(route_base(r), **c), R, pats=list(pats)))
        H = r'(?:blake3\(%s\)\[0\.\.20\],\s*message\.hash|message\.hash,\s*blake3\(%s\)\[0\.\.20\])' % (b, b)
        bad('hash-differs', {}, [(r'cmpb\(%s\)' % H, one(-1, 1)), (r'eq\(%s\)' % H, one(0))])
        bad('hash-scheme', {'message.hash_scheme': ((NEG, 0), (2, POS))})
        bad('sig-scheme', {'message.signature_scheme': ((NEG, 0), (2, POS))})
        bad('sig-empty', {'len(message.signature)': one(0)})
        bad('sig-malformed', {}, [(r'discr\(Signature::\w+\(message\.signature\)\)', one(1))])
        bad('signer-malformed', {}, [(r'discr\((?:try_into VerifyingKey|VerifyingKey::\w+)\(message\.signer.*\)\)', one(1))])
        # the verdict on exactly this signature, by exactly this key, over exactly this hash
        sig = r'discr\(VerifyingKey::verify_strict\((?:try_into )?VerifyingKey(?:::\w+)?\(message\.signer\)\.Ok, (?:message\.hash|blake3\(%s\)\[0\.\.20\]), Signature::\w+\(message\.signature\)\.Ok\)\)' % b
        bad('sig-invalid', {}, [(sig, one(1))])
        bad('data-empty', {'len(%s)' % bt: one(0)})
        if r == 'inline':
            bad('no-data', {'discr(message.data)': one(0)})
        else:
            bad('undecodable', {'discr(decoded)': one(1)})
        rows.append(Row(r + '/all-good', dict(good, **{'discr(%s.body)' % d: one(0)}), A, pats=gp))
        rows.append(Row(r + '/all-good-max', dict(good, **{'discr(%s.body)' % d: one(0), 'len(%s)' % bt: one(2048)}), A, pats=gp))
    ctx.table('envelope', e, rows, models=MODELS, vocab=VOC)


# ---------------------------------------------------------------- V02 network
def v02(ctx):
    """The (node network, message network) plane is cut into the cells the rule distinguishes; every outcome of validate_message reachable in each cell is computed."""
    e = entry_vm(ctx)
    rows = []
    for r in ROUTES:
        d, b = ROUTES[r]
        N = d + '.network'
        rb = route_base(r)
        rows.append(Row(r + '/mainnet-foreign', dict(rb, **{'discr(net)': one(1), N: ((NEG, 0), (2, POS))}), R))
        rows.append(Row(r + '/none', dict(rb, **{N: one(0)}), R))
        rows.append(Row(r + '/unknown', dict(rb, **{N: ((NEG, -1), (4, POS))}), R))
        good, gp = good_env(r)
        good['discr(%s.body)' % d] = one(0)
        rows.append(Row(r + '/mainnet-own', dict(good, **{'discr(net)': one(1), N: one(1)}), A, pats=gp))
        rows.append(Row(r + '/other-any', dict(good, **{'discr(net)': one(0, 2, 3), N: one(1, 2, 3)}), A, pats=gp))
    ctx.table('network', e, rows, models=MODELS, vocab=VOC)


# ---------------------------------------------------------------- V03 size
def v03(ctx):
    """(protocol version, pro status, message type, encoded length) space cut at the documented limits; every outcome of validate_message reachable in each cell is computed."""
    e = entry_vm(ctx)
    rows = []
    special = [1, 12, 14]
    others = ((NEG, 0), (2, 11), (13, 13), (15, POS))
    for r in ROUTES:
        d, b = ROUTES[r]
        L = 'len(%s)' % ('Message::encode_to_vec(message.data.Some)' if r == 'inline' else 'message.data_bytes.Some')
        T, V = d + '.type', 'discr(version)'
        rb = route_base(r)
        good, gp = good_env(r)
        good['discr(%s.body)' % d] = one(0)
        del good[T]

        def lim(name, n, c):
            rows.append(Row('%s/%s/over' % (r, name), dict(rb, **dict(c, **{L: atleast(n + 1)})), R))
            rows.append(Row('%s/%s/at' % (r, name), dict(good, **dict(c, **{L: between(max(1, n - 1), n)})), A, pats=gp))
        lim('old', 2048, {V: before(5)})
        lim('plain', 2048, {V: since(5), T: others})
        lim('link-compact', 65536, {V: since(5), T: one(14)})
        lim('cast-pro', 16384, {V: since(5), T: one(1), 'pro': one(1)})
        lim('cast', 2048, {V: since(5), T: one(1), 'pro': one(0)})
        lim('name-new', 16384, {V: since(15), T: one(12)})
        lim('name-old', 2048, {V: ((5, 14),), T: one(12)})
    ctx.table('size', e, rows, models=MODELS, vocab=VOC)


# ---------------------------------------------------------------- V04 time
def v04(ctx):
    """The difference between message and block timestamp is cut at the allowed skew, per protocol version; every outcome of validate_message reachable in each cell is computed."""
    e = entry_vm(ctx)
    t = timefield(ctx)
    rows = []
    for r in ROUTES:
        d, b = ROUTES[r]
        D = '%s.timestamp - now.%s' % (d, t)
        rb = route_base(r)
        good, gp = good_env(r, t=t)
        good['discr(%s.body)' % d] = one(0)
        good.pop(D, None)
        rows.append(Row(r + '/future', dict(rb, **{'discr(version)': since(6), D: atleast(601)}), R))
        rows.append(Row(r + '/limit', dict(good, **{'discr(version)': since(6), D: between(0, 600)}), A, pats=gp))
        rows.append(Row(r + '/past', dict(good, **{'discr(version)': since(6), D: atmost(0)}), A, pats=gp))
        rows.append(Row(r + '/before-gate', dict(good, **{'discr(version)': before(6)}), A, pats=gp))
    ctx.table('time', e, rows, models=MODELS, vocab=VOC)


# ---------------------------------------------------------------- V06 casts
CASTBASE = {'b.type': one(0), 'len(b.text)': between(1, 320), 'len(b.embeds)': one(0), 'len(b.embeds_deprecated)': one(0), 'len(b.mentions)': one(0), 'len(b.mentions_positions)': one(0), 'discr(b.parent)': one(0)}


def v06(ctx):
    """Cast-add inputs are partitioned by the quantities the limits name (type, text length, embed counts, mention fids and positions, pro status, protocol version, timestamp); for each cell every outcome reachable in the compiled validator is computed."""
    PAT_OK_URL = [(r'discr\(b\.embeds\[.*\]\.embed\)', one(1)), (r'discr\(b\.embeds\[.*\]\.embed\.Some\)', one(0)), (r'len\(b\.embeds\[.*\]\.embed\.Some\.Url\)', between(1, 256))]
    OLD = {'d.timestamp': atmost(73612799)}
    NEW = {'d.timestamp': atleast(73612800)}
    rows = [
        ('cast-321', {'b.type': one(0), 'len(b.text)': atleast(321)}, R),
        ('cast-320', {'len(b.text)': between(1, 320)}, A),
        ('long-short', {'b.type': one(1), 'len(b.text)': between(0, 320)}, R),
        ('long-1025', {'b.type': one(1), 'len(b.text)': atleast(1025)}, R),
        ('long-ok', {'b.type': one(1), 'len(b.text)': between(321, 1024)}, A),
        ('tenk-nonpro', {'b.type': one(2), 'pro': one(0)}, R),
        ('tenk-short', {'b.type': one(2), 'len(b.text)': between(0, 1024)}, R),
        ('tenk-10001', {'b.type': one(2), 'len(b.text)': atleast(10001)}, R),
        ('tenk-ok', {'b.type': one(2), 'len(b.text)': between(1025, 10000), 'pro': one(1)}, A),
        ('type-neg', {'b.type': atmost(-1)}, R), ('type-3', {'b.type': atleast(3)}, R),
        ('embeds-5', {'len(b.embeds)': atleast(5)}, R),
        ('embeds-3-old-nonpro', {'len(b.embeds)': atleast(3), 'pro': one(0), 'discr(version)': before(20)}, R),
        ('embeds-4-v20', {'len(b.embeds)': between(1, 4), 'discr(version)': since(20)}, A, {'pats': PAT_OK_URL}),
        ('embeds-4-pro', {'len(b.embeds)': between(1, 4), 'pro': one(1)}, A, {'pats': PAT_OK_URL}),
        ('embeds-2', {'len(b.embeds)': between(1, 2), 'pro': one(0)}, A, {'pats': PAT_OK_URL}),
        ('old-embeds-3', {'len(b.embeds_deprecated)': atleast(3)}, R),
        ('old-embeds-late', dict(NEW, **{'len(b.embeds_deprecated)': atleast(1)}), R),
        ('old-embeds-ok', dict(OLD, **{'len(b.embeds_deprecated)': between(1, 2)}), A, {'pats': [(r'len\(b\.embeds_deprecated\[.*\]\)', between(1, 256))]}),
        ('both-embeds', {'len(b.embeds_deprecated)': atleast(1), 'len(b.embeds)': atleast(1)}, R),
        ('mentions-11', {'len(b.mentions)': atleast(11)}, R),
        ('positions-11', {'len(b.mentions_positions)': atleast(11)}, R),
        ('positions-more', {'len(b.mentions) - len(b.mentions_positions)': atmost(-1)}, R),
        ('positions-fewer', {'len(b.mentions) - len(b.mentions_positions)': atleast(1)}, R),
        ('empty', {'b.type': one(0), 'len(b.text)': one(0), 'len(b.embeds)': one(0), 'len(b.embeds_deprecated)': one(0), 'len(b.mentions)': one(0)}, R),
        ('mention-fid-0', {'b.mentions[#i*]': one(0)}, R, {'stars': {'b.mentions': ('i', 1)}}),
        ('position-outside', {'b.mentions_positions[#i*] - len(b.text)': atleast(1)}, R, {'stars': {'b.mentions': ('i', 1)}}),
        ('positions-unsorted', {'b.mentions_positions[#i*] - b.mentions_positions[#i*+1]': atleast(1)}, R, {'stars': {'b.mentions': ('i', 2)}}),
        ('one-mention', {'len(b.mentions)': one(1), 'len(b.mentions_positions)': one(1), 'b.mentions[0]': atleast(1), 'b.mentions_positions[0] - len(b.text)': atmost(0)}, A),
        ('two-mentions', {'len(b.mentions)': one(2), 'len(b.mentions_positions)': one(2), 'b.mentions[0]': atleast(1), 'b.mentions_positions[0] - len(b.text)': atmost(0), 'b.mentions[1]': atleast(1), 'b.mentions_positions[1] - len(b.text)': atmost(0), 'b.mentions_positions[0] - b.mentions_positions[1]': atmost(0)}, A),
        ('three-mentions', {'len(b.mentions)': one(3), 'len(b.mentions_positions)': one(3), 'b.mentions[0]': atleast(1), 'b.mentions_positions[0] - len(b.text)': atmost(0), 'b.mentions[1]': atleast(1), 'b.mentions_positions[1] - len(b.text)': atmost(0), 'b.mentions[2]': atleast(1), 'b.mentions_positions[2] - len(b.text)': atmost(0), 'b.mentions_positions[0] - b.mentions_positions[1]': atmost(0), 'b.mentions_positions[1] - b.mentions_positions[2]': atmost(0)}, A),
        ('embeds-only', {'len(b.text)': one(0), 'len(b.embeds)': one(1)}, A, {'pats': PAT_OK_URL}),
    ]
    body_table(ctx, 'cast', 'CastAddBody', rows, 1, base=CASTBASE)


# ---------------------------------------------------------------- V07 embeds, parents, removes
def cast_id_rows(p, star=None, pre=None, base=None):
    pre = pre or {}
    ex = {'stars': star} if star else {}
    return [
        (p + '/fid-0', dict(pre, **{p + '.fid': one(0)}), R, ex),
        (p + '/hash-short', dict(pre, **{'len(%s.hash)' % p: between(0, 19)}), R, ex),
        (p + '/hash-long', dict(pre, **{'len(%s.hash)' % p: atleast(21)}), R, ex),
    ]


def url_rows(p, star=None, pre=None):
    pre = pre or {}
    ex = {'stars': star} if star else {}
    return [
        (p + '/url-empty', dict(pre, **{'len(%s)' % p: one(0)}), R, ex),
        (p + '/url-257', dict(pre, **{'len(%s)' % p: atleast(257)}), R, ex),
    ]


def v07(ctx):
    """For every element position of every reference list in a cast (and its parent), cells that violate one reference rule are checked to reject, with the element quantified by a symbolic index."""
    E = 'b.embeds[#i*].embed'
    st = {'b.embeds': ('i', 1)}
    rows = [('embed-missing', {'discr(%s)' % E: one(0)}, R, {'stars': st})]
    rows += url_rows(E + '.Some.Url', st, {'discr(%s)' % E: one(1), 'discr(%s.Some)' % E: one(0)})
    rows += cast_id_rows(E + '.Some.CastId', st, {'discr(%s)' % E: one(1), 'discr(%s.Some)' % E: one(1)})
    rows += url_rows('b.embeds_deprecated[#i*]', {'b.embeds_deprecated': ('i', 1)})
    P = 'b.parent'
    pid, purl = enum_ix(ctx, 'cast_add_body::Parent', 'ParentCastId'), enum_ix(ctx, 'cast_add_body::Parent', 'ParentUrl')
    c1 = {'discr(b.parent)': one(1), 'discr(b.parent.Some)': one(pid)}
    c2 = {'discr(b.parent)': one(1), 'discr(b.parent.Some)': one(purl)}
    rows += cast_id_rows('b.parent.Some.ParentCastId', None, c1)
    rows += url_rows('b.parent.Some.ParentUrl', None, c2)
    rows += [('parent-cast-ok', dict(c1, **{'b.parent.Some.ParentCastId.fid': atleast(1), 'len(b.parent.Some.ParentCastId.hash)': one(20)}), A),
             ('parent-url-ok', dict(c2, **{'len(b.parent.Some.ParentUrl)': between(1, 256)}), A)]
    e0 = 'b.embeds[0].embed'
    rows += [('embed-cast-ok', {'len(b.embeds)': one(1)}, A, {'pats': [(r'discr\(b\.embeds\[.*\]\.embed\)', one(1)), (r'discr\(b\.embeds\[.*\]\.embed\.Some\)', one(1)), (r'len\(b\.embeds\[.*\]\.embed\.Some\.CastId\.hash\)', one(20)), (r'b\.embeds\[.*\]\.embed\.Some\.CastId\.fid', atleast(1))]})]
    body_table(ctx, 'refs', 'CastAddBody', rows, 1, base=CASTBASE)
    rows = [('short', {'len(b.target_hash)': between(0, 19)}, R), ('long', {'len(b.target_hash)': atleast(21)}, R), ('ok', {'len(b.target_hash)': one(20)}, A)]
    body_table(ctx, 'cast-remove', 'CastRemoveBody', rows, 2)


# ---------------------------------------------------------------- V08 reactions and links
def v08(ctx):
    """Reaction and link bodies are partitioned by type, target presence, target kind and target content; every outcome reachable in the compiled validator is computed per cell."""
    rc, ru = enum_ix(ctx, 'reaction_body::Target', 'TargetCastId'), enum_ix(ctx, 'reaction_body::Target', 'TargetUrl')
    c1 = {'discr(b.target)': one(1), 'discr(b.target.Some)': one(rc)}
    c2 = {'discr(b.target)': one(1), 'discr(b.target.Some)': one(ru)}
    rows = [('type-neg', {'b.type': atmost(-1)}, R), ('type-3', {'b.type': atleast(3)}, R), ('no-target', {'discr(b.target)': one(0)}, R)]
    rows += cast_id_rows('b.target.Some.TargetCastId', None, c1) + url_rows('b.target.Some.TargetUrl', None, c2)
    rows += [('cast-ok', dict(c1, **{'b.type': one(1, 2), 'b.target.Some.TargetCastId.fid': atleast(1), 'len(b.target.Some.TargetCastId.hash)': one(20)}), A),
             ('url-ok', dict(c2, **{'b.type': one(1, 2), 'len(b.target.Some.TargetUrl)': between(1, 256)}), A)]
    body_table(ctx, 'reaction-add', 'ReactionBody', rows, 3)
    body_table(ctx, 'reaction-remove', 'ReactionBody', rows, 4)
    rows = [('type-empty', {'len(b.type)': one(0)}, R), ('type-9', {'len(b.type)': atleast(9)}, R), ('no-target', {'discr(b.target)': one(0)}, R),
            ('fid-0', {'discr(b.target)': one(1), 'b.target.Some.TargetFid': one(0)}, R),
            ('ok', {'len(b.type)': between(1, 8), 'discr(b.target)': one(1), 'b.target.Some.TargetFid': atleast(1)}, A)]
    body_table(ctx, 'link-add', 'LinkBody', rows, 5)
    body_table(ctx, 'link-remove', 'LinkBody', rows, 6)
    rows = [('type-empty', {'len(b.type)': one(0)}, R), ('type-9', {'len(b.type)': atleast(9)}, R), ('no-targets', {'len(b.target_fids)': one(0)}, R),
            ('fid-0', {'b.target_fids[#i*]': one(0)}, R, {'stars': {'b.target_fids': ('i', 1)}}),
            ('ok', {'len(b.type)': between(1, 8), 'len(b.target_fids)': atleast(1)}, A, {'pats': [(r'b\.target_fids\[.*\]', atleast(1))]})]
    body_table(ctx, 'link-compact', 'LinkCompactStateBody', rows, 14)


# ---------------------------------------------------------------- V09 user data
UD = dict(Pfp=1, Display=2, Bio=3, Url=5, Username=6, Location=7, Twitter=8, Github=9, Banner=10, Eth=11, Sol=12, Token=13, Live=14)
STRDENY = r'b\.value\[|as_bytes|chars\('
FN = r'\^\[a-z0-9\]\[a-z0-9-\]\{0,15\}\$'


def v09(ctx):
    """User-data bodies are partitioned by type, value length, pro status and protocol version; every outcome reachable in the compiled validator is computed per cell."""
    L, T, V = 'len(b.value)', 'b.type', 'discr(version)'
    rows = [('type-low', {T: atmost(0)}, R), ('type-4', {T: one(4)}, R), ('type-high', {T: atleast(15)}, R)]
    for k, n in (('Pfp', 256), ('Display', 32), ('Bio', 256), ('Url', 256), ('Banner', 256), ('Live', 256)):
        ok = {T: one(UD[k]), L: between(0, n)}
        if k == 'Banner':
            ok['pro'] = one(1)
        if k == 'Live':
            ok[V] = since(17)
        rows += [(k + '-over', {T: one(UD[k]), L: atleast(n + 1)}, R), (k + '-ok', ok, A)]
    rows += [('Banner-nonpro', {T: one(UD['Banner']), 'pro': one(0)}, R), ('Live-early', {T: one(UD['Live']), V: before(17)}, R),
             ('Eth-early', {T: one(UD['Eth']), V: before(5)}, R), ('Sol-early', {T: one(UD['Sol']), V: before(5)}, R), ('Token-early', {T: one(UD['Token']), V: before(10)}, R),
             ('Twitter-16', {T: one(UD['Twitter']), L: atleast(16)}, R), ('Github-39', {T: one(UD['Github']), L: atleast(39)}, R), ('Token-257', {T: one(UD['Token']), L: atleast(257)}, R),
             ('Token-unset', {T: one(UD['Token']), L: one(0), V: since(10)}, A), ('Eth-unset', {T: one(UD['Eth']), L: one(0), V: since(5)}, A), ('Sol-unset', {T: one(UD['Sol']), L: one(0), V: since(5)}, A),
             ('Location-unset', {T: one(UD['Location']), L: one(0)}, A), ('Username-unset', {T: one(UD['Username']), L: one(0)}, A)]
    body_table(ctx, 'userdata', 'UserDataBody', rows, 11)


def TW(ctx):
    return r'match\(.*b\.value\)'


def v10(ctx):
    """User-chosen names in profiles and name proofs are partitioned by suffix, part count, length and membership in the canonical name language (regular expressions are compared as languages); every outcome reachable is computed per cell."""
    T, V, L = 'b.type', 'discr(version)', 'len(b.value)'
    U = {T: one(6)}
    BASE, ETH = 'ends_with(b.value, ".base.eth")', 'ends_with(b.value, ".eth")'
    P, P0 = 'len(split(b.value, "."))', 'len(split(b.value, ".")[0])'
    M0 = [(r'match\("%s",split\(b\.value, "\."\)\[0\]\)' % FN, None)]

    def m0(v):
        return {'pats': [(M0[0][0], one(v))]}
    plain = dict(U, **{BASE: one(0), ETH: one(0)})
    eth = dict(U, **{BASE: one(0), ETH: one(1)})
    base = dict(U, **{BASE: one(1), ETH: one(1)})
    mv = (r'match\("%s",b\.value\)' % FN)
    rows = [
        ('plain-17', dict(plain, **{L: atleast(17)}), R),
        ('plain-badchars', dict(plain, **{L: atleast(1)}), R, {'pats': [(mv, one(0))]}),
        ('plain-ok', dict(plain, **{L: between(1, 16)}), A, {'pats': [(mv, one(1))]}),
        ('eth-21', dict(eth, **{L: atleast(21)}), R),
        ('eth-sub', dict(eth, **{P: atleast(3), L: atleast(4)}), R),
        ('eth-empty-label', dict(eth, **{P0: one(0), L: atleast(4)}), R),
        ('eth-badchars', dict(eth, **{L: atleast(4)}), R, m0(0)),
        ('eth-ok', dict(eth, **{L: between(5, 20), P: one(2), P0: between(1, 16)}), A, m0(1)),
        ('base-26', dict(base, **{L: atleast(26)}), R),
        ('base-sub', dict(base, **{P: atleast(4), L: atleast(9)}), R),
        ('base-empty-label', dict(base, **{P0: one(0), L: atleast(9)}), R),
        ('base-badchars', dict(base, **{L: atleast(9)}), R, m0(0)),
        ('base-ok', dict(base, **{L: between(10, 25), P: one(3), P0: between(1, 16)}), A, m0(1)),
    ]
    body_table(ctx, 'username', 'UserDataBody', rows, 11, deny=STRDENY)
    TWRE, GHRE = r'\^\[a-z0-9_\]\{0,15\}\$', None
    rows = []
    for k, n, pat in (('Twitter', 15, '^[a-z0-9_]{0,15}$'), ('Github', 38, '^[a-zA-Z\\d](?:[a-zA-Z\\d]|-(?!-)){0,38}$')):
        mm = r'match\("%s",b\.value\)' % re.escape(json.dumps(canon_pat(pat))[1:-1])
        rows += [(k + '-badchars', {T: one(UD[k])}, R, {'pats': [(mm, one(0))]}),
                 (k + '-ok', {T: one(UD[k]), L: between(1, n)}, A, {'pats': [(mm, one(1))]})]
    body_table(ctx, 'handles', 'UserDataBody', rows, 11, deny=STRDENY)
    # name proofs carry the name as bytes
    N = 'b.name'
    ends_b, ends_e = 'ends_with(b.name, ".base.eth")', 'ends_with(b.name, ".eth")'
    rows = [('type-none', {T: one(0)}, R), ('type-fname', {T: one(1)}, R), ('type-other', {T: ((NEG, -1), (4, POS))}, R),
            ('base-early', {T: one(3), V: before(5)}, R)]
    PN, PN0, LN = 'len(split(b.name, "."))', 'len(split(b.name, ".")[0])', 'len(b.name)'
    UTF = 'discr(utf8(b.name))'
    mn = r'match\("%s",split\(b\.name, "\."\)\[0\]\)' % FN
    e1 = {T: one(2), V: since(5)}
    b1 = {T: one(3), V: since(5)}
    rows += [('ens-early', {T: one(2), V: before(5)}, A),
             ('ens-21', dict(e1, **{LN: atleast(21)}), R), ('ens-suffix', dict(e1, **{ends_e: one(0)}), R), ('ens-sub', dict(e1, **{PN: atleast(3)}), R), ('ens-flat', dict(e1, **{PN: one(1)}), R),
             ('ens-badchars', dict(e1), R, {'pats': [(mn, one(0))]}), ('ens-empty', dict(e1, **{PN0: one(0)}), R),
             ('ens-ok', dict(e1, **{LN: between(5, 20), PN: one(2), PN0: between(1, 16), ends_e: one(1)}), A, {'pats': [(mn, one(1)), (r'utf8\(b\.name\)', one(1))]}),
             ('base-26', dict(b1, **{LN: atleast(26)}), R), ('base-suffix', dict(b1, **{ends_b: one(0)}), R), ('base-sub', dict(b1, **{PN: atleast(4)}), R), ('base-flat', dict(b1, **{PN: atmost(2)}), R),
             ('base-badchars', dict(b1), R, {'pats': [(mn, one(0))]}), ('base-empty', dict(b1, **{PN0: one(0)}), R),
             ('base-ok', dict(b1, **{LN: between(10, 25), PN: one(3), PN0: between(1, 16), ends_b: one(1), ends_e: one(1)}), A, {'pats': [(mn, one(1)), (r'utf8\(b\.name\)', one(1))]})]
    body_table(ctx, 'proof', 'UsernameProofBody', rows, 12, deny=r'b\.name\[')


def canon_pat(p):
    import rx
    return rx.canon(p)



# ---------------------------------------------------------------- V05 dispatch and gates
CHANNEL = [('ChannelUpdateBody', 18), ('ChannelMemberBody', 19), ('ChannelPinBody', 20), ('ChannelModerateBody', 21)]


def v05(ctx):
    """For every message body kind the schema defines, inputs with an invalid body of that kind must be rejected (no kind may bypass its rules), and kinds introduced by a protocol version must be rejected before it."""
    a = ctx.F.adt('snapchain_proto::message_data::Body')
    bad = {  # one definitely-invalid cell per body kind
        'CastAddBody': {'b.type': atleast(3)}, 'CastRemoveBody': {'len(b.target_hash)': one(0)}, 'ReactionBody': {'discr(b.target)': one(0)}, 'LinkBody': {'discr(b.target)': one(0)},
        'LinkCompactStateBody': {'len(b.target_fids)': one(0)}, 'VerificationAddAddressBody': {'b.protocol': atleast(2)}, 'VerificationRemoveBody': {'b.protocol': atleast(2)}, 'UserDataBody': {'b.type': one(0)},
        'UsernameProofBody': {'b.type': one(0)}, 'FrameActionBody': {'b.button_index': atleast(6)}, 'LendStorageBody': {'b.num_units': atleast(5001), 'now.' + timefield(ctx): between(600, 2 ** 32)}, 'KeyAddBody': {'len(b.key)': one(31)}, 'KeyRemoveBody': {'len(b.key)': one(31)},
        'ChannelUpdateBody': {'len(b.channel_id)': one(31)}, 'ChannelMemberBody': {'len(b.channel_id)': one(31)}, 'ChannelPinBody': {'len(b.channel_id)': one(31)}, 'ChannelModerateBody': {'len(b.channel_id)': one(31)},
    }
    kinds = [v['n'] for v in a['variants']]
    ctx.floor('body kinds', len(kinds), 17)
    for k in kinds:
        ctx.ob(k in bad, 'dispatch/%s' % k, 'body kind %s has no rule in this property' % k)
        if k in bad:
            rows = [('invalid-rejected', bad[k], R)]
            if k in dict(CHANNEL):
                rows.append(('before-V21', {'discr(version)': before(21)}, R))
            body_table(ctx, 'dispatch-' + k, k, rows, 1)


# ---------------------------------------------------------------- V11 location, token, primary address
GEO = r'^geo:(-?\d{1,2}\.\d{2}),(-?\d{1,3}\.\d{2})$'
CAIP = r'^[a-z0-9]+:[a-zA-Z0-9]+/[a-z0-9-]{3,8}:[-.%a-zA-Z0-9]{1,128}(/[a-zA-Z0-9]+)?$'


def v11(ctx):
    """Location, token and primary-address strings are partitioned by membership in the specified language, the numeric value of each coordinate, and the results of address decoding; every outcome reachable is computed per cell."""
    from models import FLOAT_SCALE as FS
    T, V, L = 'b.type', 'discr(version)', 'len(b.value)'
    g = re.escape(json.dumps(canon_pat(GEO)))
    m = r'match\(%s,b\.value\)' % g

    def num_(i):
        return r'parse\((?:Match::as_str\()?group\(captures\(%s,b\.value\), %d\)\)+\.Ok' % (g, i)

    def pd(i):
        return r'discr\(parse\((?:Match::as_str\()?group\(captures\(%s,b\.value\), %d\)\)+\)' % (g, i)
    loc = {T: one(7), L: atleast(1)}
    inr = [(num_(1), between(-90 * FS, 90 * FS)), (num_(2), between(-180 * FS, 180 * FS)), (pd(1), one(0)), (pd(2), one(0)), (m, one(1))]
    rows = [
        ('geo-format', loc, R, {'pats': [(m, one(0))]}),
        ('lat-high', loc, R, {'pats': [(num_(1), atleast(90 * FS + 1))]}), ('lat-low', loc, R, {'pats': [(num_(1), atmost(-90 * FS - 1))]}),
        ('lon-high', loc, R, {'pats': [(num_(2), atleast(180 * FS + 1))]}), ('lon-low', loc, R, {'pats': [(num_(2), atmost(-180 * FS - 1))]}),
        ('geo-ok', loc, A, {'pats': inr}),
    ]
    body_table(ctx, 'location', 'UserDataBody', rows, 11, deny=STRDENY)
    c = r'match\(%s,b\.value\)' % re.escape(json.dumps(canon_pat(CAIP)))
    tok = {T: one(13), V: since(10), L: atleast(1)}
    rows = [('token-format', tok, R, {'pats': [(c, one(0))]}), ('token-257', dict(tok, **{L: atleast(257)}), R),
            ('token-ok', dict(tok, **{L: between(7, 256), 'len(split(b.value, "/"))': between(2, 3), 'len(split(b.value, "/")[1])': between(5, 128), 'has_find(split(b.value, "/")[1], 58)': one(1)}), A, {'pats': [(c, one(1))]})]
    body_table(ctx, 'token', 'UserDataBody', rows, 11, deny=STRDENY)
    eth = {T: one(11), V: since(5), L: atleast(1)}
    dec = r'(?:FromHex::from_hex|hex::decode|str::parse|parse|Address::\w+)\(b\.value.*?\)'
    rows = [('eth-prefix', dict(eth, **{'starts_with(b.value, "0x")': one(0)}), R), ('eth-len', {T: one(11), V: since(5), L: ((1, 41), (43, POS))}, R),
            ('eth-hex', eth, R, {'pats': [(r'discr\(%s\)' % dec, one(1))]}),
            ('eth-checksum', eth, R, {'pats': [(r'eq\(Address::to_checksum\(.*b\.value.*\),b\.value\)', one(0)), (r'eq\(b\.value,Address::to_checksum\(.*b\.value.*\)\)', one(0)), (r'discr\(Address::parse_checksummed\(b\.value.*\)\)', one(1))]}),
            ('eth-ok', dict(eth, **{L: one(42), 'starts_with(b.value, "0x")': one(1)}), A, {'pats': [(r'discr\(%s\)' % dec, one(0)), (r'eq\(Address::to_checksum\(.*b\.value.*\),b\.value\)', one(1))]})]
    body_table(ctx, 'eth', 'UserDataBody', rows, 11, deny=STRDENY)
    sol = {T: one(12), V: since(5), L: atleast(1)}
    sd = r'DecodeBuilder::into_vec\(bs58::decode\(b\.value\)\)'
    rows = [('sol-base58', sol, R, {'pats': [(r'discr\(%s\)' % sd, one(1))]}), ('sol-short', sol, R, {'pats': [(r'len\(%s\.Ok\)' % sd, between(0, 31))]}), ('sol-long', sol, R, {'pats': [(r'len\(%s\.Ok\)' % sd, atleast(33))]}),
            ('sol-ok', sol, A, {'pats': [(r'discr\(%s\)' % sd, one(0)), (r'len\(%s\.Ok\)' % sd, one(32))]})]
    body_table(ctx, 'sol', 'UserDataBody', rows, 11, deny=STRDENY)


# ---------------------------------------------------------------- V12 verifications
def v12(ctx):
    """Verification bodies are partitioned by protocol, field lengths, chain id, kind and the verdict of the claimed signature; every outcome reachable in the compiled validator is computed per cell."""
    P, TY, CH = 'b.protocol', 'b.verification_type', '(b.chain_id as u16)'
    E = {P: one(0), 'len(b.address)': one(20), 'len(b.block_hash)': one(32), 'b.chain_id': one(0, 1, 5, 10, 420), CH: one(0, 1, 5, 10, 420)}
    rec = r'Signature::recover_address_from_prehash\(.*\)'
    good = [(r'discr\(serde_json::from_value\(.*\)\)', one(0)), (r'discr\(TypedData::eip712_signing_hash\(.*\)\)', one(0)), (r'discr\(%s\)' % rec, one(0)), (r'eq\(%s\.Ok,b\.address\)' % rec, one(1)), (r'eq\(b\.address,%s\.Ok\)' % rec, one(1))]
    rows = [
        ('protocol', {P: ((NEG, -1), (2, POS))}, R),
        ('eth-addr-short', {P: one(0), 'len(b.address)': between(0, 19)}, R), ('eth-addr-long', {P: one(0), 'len(b.address)': atleast(21)}, R),
        ('eth-hash-short', {P: one(0), 'len(b.block_hash)': between(0, 31)}, R), ('eth-hash-long', {P: one(0), 'len(b.block_hash)': atleast(33)}, R),
        ('eth-sig-huge', {P: one(0), 'len(b.claim_signature)': atleast(2049)}, R),
        ('eth-chain', {P: one(0), 'b.chain_id': ((2, 4), (6, 9), (11, 419), (421, 65535)), CH: ((2, 4), (6, 9), (11, 419), (421, 65535))}, R),
        ('eth-type', {P: one(0), TY: atleast(2)}, R),
        ('eoa-sig-len', {P: one(0), TY: one(0), 'len(b.claim_signature)': ((0, 64), (66, POS))}, R),
        ('eoa-unrecoverable', {P: one(0), TY: one(0)}, R, {'pats': [(r'discr\(%s\)' % rec, one(1))]}),
        ('eoa-other-address', {P: one(0), TY: one(0)}, R, {'pats': [(r'eq\(%s\.Ok,b\.address\)' % rec, one(0)), (r'eq\(b\.address,%s\.Ok\)' % rec, one(0))]}),
        ('eoa-ok', dict(E, **{TY: one(0), 'len(b.claim_signature)': one(65)}), A, {'pats': good}),
        ('contract-deferred', dict(E, **{TY: one(1), 'len(b.claim_signature)': between(0, 2048)}), A),
        ('sol-addr-short', {P: one(1), 'len(b.address)': between(0, 31)}, R), ('sol-addr-long', {P: one(1), 'len(b.address)': atleast(33)}, R),
        ('sol-hash-short', {P: one(1), 'len(b.block_hash)': between(0, 31)}, R), ('sol-hash-long', {P: one(1), 'len(b.block_hash)': atleast(33)}, R),
        ('sol-sig-len', {P: one(1), 'len(b.claim_signature)': ((0, 63), (65, POS))}, R),
        ('sol-key', {P: one(1)}, R, {'pats': [(r'discr\(VerifyingKey::\w+\(b\.address\)\)', one(1)), (r'discr\(try_into VerifyingKey\(b\.address\)\)', one(1))]}),
        ('sol-bad-sig', {P: one(1)}, R, {'pats': [(r'discr\(VerifyingKey::verify_strict\(.*b\.claim_signature.*\)\)', one(1))]}),
        ('sol-ok', {P: one(1), 'len(b.address)': one(32), 'len(b.block_hash)': one(32), 'len(b.claim_signature)': one(64)}, A),
    ]
    body_table(ctx, 'add', 'VerificationAddAddressBody', rows, 7)
    rows = [('protocol', {P: ((NEG, -1), (2, POS))}, R)]
    for p, n in ((0, 20), (1, 32)):
        rows += [('short-%d' % p, {P: one(p), 'len(b.address)': between(0, n - 1)}, R), ('long-%d' % p, {P: one(p), 'len(b.address)': atleast(n + 1)}, R), ('ok-%d' % p, {P: one(p), 'len(b.address)': one(n)}, A)]
    body_table(ctx, 'remove', 'VerificationRemoveBody', rows, 8)


# ---------------------------------------------------------------- V13 what the claim signatures bind
class T(str):
    pass


def J(o):
    if isinstance(o, dict):
        return 'Object({%s})' % ', '.join('%s: %s' % (k, J(o[k])) for k in sorted(o))
    if isinstance(o, list):
        return 'Array([%s])' % ', '.join(J(x) for x in o)
    if isinstance(o, T):
        return str(o)
    return json.dumps(o) if isinstance(o, str) else str(o)


def fields(*fs):
    return [{'name': n, 'type': t} for n, t in fs]


def typed(prim, fs, domain, message, dom_fields, extra=None):
    d = {'types': {'EIP712Domain': dom_fields, prim: fs}, 'primaryType': prim, 'domain': domain, 'message': message}
    d.update(extra or {})
    return d


def prehash(j):
    return 'TypedData::eip712_signing_hash(serde_json::from_value(%s).Ok).Ok' % J(j)


def recover(sig, j, parity):
    return 'Signature::recover_address_from_prehash(Signature::from_bytes_and_parity(%s[0..64], %s), %s)' % (sig, parity, prehash(j))


SIGV = [r'^discr\((?:serde_json|TypedData|Signature::recover)']
DOM4 = fields(('name', 'string'), ('version', 'string'), ('chainId', 'uint256'), ('verifyingContract', 'address'))
DOM3 = fields(('name', 'string'), ('version', 'string'), ('chainId', 'uint256'))
VDOM = {'name': 'Farcaster Verify Ethereum Address', 'version': '2.0.0', 'salt': '0xf2d857f4a3edcb9b78b4d503bfe733db1e3f6cdc2b7971ee739626c97e86a558'}
VCLAIM = fields(('fid', 'uint256'), ('address', 'address'), ('blockHash', 'bytes32'), ('network', 'uint8'))


def orless(j, key):
    """the same document, with or without a key the digest does not cover"""
    k = dict(j)
    k.pop(key, None)
    return [j, k]


def eqpats(a, b, v):
    a, b = re.escape(a), re.escape(b)
    return [(r'eq\(%s,%s\)' % (a, b), v), (r'eq\(%s,%s\)' % (b, a), v)]


def v13(ctx):
    """The signed document each verifier reconstructs is computed symbolically from the code; a cell in which the signature does not match exactly the specified document (every field bound, right domain, types and key) must reject."""
    e = entry_vm(ctx)
    ix = variant_index(ctx, 'VerificationAddAddressBody')
    rows = []
    for r in ROUTES:
        d, _ = ROUTES[r]
        B = d + '.body.Some.VerificationAddAddressBody'
        for sb, par, n in [(a, b, n) for a, b in ((one(0, 27), '0'), (one(1, 28), '1')) for n in (1, 2, 3)]:
            j = typed('VerificationClaim', VCLAIM, VDOM, {'fid': T(d + '.fid'), 'address': T('hex::encode(%s.address)' % B), 'blockHash': T('hex::encode(%s.block_hash)' % B), 'network': n}, DOM4, {'address': T('hex::encode(%s.address)' % B)})
            pats = []
            for jj in orless(j, 'address'):
                pats += eqpats(recover(B + '.claim_signature', jj, par) + '.Ok', B + '.address', one(0))
            c = dict(route_base(r), **{'discr(%s.body)' % d: one(1), 'discr(%s.body.Some)' % d: one(ix), B + '.protocol': one(0), B + '.verification_type': one(0), B + '.claim_signature[64]': sb, d + '.network': one(n)})
            rows.append(Row('%s/eoa-parity-%s-net%d' % (r, par, n), c, R, pats=pats))
        for n in (1, 2, 3):
            msg = 'fmt("fid: {} address: {} network: %d blockHash: {} protocol: 1", %s.fid, EncodeBuilder::into_string(bs58::encode(%s.address)), EncodeBuilder::into_string(bs58::encode(%s.block_hash)))' % (n, d, B, B)
            pats = [(r'discr\(VerifyingKey::verify_strict\((?:VerifyingKey::\w+|try_into VerifyingKey)\(%s\.address\)\.Ok, %s, Signature::\w+\(%s\.claim_signature\)(?:\.Ok)?\)\)' % (re.escape(B), re.escape(msg), re.escape(B)), one(1))]
            rows.append(Row('%s/sol-net%d' % (r, n), dict(route_base(r), **{'discr(%s.body)' % d: one(1), 'discr(%s.body.Some)' % d: one(ix), B + '.protocol': one(1), d + '.network': one(n)}), R, pats=pats))
    ctx.table('claim', e, rows, models=MODELS, vocab=VOC + SIGV)
    # the deferred contract-signature check binds the same claim plus the chain
    ce = ctx.entry('snapchain::core::validations::verification::validate_verification_contract_signature', [('claim', r'VerificationAddressClaim$'), ('body', r'VerificationAddAddressBody$')])
    prov = [a[1] for a in ce.args if a[1].startswith('extra_')]
    j = typed('VerificationClaim', VCLAIM, dict(VDOM, chainId=T('(body.chain_id as u16)')), {'fid': T('claim.fid'), 'address': T('claim.address'), 'blockHash': T('claim.block_hash'), 'network': T('claim.network')}, DOM4)
    sig = r'(?:into Bytes\()*body\.claim_signature\)*'
    call = r'await (?:contract_signature::)?verify_signature\(%s, (?:into )?\w*\(?body\.address\)?(?:\.Ok)?\)?, %s, %s\)' % (sig, re.escape(prehash(j)), prov[0] if prov else r'\w+')
    kw = dict(opaque=[r'contract_signature::verify_signature$'], vocab=[r'await .*verify_signature'])
    vi = enum_ix2(ctx, 'snapchain::core::validations::contract_signature::Verification', 'Invalid')
    ctx.table('contract-claim', ce, [
        Row('invalid', {}, R, pats=[(r'discr\(%s\.Ok\)' % call, one(vi))]),
        Row('rpc-error', {}, R, pats=[(r'discr\(%s\)' % call, one(1))]),
        Row('valid', {'len(body.address)': one(20)}, A, pats=[(r'discr\(%s\)' % call, one(0)), (r'discr\(%s\.Ok\)' % call, one(1 - vi)), (r'discr\(serde_json.*', one(0)), (r'discr\(TypedData.*', one(0))]),
    ], **kw)


def enum_ix2(ctx, path, variant):
    a = ctx.F.adt(path)
    if a is None or variant not in a['byname']:
        from harness import Anchor
        raise Anchor('%s::%s not found' % (path, variant))
    return a['byname'][variant][0]


# ---------------------------------------------------------------- V14 key authorisations
def v14(ctx):
    """Key-add and key-remove bodies are partitioned by every statically checkable field, with the scope list quantified by a symbolic index."""
    ok = {'len(b.key)': one(32), 'b.key_type': one(1), 'b.deadline': atleast(1), 'b.ttl': between(1, 7776000), 'b.metadata_type': one(1), 'len(b.metadata)': atleast(1), 'len(b.scopes)': between(1, 16)}
    allow = (1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 15)
    deny = ((NEG, 0), (9, 10), (16, POS))
    rows = [
        ('key-short', {'len(b.key)': between(0, 31)}, R), ('key-long', {'len(b.key)': atleast(33)}, R), ('key-type', {'b.key_type': ((NEG, 0), (2, POS))}, R), ('deadline', {'b.deadline': one(0)}, R),
        ('ttl-0', {'b.ttl': one(0)}, R), ('ttl-long', {'b.ttl': atleast(7776001)}, R), ('metadata-type', {'b.metadata_type': ((NEG, 0), (2, POS))}, R), ('metadata-empty', {'len(b.metadata)': one(0)}, R),
        ('scopes-0', {'len(b.scopes)': one(0)}, R), ('scopes-17', {'len(b.scopes)': atleast(17)}, R), ('scope-denied', {'b.scopes[#i*]': deny}, R, {'stars': {'b.scopes': ('i', 1)}}),
        ('ok', ok, A, {'pats': [(r'b\.scopes\[.*\]', one(*allow))]}),
    ]
    body_table(ctx, 'key-add', 'KeyAddBody', rows, 16)
    rows = [('key-short', {'len(b.key)': between(0, 31)}, R), ('key-long', {'len(b.key)': atleast(33)}, R), ('deadline', {'b.deadline': one(0)}, R), ('sigtype', {'b.signature_type': ((NEG, 0), (3, POS))}, R),
            ('ok', {'len(b.key)': one(32), 'b.deadline': atleast(1), 'b.signature_type': one(1, 2)}, A)]
    body_table(ctx, 'key-remove', 'KeyRemoveBody', rows, 17)


# ---------------------------------------------------------------- V15 key signature payloads
def kdom():
    return {'name': 'Farcaster KeyAdd', 'version': '1', 'chainId': T('chain_id')}


def hexkey(k):
    return T('fmt("0x{}", hex::encode(%s))' % k)


def v15(ctx):
    """The custody and request documents the key verifiers reconstruct are computed symbolically; the recovered signer must be the one over exactly the specified document, and the request metadata rules must reject in every violating cell."""
    K = 'snapchain::core::validations::key::'
    KA = fields(('fid', 'uint256'), ('key', 'bytes'), ('keyType', 'uint32'), ('scopes', 'uint32[]'), ('ttl', 'uint32'), ('nonce', 'uint32'), ('deadline', 'uint256'))
    KR = fields(('fid', 'uint256'), ('key', 'bytes'), ('nonce', 'uint32'), ('deadline', 'uint256'))
    for nm, pay, prim, fs, msg in (
            ('recover_key_add_custody_address', 'KeyAddPayload', 'KeyAdd', KA, {'fid': T('payload.fid'), 'key': hexkey('payload.key'), 'keyType': T('payload.key_type'), 'scopes': T('SCOPES'), 'ttl': T('payload.ttl'), 'nonce': T('payload.nonce'), 'deadline': T('payload.deadline')}),
            ('recover_key_remove_custody_address', 'KeyRemovePayload', 'KeyRemove', KR, {'fid': T('payload.fid'), 'key': hexkey('payload.key'), 'nonce': T('payload.nonce'), 'deadline': T('payload.deadline')})):
        e = ctx.entry(K + nm, [('payload', pay + r'\b'), ('signature', r'\[u8\]|Vec<u8'), ('chain_id', r'^u32$')])
        rows = []
        for sb, par in ((one(0, 27), '0'), (one(1, 28), '1')):
            j = typed(prim, fs, kdom(), msg, DOM3)
            want = re.escape('Ok(%s.Ok)' % recover('signature', j, par)).replace('SCOPES', r'collect\(map\((?:iter\()?payload\.scopes\)?, [^{}]*\)\)')

            def exp(I, o, k, txt, want=want):
                if k == 'err':
                    return True
                return True if re.fullmatch(want, txt) else 'an address recovered from a different document: %s' % txt[-600:]
            rows.append(Row('%s/parity-%s' % (prim, par), {'signature[64]': sb}, exp, say='the address recovered from the specified document'))
            g = {'len(signature)': one(65), 'signature[64]': sb}
            rows.append(Row('%s/ok-%s' % (prim, par), g, A, pats=[(r'discr\(serde_json.*', one(0)), (r'discr\(TypedData.*', one(0)), (r'discr\(Signature::recover.*', one(0)), (r'payload\.scopes\[.*\]', between(0, 100)), (r'len\(payload\.scopes\)', between(1, 16))]))
        rows.append(Row('%s/sig-len' % prim, {'len(signature)': ((0, 64), (66, POS))}, R))
        ctx.table('custody', e, rows, vocab=SIGV)
    ctx.explain.append(v15.__doc__)
    e = ctx.entry(K + 'verify_signed_key_request_metadata', [('mtype', r'^u32$'), ('metadata', r'\[u8\]'), ('key', r'\[u8\]'), ('now', r'^u64$'), ('chain_id', r'^u32$')])
    D = 'SolType::abi_decode(metadata)'
    dl, rf = 'try_into u64(%s.Ok.deadline)' % D, 'try_into u64(%s.Ok.requestFid)' % D
    rows = [
        Row('metadata-type', {'mtype': ((NEG, 0), (2, POS))}, R), Row('empty', {'len(metadata)': one(0)}, R), Row('undecodable', {'discr(%s)' % D: one(1)}, R),
        Row('deadline-range', {'discr(%s)' % dl: one(1)}, R), Row('fid-range', {'discr(%s)' % rf: one(1)}, R), Row('expired', {'%s.Ok - now' % dl: atmost(-1)}, R),
        Row('unrecoverable', {}, R, pats=[(r'discr\(Signature::recover.*', one(1))]), Row('sig-len', {'len(%s.Ok.signature)' % D: ((0, 64), (66, POS))}, R),
    ]
    SK = fields(('requestFid', 'uint256'), ('key', 'bytes'), ('deadline', 'uint256'))
    S = D + '.Ok.signature'
    for sb, par in ((one(0, 27), '0'), (one(1, 28), '1')):
        j = typed('SignedKeyRequest', SK, kdom(), {'requestFid': T(rf + '.Ok'), 'key': hexkey('key'), 'deadline': T(dl + '.Ok')}, DOM3)
        rec = recover(S, j, par)
        rows.append(Row('other-signer-%s' % par, {S + '[64]': sb}, R, pats=eqpats(rec + '.Ok', D + '.Ok.requestSigner', one(0))))
        good = {'mtype': one(1), 'len(metadata)': atleast(1), 'discr(%s)' % D: one(0), 'discr(%s)' % dl: one(0), 'discr(%s)' % rf: one(0), '%s.Ok - now' % dl: atleast(0), 'len(%s)' % S: one(65), S + '[64]': sb}

        def exp(I, o, k, txt):
            if k == 'err':
                return 'a valid request is refused: %s' % txt
            m = {'request_fid: ' + rf + '.Ok': 1, 'deadline: ' + dl + '.Ok': 1}
            return True if all(x in txt for x in m) else 'the verified request carries the wrong fields: %s' % txt[:300]
        rows.append(Row('ok-%s' % par, good, exp, pats=eqpats(rec + '.Ok', D + '.Ok.requestSigner', one(1)) + [(r'discr\(serde_json.*', one(0)), (r'discr\(TypedData.*', one(0)), (r'discr\(Signature::recover.*', one(0))], say='acceptance with the decoded fid and deadline'))
    ctx.table('request', e, rows, vocab=SIGV + [r'^discr\((?:SolType|try_into)'])


# ---------------------------------------------------------------- V16 contract signatures
def v16(ctx):
    """The results of the two chain queries are partitioned (query failure, code present or not, returned bytes, revert message); for each cell every verdict reachable in the compiled verifier is computed."""
    e = ctx.entry('snapchain::core::validations::contract_signature::verify_signature', [('address', r'Address$'), ('hash', r'FixedBytes')])
    ex = [a[1] for a in e.args if a[1].startswith('extra_')]
    code = r'await Provider::get_code_at\(.*?address\)'
    req = r'await Provider::call\(.*\)'
    erc = r'await Provider::call\((?=.*isValidSignatureCall\{)(?=.*_hash: hash)(?=.*_signature: (?:into Bytes\()?%s)(?=.*address).*\)' % re.escape(ex[0])
    sim = r'await Provider::call\((?!.*isValidSignatureCall)(?=.*fnv": "\w+")(?=.*constructorCall\{)(?=.*_signer: address)(?=.*_hash: hash)(?=.*_signature: (?:into Bytes\()?%s).*\)' % re.escape(ex[0])

    def never_valid(I, o, k, txt):
        return txt != 'Ok(Valid)'

    def only(t):
        return lambda I, o, k, txt: txt == t

    def errs(I, o, k, txt):
        return k == 'err'
    has = (r'len\(%s\.Ok\)' % code, atleast(1))
    none = (r'len\(%s\.Ok\)' % code, one(0))
    cok, callok, callerr = (r'discr\(%s\)' % code, one(0)), (r'discr\(%s\)' % req, one(0)), (r'discr\(%s\)' % req, one(1))
    magic = r'%s\.Ok\[(?:0)?\.\.4\]'
    rows = [
        Row('code-query-fails', {}, errs, pats=[(r'discr\(%s\)' % code, one(1))], say='an error'),
        Row('wallet-wrong-magic', {}, never_valid, pats=[has, (r'eq\(%s,bytes\(0x1626ba7e\)\)' % (magic % erc), one(0)), (r'eq\(bytes\(0x1626ba7e\),%s\)' % (magic % erc), one(0))], say='not Valid'),
        Row('wallet-short-answer', {}, never_valid, pats=[has, (r'len\(%s\.Ok\)' % req, between(0, 3))], say='not Valid'),
        Row('wallet-magic', {}, only('Ok(Valid)'), pats=[cok, has, callok, (r'len\(%s\.Ok\)' % erc, atleast(4)), (r'eq\(%s,bytes\(0x1626ba7e\)\)' % (magic % erc), one(1))], say='Valid'),
        Row('plain-not-one', {}, never_valid, pats=[none, (r'%s\.Ok\[0\]' % sim, ((0, 0), (2, 255)))], say='not Valid'),
        Row('plain-empty', {}, never_valid, pats=[none, (r'len\(%s\.Ok\)' % req, one(0))], say='not Valid'),
        Row('plain-one', {}, only('Ok(Valid)'), pats=[cok, none, callok, (r'len\(%s\.Ok\)' % sim, atleast(1)), (r'%s\.Ok\[0\]' % sim, one(1))], say='Valid'),
        Row('call-fails', {}, never_valid, pats=[cok, callerr], say='not Valid'),
        Row('call-reverts', {}, only('Ok(Invalid)'), pats=[cok, callerr, (r'discr\(RpcError::as_error_resp\(.*\)\)', one(1)), (r'starts_with\(RpcError::as_error_resp\(.*\)\.Some\.message, "execution reverted"\)', one(1))], say='Invalid'),
        Row('call-transport', {}, errs, pats=[cok, callerr, (r'discr\(RpcError::as_error_resp\(.*\)\)', one(0))], say='an error'),
        Row('call-other-error', {}, errs, pats=[cok, callerr, (r'starts_with\(RpcError::as_error_resp\(.*\)\.Some\.message, "execution reverted"\)', one(0))], say='an error'),
    ]
    ctx.table('verdict', e, rows, pure=[r'Provider::(get_code_at|call)$', r'TransactionRequest::', r'TransactionInput::'], vocab=[r'^discr\(await Provider', r'^len\(await Provider', r'^await Provider', r'^discr\(RpcError::'])


# ---------------------------------------------------------------- V17 channels
def v17(ctx):
    """Channel bodies are partitioned by id length, modes, member fid, action and cast hash length; every outcome reachable in the compiled validator is computed per cell."""
    S = {'discr(version)': since(21)}
    I = [('id-short', {'len(b.channel_id)': between(0, 31)}, R), ('id-long', {'len(b.channel_id)': atleast(33)}, R), ('early', {'discr(version)': before(21)}, R)]
    ok = dict(S, **{'len(b.channel_id)': one(32)})
    nc, nm = (len(ctx.F.adt('snapchain_proto::' + x)['variants']) for x in ('CastingMode', 'MembershipMode'))
    rows = I + [('casting-mode', {'discr(b.casting_mode)': one(1), 'b.casting_mode.Some': ((NEG, -1), (nc, POS))}, R), ('membership-mode', {'discr(b.membership_mode)': one(1), 'b.membership_mode.Some': ((NEG, -1), (nm, POS))}, R),
                ('ok-none', dict(ok, **{'discr(b.casting_mode)': one(0), 'discr(b.membership_mode)': one(0)}), A), ('ok-some', dict(ok, **{'discr(b.casting_mode)': one(1), 'discr(b.membership_mode)': one(1), 'b.casting_mode.Some': between(0, nc - 1), 'b.membership_mode.Some': between(0, nm - 1)}), A)]
    body_table(ctx, 'update', 'ChannelUpdateBody', rows, 18)
    na = len(ctx.F.adt('snapchain_proto::ChannelMemberAction')['variants'])
    rows = I + [('fid-0', {'b.fid': one(0)}, R), ('fid-big', {'b.fid': atleast(1 << 32)}, R), ('action-none', {'b.action': one(0)}, R), ('action-unknown', {'b.action': ((NEG, -1), (na, POS))}, R),
                ('ok', dict(ok, **{'b.fid': between(1, (1 << 32) - 1), 'b.action': between(1, na - 1)}), A)]
    body_table(ctx, 'member', 'ChannelMemberBody', rows, 19)
    rows = I + [('hash', {'len(b.cast_hash)': ((1, 19), (21, POS))}, R), ('ok', dict(ok, **{'len(b.cast_hash)': one(0, 20)}), A)]
    body_table(ctx, 'pin', 'ChannelPinBody', rows, 20)
    na = len(ctx.F.adt('snapchain_proto::ChannelModerateAction')['variants'])
    rows = I + [('hash', {'len(b.cast_hash)': ((0, 19), (21, POS))}, R), ('action-none', {'b.action': one(0)}, R), ('action-unknown', {'b.action': ((NEG, -1), (na, POS))}, R),
                ('ok', dict(ok, **{'len(b.cast_hash)': one(20), 'b.action': between(1, na - 1)}), A)]
    body_table(ctx, 'moderate', 'ChannelModerateBody', rows, 21)


# ---------------------------------------------------------------- V18 frames and lending
def v18(ctx):
    """Frame-action and storage-lend bodies are partitioned by their limits (and, for lends, by age against the block); every outcome reachable in the compiled validator is computed per cell."""
    ok = {'b.button_index': between(0, 5), 'len(b.url)': between(1, 1024), 'len(b.input_text)': between(0, 256), 'len(b.state)': between(0, 4096), 'len(b.transaction_id)': between(0, 256), 'len(b.address)': between(0, 64)}
    rows = [('button-6', {'b.button_index': atleast(6)}, R), ('url-empty', {'len(b.url)': one(0)}, R), ('url-1025', {'len(b.url)': atleast(1025)}, R), ('input-257', {'len(b.input_text)': atleast(257)}, R), ('state-4097', {'len(b.state)': atleast(4097)}, R),
            ('tx-257', {'len(b.transaction_id)': atleast(257)}, R), ('addr-65', {'len(b.address)': atleast(65)}, R)]
    rows += cast_id_rows('b.cast_id.Some', None, {'discr(b.cast_id)': one(1)})
    rows += [('ok', dict(ok, **{'discr(b.cast_id)': one(0)}), A), ('ok-cast', dict(ok, **{'discr(b.cast_id)': one(1), 'b.cast_id.Some.fid': atleast(1), 'len(b.cast_id.Some.hash)': one(20)}), A)]
    body_table(ctx, 'frame', 'FrameActionBody', rows, 13)
    t = timefield(ctx)
    nu = len(ctx.F.adt('snapchain_proto::StorageUnitType')['variants'])
    NOW = {'now.' + t: between(10 ** 6, 2 ** 32 - 1)}
    D = 'd.timestamp - now.%s' % t
    rows = [('units-5001', dict(NOW, **{'b.num_units': atleast(5001)}), R), ('type-bad', dict(NOW, **{'b.unit_type': ((NEG, -1), (nu, POS))}), R),
            ('backdated', dict(NOW, **{D: atmost(-601)}), R), ('ok', dict(NOW, **{'b.num_units': between(0, 5000), 'b.unit_type': between(0, nu - 1), D: between(-600, 600)}), A)]
    body_table(ctx, 'lend', 'LendStorageBody', rows, 15)


# ---------------------------------------------------------------- V19 name transfers
def v19(ctx):
    """Name-transfer inputs are partitioned by network, signature shape and the recovered signer over exactly the specified document; every outcome reachable in the compiled verifier is computed per cell."""
    e = ctx.entry('snapchain::core::validations::verification::validate_fname_transfer', [('transfer', r'FnameTransfer$'), ('net', r'FarcasterNetwork$'), ('signer', r'Option<.*Address')])
    P = 'transfer.proof.Some'
    base = {'discr(transfer.proof)': one(1)}
    dev = enum_ix(ctx, 'FarcasterNetwork', 'Devnet')
    nodev = {'discr(net)': one(*[i for i in range(4) if i != dev])}
    UN = fields(('name', 'string'), ('timestamp', 'uint256'), ('owner', 'address'))
    dom = {'name': 'Farcaster name verification', 'version': '1', 'chainId': T('1'), 'verifyingContract': '0xe3be01d99baa8db9905b33a3ca391238234b79d1'}
    j = typed('UserNameProof', UN, dom, {'name': T(P + '.name'), 'timestamp': T(P + '.timestamp'), 'owner': T('hex::encode(%s.owner)' % P)}, DOM4)
    rows = [Row('name-not-utf8', dict(base, **{'utf8(%s.name)' % P: one(0)}), R), Row('sig-len', dict(base, **dict(nodev, **{'len(%s.signature)' % P: ((0, 64), (66, POS))})), R),
            Row('unrecoverable', dict(base, **nodev), R, pats=[(r'discr\(Signature::recover.*', one(1))])]
    good = [(r'discr\(serde_json.*', one(0)), (r'discr\(TypedData.*', one(0)), (r'discr\(Signature::recover.*', one(0)), (r'utf8\(.*', one(1))]
    DEF = 'bytes(0xbc5274efc266311015793d89e9b591fa46294741)'
    for sb, par in ((one(0, 27), '0'), (one(1, 28), '1')):
        rec = recover(P + '.signature', j, par) + '.Ok'
        for who, sc in (('default', {'discr(signer)': one(0)}), ('override', {'discr(signer)': one(1)})):
            other = [(r'eq\(%s,.*\)' % re.escape(rec), None), (r'eq\(.*,%s\)' % re.escape(rec), None)]
            tgt = r'(?i:.*bc5274efc266311015793d89e9b591fa46294741.*)' if who == 'default' else r'signer\.Some'
            pp = [r'eq\(%s,%s\)' % (re.escape(rec), tgt), r'eq\(%s,%s\)' % (tgt, re.escape(rec))]
            c = dict(base, **dict(nodev, **dict(sc, **{P + '.signature[64]': sb})))
            rows.append(Row('%s-wrong-signer-%s' % (who, par), dict(c, **{'len(%s.signature)' % P: one(65)}), R, pats=[(p, one(0)) for p in pp]))
            rows.append(Row('%s-ok-%s' % (who, par), dict(c, **{'len(%s.signature)' % P: one(65)}), A, pats=[(p, one(1)) for p in pp] + good))
    ctx.table('fname', e, rows, vocab=SIGV)


# ---------------------------------------------------------------- V20 channel URIs
def v20(ctx):
    """Follow targets are partitioned by segment count, namespaces, and whether each numeric and address segment re-renders to itself; every result reachable in the compiled parser is computed per cell."""
    U = 'snapchain::core::channel_uri::'
    e = ctx.entry(U + 'channel_id_for_follow_target', [('uri', r'\bstr$'), ('reg', r'ChannelRegistrar$')])
    S0, S1, S2 = ('split(uri, "/")[%d]' % i for i in range(3))
    ch, ad = 'strip_prefix(%s, "eip155:")' % S0, 'strip_prefix(%s, "erc721:")' % S1
    adr = 'Address::parse_checksummed(%s, None)' % ad
    tok = 'Uint::from_str_radix(%s, 10)' % S2

    def eq2(a, b, v):
        return eqpats(a, b, v)
    good = {'len(uri)': between(1, 256), 'len(split(uri, "/"))': one(3), 'starts_with(%s, "eip155")' % S0: one(1), 'starts_with(%s, "eip155:")' % S0: one(1), 'starts_with(%s, "erc721")' % S1: one(1), 'starts_with(%s, "erc721:")' % S1: one(1),
            'discr(parse(%s))' % ch: one(0), 'discr(%s)' % adr: one(0), 'len(%s)' % S2: between(1, 78), 'discr(%s)' % tok: one(0), 'parse(%s).Ok - reg.chain_id' % ch: one(0), 'reg.chain_id - parse(%s).Ok' % ch: one(0)}
    gp = eq2(ch, 'to_string(parse(%s).Ok)' % ch, one(1)) + eq2(S2, 'to_string(%s.Ok)' % tok, one(1)) + eq2(adr + '.Ok', 'reg.address', one(1))

    def exact(I, o, k, txt):
        return True if txt == 'Some(Uint::to_be_bytes(%s.Ok))' % tok else 'result %s' % txt[:300]
    rows = [
        Row('too-long', {'len(uri)': atleast(257)}, R), Row('few-segments', {'len(split(uri, "/"))': between(1, 2)}, R), Row('many-segments', {'len(split(uri, "/"))': atleast(4)}, R),
        Row('chain-namespace', {'starts_with(%s, "eip155:")' % S0: one(0)}, R), Row('asset-namespace', {'starts_with(%s, "erc721:")' % S1: one(0)}, R),
        Row('chain-nan', {'discr(parse(%s))' % ch: one(1)}, R), Row('chain-noncanonical', {}, R, pats=eq2(ch, 'to_string(parse(%s).Ok)' % ch, one(0))),
        Row('address-checksum', {'discr(%s)' % adr: one(1)}, R), Row('token-nan', {'discr(%s)' % tok: one(1)}, R), Row('token-noncanonical', {}, R, pats=eq2(S2, 'to_string(%s.Ok)' % tok, one(0))),
        Row('other-chain', {'parse(%s).Ok - reg.chain_id' % ch: ((NEG, -1), (1, POS))}, R), Row('other-contract', {}, R, pats=eq2(adr + '.Ok', 'reg.address', one(0))),
        Row('follow', good, exact, pats=gp, say='the token id as 32 big-endian bytes'),
    ]
    ctx.table('uri', e, rows, deny=r'uri\[|as_bytes|chars\(')
    # the canonical spelling and the network constants
    ce = ctx.entry(U + 'ChannelAssetId::canonical_string', [('id', r'ChannelAssetId$')])

    def canon_str(I, o, k, txt):
        return True if txt == 'fmt("eip155:{}/erc721:{}/{}", id.chain_id, Address::to_checksum(id.contract, None), Uint::from_be_bytes(id.channel_id))' else 'renders %s' % txt[:300]
    ctx.table('canonical', ce, [Row('spelling', {}, canon_str, say='eip155:<chain>/erc721:<checksummed contract>/<token>')])
    re_ = ctx.entry(U + 'channel_registrar_for_network', [('net', r'FarcasterNetwork$')])
    nix = {n: enum_ix(ctx, 'FarcasterNetwork', n) for n in ('None', 'Mainnet', 'Testnet', 'Devnet')}

    def sep(I, o, k, txt):
        return True if re.search(r'chain_id: 11155111\b', txt) and '7dd80c661ded9bfc8d4440224a0b39b345a91be4' in txt.lower() else 'registrar %s' % txt[:200]
    ctx.table('registrar', re_, [Row('mainnet', {'discr(net)': one(nix['Mainnet'])}, R, say='no registrar'), Row('unspecified', {'discr(net)': one(nix['None'])}, R), Row('others', {'discr(net)': one(nix['Testnet'], nix['Devnet'])}, sep, say='the Sepolia registrar')])


# ---------------------------------------------------------------- V21 no panic on peer input
def v21(ctx):
    """Every function that inspects a message's content is interpreted over all inputs at once (no cell restriction); any reachable panic (index, slice, unwrap, overflow) is reported."""
    t = timefield(ctx)
    a = ctx.F.adt('snapchain_proto::message_data::Body')
    e = entry_vm(ctx)
    rows = []
    for r in ROUTES:
        d, _ = ROUTES[r]
        for i, v in enumerate(a['variants']):
            rows.append(Row('%s/%s' % (r, v['n']), dict(route_base(r), **{'discr(%s.body)' % d: one(1), 'discr(%s.body.Some)' % d: one(i), 'now.' + t: between(600, 2 ** 40)}), 'any'))
        rows.append(Row('%s/no-body' % r, dict(route_base(r), **{'discr(%s.body)' % d: one(0)}), 'any'))
    ctx.table('no-panic', e, rows, models=MODELS, vocab=VOC)
    K = 'snapchain::core::validations::key::'
    for p, ps in ((K + 'recover_key_add_custody_address', [('payload', r'KeyAddPayload'), ('signature', r'\[u8\]')]), (K + 'recover_key_remove_custody_address', [('payload', r'KeyRemovePayload'), ('signature', r'\[u8\]')]),
                  (K + 'verify_signed_key_request_metadata', [('mtype', r'^u32$'), ('metadata', r'\[u8\]'), ('key', r'\[u8\]')]),
                  ('snapchain::core::channel_uri::channel_id_for_follow_target', [('uri', r'\bstr$')])):
        en = ctx.entry(p, ps)
        ctx.table('no-panic-' + p.split('::')[-1], en, [Row('all', {}, 'any')])
    en = ctx.entry('snapchain::core::validations::verification::validate_fname_transfer', [('transfer', r'FnameTransfer$')])
    ctx.table('no-panic-fname', en, [Row('all', {'discr(transfer.proof)': one(1)}, 'any')])


CHECKS = {'V01': v01, 'V02': v02, 'V03': v03, 'V04': v04, 'V05': v05, 'V06': v06, 'V07': v07, 'V08': v08, 'V09': v09, 'V10': v10, 'V11': v11, 'V12': v12, 'V13': v13, 'V14': v14, 'V15': v15, 'V16': v16, 'V17': v17, 'V18': v18, 'V19': v19, 'V20': v20, 'V21': v21}
