"""Partition tables over the message validator's input, for both ways a message carries its data."""
import contextlib, re
from harness import Row, Entry, Table, between, one, atmost, atleast, POS, NEG
from absint import INT, rs_const

VM = 'snapchain::core::validations::message::validate_message'
LATEST = 21
ALLV = ((0, 21),)


def since(v):
    return ((v, LATEST),)


def before(v):
    return ((0, v - 1),)


def cmpb_model(I, st, f, args, dty):
    """three-way comparison of two byte strings: the sign is the quantity, zero exactly when equal"""
    import models
    a, b = sorted([I.term(st, args[0]), I.term(st, args[1])])
    return [(st, I.sym('cmpb(%s,%s)' % (a, b), ((-1, 1),)))]


def decode_model(I, st, f, args, dty):
    if I.term(st, args[0]) == 'message.data_bytes.Some':
        return [(st, ('o', 'decoded'))]


MODELS = {r'(^|::)bytes_compare$': cmpb_model, r'(^|::)decode$': decode_model}

ROUTES = {
    'inline': ('message.data.Some', r'Message(?:Data)?::encode_to_vec\(message\.data\.Some\)'),
    'bytes': ('decoded.Ok', r'message\.data_bytes\.Some'),
}


def good_hash(route):
    b = ROUTES[route][1]
    return [(r'cmpb\((?=.*message\.hash).*%s.*\)' % b, one(0)), (r'eq\((?=.*message\.hash).*blake3.*%s.*\)' % b, one(1)), (r'eq\(.*blake3.*%s.*message\.hash.*\)' % b, one(1))]


GOOD_SIG = [(r'discr\(.*verify_strict\(.*\)\)', one(0)), (r'discr\(Signature::\w+\(.*\)\)', one(0)), (r'discr\(try_into .*message\.signer.*\)', one(0)), (r'discr\(VerifyingKey::(?:from_bytes|try_from)\(.*\)\)', one(0))]


def route_base(route):
    return {'discr(message.data_bytes)': one(0 if route == 'inline' else 1)}


def timefield(ctx):
    a = ctx.F.adt('snapchain::core::util::FarcasterTime')
    try:
        return a['variants'][0]['fields'][0][0] if isinstance(a['variants'][0], dict) else a['variants'][0][1][0][0]
    except Exception:
        return 'time'


def enum_ix(ctx, enum, variant):
    a = ctx.F.adt('snapchain_proto::' + enum)
    if a is None or variant not in a['byname']:
        from harness import Anchor
        raise Anchor('%s::%s not found' % (enum, variant))
    return a['byname'][variant][0]


def good_env(route, mtype=1, nbytes=(1, 2048), t='time'):
    """a cell in which every envelope rule is satisfied"""
    d, b = ROUTES[route]
    bt = 'Message::encode_to_vec(message.data.Some)' if route == 'inline' else 'message.data_bytes.Some'
    c = dict(route_base(route))
    if route == 'inline':
        c['discr(message.data)'] = one(1)
    else:
        c['discr(decoded)'] = one(0)
    c['len(%s)' % bt] = between(*nbytes)
    c[d + '.network'] = one(1)
    c['discr(net)'] = one(1)
    c['message.hash_scheme'] = one(1)
    c['message.signature_scheme'] = one(1)
    c['len(message.signature)'] = one(64)
    c['len(message.signer)'] = one(32)
    c['len(message.hash)'] = one(20)
    c[d + '.type'] = one(mtype)
    c['%s.timestamp - now.%s' % (d, t)] = between(-10 ** 9, 600)
    pats = good_hash(route) + GOOD_SIG
    return c, pats


PARAMS = [('message', r'(^|::|\s|&)(snapchain_proto::)?Message$'), ('net', r'FarcasterNetwork$'), ('pro', r'^bool$'), ('now', r'FarcasterTime$'), ('version', r'EngineVersion$')]


def entry_vm(ctx):
    return ctx.entry(VM, PARAMS)


def subst(k, d, body):
    k = re.sub(r'(?<![\w.\])])b\.', body + '.', k)
    k = re.sub(r'(?<![\w.\])])d\.', d + '.', k)
    k = re.sub(r'(?<![\w.\])])b(?![\w.(])', body, k)
    return k


def variant_index(ctx, variant):
    a = ctx.F.adt('snapchain_proto::message_data::Body')
    if a is None or variant not in a['byname']:
        from harness import Anchor
        raise Anchor('message body variant %s not found' % variant)
    return a['byname'][variant][0]


MT = dict(None_=0, CastAdd=1, CastRemove=2, ReactionAdd=3, ReactionRemove=4, LinkAdd=5, LinkRemove=6, VerificationAdd=7, VerificationRemove=8, UserDataAdd=11, UsernameProof=12, FrameAction=13, LinkCompactState=14, LendStorage=15, KeyAdd=16, KeyRemove=17, ChannelUpdate=18, ChannelMember=19, ChannelPin=20, ChannelModerate=21)


def body_table(ctx, name, variant, rows, mtype, nbytes=(1, 2048), base=None, routes=('inline', 'bytes'), **kw):
    """rows: (row name, cell, expectation[, extra]) with b. = the body, d. = the message data"""
    e = entry_vm(ctx)
    ix = variant_index(ctx, variant)
    for r in routes:
        d, _ = ROUTES[r]
        body = '%s.body.Some.%s' % (d, variant)
        out = []
        for row in rows:
            nm, cell, expect = row[:3]
            ex = dict(row[3]) if len(row) > 3 else {}
            pats = [(subst(p, re.escape(d), re.escape(body)), v) for p, v in ex.pop('pats', [])]
            stars = {subst(k, d, body): v for k, v in ex.pop('stars', {}).items()}
            c = {}
            if expect == 'accept':
                gc, gp = good_env(r, mtype, ex.pop('nbytes', nbytes), timefield(ctx))
                c.update(gc)
                pats = pats + gp
            else:
                c.update(route_base(r))
            c['discr(%s.body)' % d] = one(1)
            c['discr(%s.body.Some)' % d] = one(ix)
            for k, v in (base or {}).items():
                if expect == 'accept' or k in ():
                    c[subst(k, d, body)] = v
            for k, v in cell.items():
                c[subst(k, d, body)] = v
            out.append(Row(nm, c, expect, pats=pats, stars=stars, **ex))
        kw2 = dict(kw)
        vocab = [subst(x, re.escape(d), re.escape(body)) for x in kw2.pop('vocab', [])]
        deny = kw2.pop('deny', None)
        if deny:
            deny = subst(deny, re.escape(d), re.escape(body))
        ctx.table('%s-%s' % (name, r), e, out, models=dict(MODELS, **kw2.pop('models', {})), vocab=VOC + vocab, deny=deny, **kw2)


VOC = [r'^discr\(.*verify_strict\(', r'^discr\(Signature::', r'^discr\(try_into ', r'^discr\(VerifyingKey::', r'^len\(Message::encode_to_vec']


def _split(txt, sep):
    out, d, cur, i = [], 0, '', 0
    while i < len(txt):
        c = txt[i]
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
        if d == 0 and txt.startswith(sep, i):
            out.append(cur)
            cur = ''
            i += len(sep)
            continue
        cur += c
        i += 1
    return out + [cur] if cur or out else []


def canon(txt):
    """one rendering for a byte string however it was put together: a list of bytes is the string of those bytes"""
    out, i = '', 0
    while i < len(txt):
        c = txt[i]
        if c == '[' and (not out or not (out[-1].isalnum() or out[-1] in ')]_>')):
            d, j = 0, i
            while j < len(txt):
                if txt[j] in '([{':
                    d += 1
                elif txt[j] in ')]}':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            out += _bytes([x.strip() for x in _split(txt[i + 1:j], ', ')])
            i = j + 1
            continue
        if txt.startswith('bytes(', i) and (not out or not (out[-1].isalnum() or out[-1] in '_:')):
            d, j = 0, i + 5
            while j < len(txt):
                if txt[j] in '([{':
                    d += 1
                elif txt[j] in ')]}':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            out += _bytes([x.strip() for x in _split(txt[i + 6:j], ' ++ ')], True)
            i = j + 1
            continue
        out += c
        i += 1
    return re.sub(r'NonZero\(NonZero\w+Inner\((\d+)\)\)', r'nz(\1)', out)


def _bytes(parts, isb=False):
    res = []
    for p in parts:
        p = canon(p)
        if not isb:
            p = 'be8(%s)' % p
        m = re.fullmatch(r'be8\((\d+)\)', p)
        if m and int(m.group(1)) < 256:
            p = '0x%02x' % int(m.group(1))
        m = re.fullmatch(r'be8\(\((.*) as u8\)\)', p)
        if m:
            p = 'be8(%s)' % m.group(1)
        if p.startswith('0x') and res and res[-1].startswith('0x'):
            res[-1] += p[2:]
        elif p:
            res.append(p)
    return 'bytes(%s)' % ' ++ '.join(res)


def _close(txt, i):
    d, q = 0, False
    while i < len(txt):
        c = txt[i]
        if q:
            if c == '\\':
                i += 1
            elif c == '"':
                q = False
        elif c == '"':
            q = True
        elif c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
            if d == 0:
                return i
        i += 1
    return len(txt)


JOINED = re.compile(r'(?<![\w":])(fmt|add|bytes|to_string|list|concat|into [\w:]+|from_utf8|as_str|to_vec)\(')


def flat(txt):
    """the parts a text or byte string is joined from, in order, whatever joined them: format!, +, push_str, concat, to_string"""
    def parts(t):
        t = t.strip()
        m = JOINED.match(t)
        if not m or _close(t, m.end() - 1) != len(t) - 1:
            if t.startswith('[') and t.endswith(']') and _close(t, 0) == len(t) - 1:
                return [flat_in(t)]
            if re.fullmatch(r'0x[0-9a-f]*', t):
                return [('k', t[2:])]
            if re.fullmatch(r'"(?:[^"\\]|\\.)*"', t):
                try:
                    return [('k', __import__('json').loads(t).encode().hex())]
                except ValueError:
                    return [t]
            return [flat_in(t)]
        w, inner = m.group(1), t[m.end():-1]
        if w == 'fmt':
            a = _split(inner, ', ')
            mm = re.match(r'"(?:[^"\\]|\\.)*"', inner)
            if not mm:
                return [t]
            a = _split(inner[mm.end():].lstrip(', '), ', ')
            try:
                fs = __import__('json').loads(mm.group(0))
            except ValueError:
                return [t]
            out, k = [], 0
            for piece in re.split(r'(\{\{|\}\}|\{\})', fs):
                if piece == '{}' and k < len(a):
                    out += parts(a[k])
                    k += 1
                else:
                    out.append(('k', piece.replace('{{', '{').replace('}}', '}').encode().hex()))
            return out + [y for x in a[k:] for y in parts(x)]
        if w in ('to_string', 'from_utf8', 'as_str', 'to_vec') or w.startswith('into '):
            return parts(inner)
        if w == 'list':
            return [y for x in _split(inner, ' ++ ') if x != '[]' for y in parts(x)]
        sep = ' ++ ' if w in ('bytes', 'list') else ', '
        return [y for x in _split(inner, sep) for y in parts(x)]

    def flat_in(t):
        out, i = '', 0
        while i < len(t):
            m = JOINED.search(t, i)
            if not m:
                return out + t[i:]
            j = _close(t, m.end() - 1)
            out += t[i:m.start()] + joined(t[m.start():j + 1])
            i = j + 1
        return out

    def joined(t):
        out = []
        for x in parts(t):
            if isinstance(x, tuple):
                if not x[1]:
                    continue
                if out and out[-1].startswith('0x'):
                    out[-1] += x[1]
                    continue
                x = '0x' + x[1]
            out.append(x)
        return out[0] if len(out) == 1 else '<%s>' % ' ++ '.join(out)
    return flat_in(txt)


# ------------------------------------------------------------------ comparing results as terms
CALL = re.compile(r'(?<![\w"])([A-Za-z_][\w]*(?:::[\w]+)*)\(|closure#(\w+)')
UNDERSTOOD = set("""nz bytes fmt len hex::encode hex::decode be8 be16 be32 be64 le8 le16 le32 le64 from_be_bytes base64 base64url unbase64 unbase64url sha256 keccak256 to_lowercase to_uppercase to_ascii_lowercase to_ascii_uppercase trim
 trim_start trim_end reverse rev sort concat join repeat min max replace parse to_string collect set map filter await discr""".split())


# what an iterator that was not followed leaves in a result
ODD = re.compile(r'\bafter [A-Za-z_]\w*(?:::\w+)*|\b(?:collect|flat|iter|chunks|peek|enum|skip|take|zip|chain|map|filter|filter_map)\(|\bcollect\b|\bflat\b|…|\?')


def elide(t):
    """fields that are absent are not written"""
    t = re.sub(r'\b\w+: None, ', '', t)
    return re.sub(r'(?:, )?\b\w+: None(?=\})', '', t)


STRUCT = re.compile(r'(?<![\w.:\])])([A-Za-z_][\w:.\[\]]*)\{')


def eta(t):
    """a record rebuilt field by field from another is that record with the changed fields"""
    out, i = '', 0
    while i < len(t):
        m = STRUCT.search(t, i)
        if not m:
            return out + t[i:]
        j = _close(t, m.end() - 1)
        fs = []
        for x in _split(t[m.end():j], ', '):
            n, sep, v = x.partition(': ')
            if not sep or not re.fullmatch(r'\w+', n):
                fs = None
                break
            fs.append((n, eta(v)))
        out += t[i:m.start()]
        if not fs:
            out += m.group(1) + '{' + eta(t[m.end():j]) + t[j:j + 1]
        else:
            base = {}
            for n, v in fs:
                if v.endswith('.' + n) and re.fullmatch(r'[\w.\[\]]+', v):
                    base[v[:-len(n) - 1]] = base.get(v[:-len(n) - 1], 0) + 1
            b = max(base, key=base.get) if base else None
            name = m.group(1)
            if b is not None and base[b] >= 2 and base[b] * 2 >= len(fs):
                name = b
                fs = [(n, v) for n, v in fs if v != b + '.' + n]
            out += name + ('{%s}' % ', '.join('%s: %s' % x for x in sorted(fs)) if fs else '')
        i = j + 1
    return out


def calls(t):
    t = re.sub(r'"(?:[^"\\]|\\.)*"', '""', t)
    out = set()
    for m in CALL.finditer(t):
        n = m.group(1)
        if m.group(2):
            out.add('closure')
        elif not (n[0].isupper() and '::' not in n):
            out.add(n)
    return out


def judge_term(txt, wants, words=(), elide=elide):
    """True, a description of the difference, or '?...' when the result is built from functions the comparison does not know"""
    c = elide(canon(txt))
    if c in wants:
        return True
    known = set(UNDERSTOOD) | set(words)
    for w in wants:
        known |= calls(w)
    odd = calls(c) - known
    m = ODD.search(re.sub(r'"(?:[^"\\]|\\.)*"', '""', c))
    if m and not any(m.group(0) in w for w in wants):
        odd.add(m.group(0))
    if odd:
        return '?result built with %s' % ', '.join(sorted(odd)[:3])
    fc = eta(flat(c))
    if any(eta(flat(w)) == fc for w in wants):
        return True
    best = max(wants, key=lambda w: len(__import__('os').path.commonprefix([w, c])))
    i = max(0, len(__import__('os').path.commonprefix([best, c])) - 60)
    return 'result …%s' % c[i:i + 200] if i else 'result %s' % c[:240]


def judge_path(I, o, text, wants, words=(), elide=elide):
    """judge_term; and once more with everything the path has pinned down written out: variants that are known, numbers that can only be one"""
    r = judge_term(text(), wants, words, elide)
    if r is True:
        return r
    with known_variants(I):
        t = text()
        if judge_term(t, wants, words, elide) is True:
            return True
        fixed = {k[0][0]: rs_const(I.rng(o.st, k)) for k in list(o.st.R) + list(I.spec.cell) if len(k) == 1 and k[0][1] == 1}
        fixed = {s: str(c) for s, c in fixed.items() if c is not None and not s.startswith('discr(')}
        if not fixed:
            return r
        pat = re.compile(r'(?<![\w.\])])(?:%s)(?![\w.\[({])' % '|'.join(re.escape(s) for s in sorted(fixed, key=len, reverse=True)))

        def put(x):
            return pat.sub(lambda m: fixed[m.group(0)], x)
        w2 = {put(w) for w in wants}
        if judge_term(put(elide(canon(t))), w2, words, lambda x: x) is True:
            return True
    t = text()
    return True if judge_term(put(elide(canon(t))), w2, words, lambda x: x) is True else r


@contextlib.contextmanager
def known_variants(I):
    I.show_known = True
    try:
        yield
    finally:
        I.show_known = False


def full(I, o, params=()):
    """everything a path leaves behind: its result, the writes and calls it made, and the final value of what it was given to change"""
    t = I.term(o.st, o.val)
    last = {}
    for e in o.st.ev:
        if e[0] in ('put', 'del', 'dbput', 'dbdel'):
            last[e[1]] = ('put %s = %s' % (e[1], e[2])) if 'put' in e[0] else 'del %s' % e[1]
        elif e[0] in ('call', 'event', 'set'):
            last['%s %s' % (e[0], e[1:])] = 'call %s' % e[1]
    fx = sorted(last.values())
    roots = [n for n, _ in params]
    for p, v in sorted((o.st.over or {}).items()):
        if re.split(r'[.\[]', p, maxsplit=1)[0] not in roots and '(' in p:
            fx.append('%s := %s' % (p, I.term(o.st, v)))
    for n, ty in params:
        if not any(re.split(r'[.\[]', p, maxsplit=1)[0] == n for p in o.st.over or ()):
            continue
        m = re.match(r'&(?:\S+ )?mut ([\w:]+)$', ty)
        a = I.F.adt(m.group(1)) if m else None
        if a and len(a['variants']) == 1 and len(a['variants'][0]['f']) > 1 and a['kind'] == 'struct':
            for i, f in enumerate(a['variants'][0]['f']):
                v = I.term(o.st, I.project(o.st, ('o', n), ('f', i, f[0])))
                if v != '%s.%s' % (n, f[0]):
                    fx.append('%s.%s := %s' % (n, f[0], v))
            continue
        for p, v in sorted(o.st.over.items()):
            if re.split(r'[.\[]', p, maxsplit=1)[0] == n:
                v = I.term(o.st, v)
                if v != p:
                    fx.append('%s := %s' % (p, v))
    return ' ; '.join([t] + fx)
