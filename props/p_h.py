"""Interfaces: what the HTTP and gRPC front ends show of the stored records, and what they ask the node for."""
import json, os, re
from harness import Row, Anchor
from vcommon import canon, elide, judge_term, judge_path, calls
import kv, wire
from models import ok

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = 'snapchain::network::http_server::'


def load(name):
    return json.load(open(os.path.join(HERE, 'spec', name + '.json')))


def rng(v):
    return ((v, v),) if isinstance(v, int) else tuple((a, b) for a, b in v)


def expects(want, words):
    cw = elide(canon(want))

    def f(I, o, k, txt):
        if want == 'Err':
            return True if k == 'err' else 'accepted with %s' % txt[:200] if not calls(txt) - words else False
        if k == 'panic':
            return False
        return judge_path(I, o, lambda: I.term(o.st, o.val), {cw}, words)
    return f


def spec_table(ctx, name, d, models=None, pats=(), params=None, opaque=(), effects=None):
    """one table of the committed specification: every cell of the inputs must give the listed result"""
    words = set()
    for c, w in d['rows']:
        words |= calls(w)
        for q in c:
            words |= calls(q)
    ps = [(n, '^' + re.escape(t) + '$') for n, t in d['params']]
    e = ctx.entry(d['fn'], params or ps)
    rows = []
    for i, (c, w) in enumerate(d['rows']):
        rows.append(Row('%d' % i, {q: rng(v) for q, v in c.items()}, expects(w, words), say=w[:300]))
    ctx.table(name, e, rows, models=models, pats=pats, opaque=list(opaque))


def mapper_oracles(ctx, *own):
    """the conversions other tables decide, as named answers"""
    out = {}
    for ix in set(x[3] for x in ctx.F.index.values()):
        m = re.search(r'http_server::(map_proto_(\w+?)_to_json_\w+)$', ix)
        if m and m.group(2) not in own:
            out[r'http_server::' + m.group(1) + '$'] = kv.oracle(m.group(2), 0)
    return out


CHECKS = {}


def h01(ctx):
    """Every body conversion is interpreted over a partition of its input by union variant, enumeration value and list length; the resulting record must carry each field of the message, unchanged or in the published text encoding."""
    for n, d in load('http_bodies').items():
        spec_table(ctx, n, d)


def h02(ctx):
    """The message conversion is interpreted for every body kind, message type, network and scheme; the body must appear under its own name and no other, in the published encoding."""
    d = load('http_message')
    own = {'data': 'message_data', 'message': 'message', 'page': 'messages_response'}
    for n in d:
        spec_table(ctx, n, d[n], mapper_oracles(ctx, own[n]))


def h03(ctx):
    """Event conversions, the same way: every kind of chain event, signer record and hub event."""
    d = load('http_events')
    own = {'event': 'on_chain_event', 'signer': 'signer', 'hub_event': 'hub_event'}
    for n in d:
        spec_table(ctx, n, d[n], mapper_oracles(ctx, own[n]), pats=[(r'^discr\((?:message|username_proof_body|on_chain_event)\(.*\)\)$', ((0, 0),))])


CHECKS.update({'H01': h01, 'H02': h02, 'H03': h03})


def h05(ctx):
    """Every request conversion is interpreted over the presence of each spelling of each parameter, and the derived parameter reader for each parameter name it knows; together they must hand the node the parameter the caller named, the snake-case spelling first."""
    for n, d in load('http_requests').items():
        spec_table(ctx, n, d)
    reads = load('http_wire')['reads']
    for ty, names in reads.items():
        a = ctx.F.adt(H + ty)
        fs = [f[0] for f in a['variants'][0]['f']] if a else []
        p = wire.reader(ctx.F, H + ty)
        if not p or not fs:
            ctx.ob('%s parameters' % ty, None, 'reader of %s not found' % ty)
            continue
        e = ctx.entry(p, [('self', r'__FieldVisitor'), ('value', r'str$')])

        def want(f, fs=fs):
            def g(I, o, k, txt):
                m = re.match(r'Ok\(__field(\d+)\)$', txt)
                return bool(m and int(m.group(1)) < len(fs) and fs[int(m.group(1))] == f) or 'read as %s' % (fs[int(m.group(1))] if m and int(m.group(1)) < len(fs) else txt)
            return g
        ctx.table('%s parameters' % ty, e, [Row(s, {}, want(f), say='field %s' % f, args={'value': ('s', s)}) for s, f in names.items()])


def h06(ctx):
    """The derived writer of every answer type is interpreted with each optional part present and absent: it must write each field under its published name, in its encoding, and leave out exactly the absent optional parts."""
    m = wire.models(ctx.F)
    for ty, rows in load('http_wire')['writes'].items():
        p = wire.writer(ctx.F, H + ty)
        if not p:
            ctx.ob('%s' % ty, None, 'writer of %s not found' % ty)
            continue
        e = ctx.entry(p, [('self', re.escape(H + ty) + '$'), ('ser', r'')])

        def want(w):
            def g(I, o, k, txt):
                got = wire.record(o) if w.startswith('record{') else txt
                return True if set(wire.parts(got)) == set(wire.parts(w)) else 'writes %s' % got[:300]
            return g
        ctx.table(ty, e, [Row('%d' % i, {q: rng(v) for q, v in c.items()}, want(w), say=w[:200]) for i, (c, w) in enumerate(rows)], models=m)
    ident = lambda i: lambda I, st, f, a, d: [(st, ok(('o', I.term(st, a[i]))))]
    hm = {r'Serialize::serialize$|Serialize>::serialize$|impl serde::Serialize for std::string::String>::serialize$': ident(0), r'Serializer::serialize_str$': ident(1), r'Deserialize::deserialize$|Deserialize<.*>::deserialize$': kv.oracle('input')}
    OKIN = [(r'^discr\(input\(\)\)$', ((0, 0),))]
    is_ = lambda *ws: lambda I, o, k, txt: judge_term(txt, set(canon(w) for w in ws), {'input', 'base64', 'unbase64', 'replace', 'strip_prefix', 'hex::encode', 'hex::decode', 'bytes', 'encode', 'decode'})
    bad = 'reject'
    rows = []
    HEXIN = "input().Ok"
    for fn, ps, rr in (
            ('serdebase64::serialize', [('v', r''), ('s', r'')], [({}, [], 'Ok(base64(v))')]),
            ('serdebase64opt::serialize', [('v', r''), ('s', r'')], [({'discr(v)': 1}, [], 'Ok(base64(v.Some))')]),
            ('serdehex::serialize', [('v', r''), ('s', r'')], [({'len(v)': (0, 10 ** 6)}, [], 'Ok(bytes(0x3078 ++ hex::encode(v)))')]),
            ('serdebase64::deserialize', [('d', r'')], [({}, [(r'^discr\(unbase64\(.*\)\)$', 0)], 'Ok(unbase64(input().Ok).Ok)'), ({}, [(r'^discr\(unbase64\(.*\)\)$', 1)], None)]),
            ('serdebase64opt::deserialize', [('d', r'')], [({}, [(r'^discr\(unbase64\(.*\)\)$', 0), (r'^len\(.*\)$', (1, 10 ** 6))], 'Ok(Some(unbase64(replace(input().Ok, " ", "+")).Ok))'),
                                                          ({}, [(r'^discr\(unbase64\(.*\)\)$', 1), (r'^len\(.*\)$', (1, 10 ** 6))], None), ({}, [(r'^len\(.*\)$', 0)], 'Ok(None)')]),
            ('serdehex::deserialize', [('d', r'')], [({}, [(r'^starts_with\(.*\)$', 1), (r'^discr\(hex::decode\(.*\)\)$', 0)], 'Ok(hex::decode(strip_prefix(input().Ok, "0x")).Ok)'),
                                                     ({}, [(r'^starts_with\(.*\)$', 0), (r'^discr\(hex::decode\(.*\)\)$', 0)], 'Ok(hex::decode(input().Ok).Ok)'),
                                                     ({}, [(r'^discr\(hex::decode\(.*\)\)$', 1)], None)])):
        e = ctx.entry(H + fn, ps)
        one = lambda v: (v,) if isinstance(v, tuple) else ((v, v),)
        ctx.table(fn, e, [Row('%d' % i, {q: one(v) for q, v in c.items()}, bad if w is None else is_(w), say=w or 'an error', pats=OKIN + [(a, one(b)) for a, b in ps_]) for i, (c, ps_, w) in enumerate(rr)],
                  models=hm, vocab=[r'^(?:discr|len|starts_with)\(.*input\(\).*$'])


CHECKS.update({'H05': h05, 'H06': h06})


def handler_oracles(ctx):
    m = mapper_oracles(ctx)
    ident = lambda I, st, f, a, d: [(st, a[0])]
    m.update({
        r'HubService::\w+$|HubService>::\w+$': kv.named(skip=1), r'Response::.*into_inner$': ident, r'tonic::Request::.*new$|tonic::Request<.*>::new$': ident,
        r'map_get_info_response_to_json_info_response$': kv.oracle('info', 0), r'http_server::\w+::to_proto$': kv.named(tag=''),
        r'From<snapchain_proto::ChannelsResponse>|From<.*ChannelsResponse>>::from$': kv.oracle('channels_response', 0)})
    return m


def h04(ctx):
    """Every handler is interpreted with the node's service methods and the field-by-field conversions as named answers; the result must be the answer of the right service method, asked with the caller's parameters, converted by the right conversion."""
    d = load('http_handlers')
    m = handler_oracles(ctx)
    answered = [(r'^discr\(await \w+\(.*\)\)$', ((0, 0),)), (r'^discr\((?:message|username_proof_body|on_chain_event|signer|messages_response|hub_event|info)\(.*\)\)$', ((0, 0),)),
                (r'^utf8\(.*\)$', ((1, 1),))]
    failed = [(r'^discr\(await \w+\(.*\)\)$', ((1, 1),))]
    for n, t in d.items():
        if n == 'get_info':
            t = dict(t, rows=t['rows'])
        spec_table(ctx, n, t, m, answered)
        e = ctx.entry(t['fn'], [(x, '^' + re.escape(y) + '$') for x, y in t['params']])
        ctx.table(n + ', the node failing', e, [Row('refused', {}, 'reject', pats=failed)], models=m)
    for n, t in load('http_answers').items():
        spec_table(ctx, 'answer %s' % n, t)


CHECKS['H04'] = h04
