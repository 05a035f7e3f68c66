"""The derived JSON writers: what a record looks like on the wire, as a term `record{name=value, ...}`."""
import re
import kv
from models import ok
from absint import UNIT


def helper(F, ty):
    """the `with` module behind a derived helper type: the function its writer hands the field to"""
    ty = ty.lstrip('&').strip()
    m = re.match(r'(.*__SerializeWith)(?:<.*>)?#(\d+)$', ty)
    if not m:
        return None
    pat = m.group(1)
    for k, ix in F.index.items():
        p = ix[3]
        if p.startswith('<' + pat) and p.endswith('serialize#' + m.group(2)):
            fn = F.fn(k)
            for b in fn['blocks']:
                t = b[1]
                if t.get('k') == 'call':
                    n = t['f'].get('ip') or t['f'].get('p') or '?'
                    return re.sub(r'::serialize$', '', n).rsplit('::', 1)[-1]
    return '?'


def models(F):
    def begin(I, st, f, args, dty):
        return [(kv.note(st, 'record'), ok(('o', 'writer')))]

    def field(I, st, f, args, dty):
        key = I.term(st, args[1])
        v = I.term(st, args[2])
        h = helper(F, f['a'][-1]) if f.get('a') else None
        if h:
            m = re.search(r'values: \((.*?),?\)', v)
            v = '%s(%s)' % (h, m.group(1) if m else v)
        return [(kv.note(st, 'field', key.strip('"'), v), OK)]

    def end(I, st, f, args, dty):
        return [(st, ('o', 'written'))]
    def unit(I, st, f, args, dty):
        return [(st, ('o', I.term(st, args[3])))]
    return {
        r'Serializer::serialize_unit_variant$': unit,
        r'Serializer::serialize_struct$|Serializer>::serialize_struct$': begin,
        r'SerializeStruct::serialize_field$': field,
        r'SerializeStruct::skip_field$': lambda I, st, f, a, d: [(st, OK)],
        r'SerializeStruct::end$': end,
    }


OK = ok(UNIT)


def record(o):
    out, seen = [], set()
    for e in o.st.ev:
        if e[0] == 'field':
            out.append('%s=%s' % (e[1], e[2]))
    return 'record{%s}' % ', '.join(out)


def writer(F, ty):
    """the derived writer of a record or enumeration"""
    for k, ix in F.index.items():
        if ix[3].endswith('<impl serde::Serialize for %s>::serialize' % ty):
            return ix[3]


def reader(F, ty):
    """the derived reader of a record's field names"""
    for k, ix in F.index.items():
        p = ix[3]
        if p.endswith('::visit_str') and '<impl serde::Deserialize<' in p and 'for %s>::deserialize' % ty in p and '__FieldVisitor' in p:
            return ix[3]


def parts(t):
    """the name=value parts of a record"""
    if not t.startswith('record{'):
        return [t]
    out, depth, cur = [], 0, ''
    for c in t[7:-1]:
        if c == ',' and not depth:
            out.append(cur.strip())
            cur = ''
            continue
        depth += c in '([{'
        depth -= c in ')]}'
        cur += c
    return sorted(out + [cur.strip()])
