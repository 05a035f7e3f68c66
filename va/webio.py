"""HTTP requests and responses as terms: what is set on a response, in order, and what is read from a request."""
from models import ok, callf
import kv


def fl(label, *pos):
    return lambda I, st, f, a, d: [(st, ('o', '%s(%s)' % (label, ', '.join(I.term(st, a[i]) for i in pos))))]


def ident(I, st, f, a, d):
    return [(st, a[0])]


def okay(m):
    def g(I, st, f, a, d):
        return [(s, ok(v)) for s, v in m(I, st, f, a, d)]
    return g


def append(I, st, f, a, d):
    return [(kv.note(st, 'call', 'header(%s, %s)' % tuple(I.term(st, x) for x in a[1:3])), ('o', 'true'))]


def asked(*args):
    """what a route does with its request: the handler it passes on, asked once"""
    def m(I, st, f, a, d):
        out = []
        for s, r in callf(I, st, a[2], [('o', x) for x in args]):
            v = I.strip(s, r)
            body = I.F.find(v[1], v[2]) if v[0] == 'cl' else None
            for s2, x in I.call_fn(s, body, [v, ('o', 'resume')]) if body is not None else [(s, v)]:
                out.append((s2, ('o', 'answer(%s)' % I.term(s2, x))))
        return out
    return m


def models():
    return {
        r'Uri::path$': fl('path', 0), r'Uri::query$': fl('query', 0), r'Request.*::uri$': fl('uri', 0), r'Request.*::method$': fl('method', 0), r'Request.*::headers$|Response.*::headers$': fl('headers', 0),
        r'Request.*::into_body$': fl('body', 0), r'Response.*::(?:builder)$': lambda I, st, f, a, d: [(st, ('o', 'reply()'))],
        r'response::Builder::status(?:::<.*>)?$': fl('status', 0, 1), r'response::Builder::header(?:::<.*>)?$': fl('header', 0, 1, 2), r'response::Builder::body(?:::<.*>)?$': okay(fl('body', 0, 1)),
        r'Full(?:::<.*>)?::new$|BodyExt.*::boxed$': ident, r'HeaderValue::from_str$': okay(fl('header_value', 0)), r'HeaderMap.*::(?:append|insert)(?:::<.*>)?$': append,
        r'HeaderMap.*::get(?:::<.*>)?$': fl('header_of', 0, 1), r'HeaderValue::to_str$': fl('text', 0), r'MetadataValue.*(?:as std::str::FromStr>::from_str|::try_from(?:::<.*>)?)$|FromStr::from_str$': fl('metadata', 0), r'MetadataMap::insert(?:::<.*>)?$': append, r'Request.*::metadata_mut$': fl('metadata_of', 0),
        r'BodyExt.*::collect$': fl('collected', 0), r'Collected.*::to_bytes$': fl('content', 0),
        r'serde_json::to_vec(?:::<.*>)?$': okay(fl('json', 0)), r'serde_json::to_string(?:::<.*>)?$': okay(fl('json', 0)), r'serde_qs::from_str(?:::<.*>)?$': fl('from_query', 0), r'serde_json::from_slice(?:::<.*>)?$': fl('from_json', 0),
        r'http_server::HubHttp\w*(?:<.*>)?::\w+$|HubHttpServiceImpl<.*as.*>::\w+$': kv.named(),
        r'HubService::\w+$|HubService>::\w+$': kv.named(skip=1), r'Response::.*into_inner$': ident, r'tonic::Request::.*new$|tonic::Request<.*>::new$': ident,
        r'Router::<?.*handle_request(?:::<.*>)?$': asked('service', 'asked'), r'Router::<?.*handle_(?:bulk_)?protobuf_request(?:::<.*>)?$': asked('service', 'headers', 'asked'),
        r'Router::<?.*handle_mesh_(?:view|ui)$': kv.named(), r'NodeRegistry::\w+$': kv.named(), r'mesh::render::\w+$': kv.named(),
        r'http_server::(?:text_plain_ok|json_ok|html_ok|mesh_error_response|mesh_grpc_request)$': kv.named(),
        r'http_server::map_\w+$': kv.named(),
    }
