"""Loads the records written by the compiler driver (see driver/): one JSON object per line, parsed on demand."""
import json, mmap, os, re

INT = {}
for _n, _b in (("8", 8), ("16", 16), ("32", 32), ("64", 64), ("128", 128), ("size", 64)):
    INT["u" + _n] = (0, (1 << _b) - 1)
    INT["i" + _n] = (-(1 << (_b - 1)), (1 << (_b - 1)) - 1)
INT["bool"] = (0, 1)
INT["char"] = (0, 0x10FFFF)


def strip_generics(t):
    """std::option::Option<Foo<Bar>> -> std::option::Option"""
    t = t.strip()
    while t.startswith("&"):
        t = t[1:].lstrip()
        if t.startswith("mut "):
            t = t[4:]
        if t.startswith("'"):
            t = t.split(" ", 1)[-1]
    i = t.find("<")
    return t if i <= 0 else t[:i]


def norm(s):
    """the message crate re-exports its generated module; use the re-exported names everywhere"""
    return s.replace('snapchain_proto::proto::', 'snapchain_proto::')


class Facts:
    def __init__(self, paths):
        self.files = []
        self.index = {}     # key -> (file, off, len)
        self.bypath = {}    # path -> [key]
        self.adts = {}      # path -> (file, off, len) then parsed
        self.cache = {}
        self.byfile = {}
        self.complete = set()
        kre = re.compile(rb'\{"r":"fn","key":"((?:[^"\\]|\\.)*)","path":"((?:[^"\\]|\\.)*)","kind":"(\w+)","file":"([^"]*)","line":(\d+),"end":(\d+)')
        are = re.compile(rb'\{"r":"adt","path":"((?:[^"\\]|\\.)*)"')
        for p in paths:
            f = open(p, "rb")
            data = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
            fi = len(self.files)
            self.files.append(data)
            off = 0
            n = len(data)
            while off < n:
                e = data.find(b"\n", off)
                if e < 0:
                    e = n
                head = data[off:min(off + 2500, e)]
                m = kre.match(head)
                if m:
                    key = norm(m.group(1).decode().replace('\\"', '"'))
                    path = norm(m.group(2).decode().replace('\\"', '"'))
                    if key not in self.index:
                        self.index[key] = (fi, off, e, path, m.group(3).decode(), m.group(4).decode(), int(m.group(5)))
                        self.bypath.setdefault(path, []).append(key)
                        self.byfile.setdefault(m.group(4).decode(), []).append(key)
                else:
                    m = are.match(head)
                    if m:
                        k = norm(m.group(1).decode())
                        old = self.adts.get(k)
                        # prefer the defining crate's record (it has the file)
                        if old is None or b'"file":""' not in head[:400]:
                            self.adts[k] = (fi, off, e)
                    elif head.startswith(b'{"r":"end"'):
                        self.complete.add(json.loads(data[off:e])["crate"])
                off = e + 1

    def fn(self, key):
        r = self.cache.get(key)
        if r is None:
            ix = self.index.get(key)
            if ix is None:
                return None
            r = json.loads(norm(self.files[ix[0]][ix[1]:ix[2]].decode()))
            self.cache[key] = r
        return r

    def find(self, key, path=None):
        """body for an instance key, falling back to the unspecialised body of the same item"""
        r = self.fn(key) if key else None
        if r is None and path:
            if path in self.index:
                return self.fn(path)
            ks = self.bypath.get(path)
            if ks:
                return self.fn(ks[0])
        return r

    def adt(self, path):
        a = self.adts.get(path)
        if a is None:
            a = self.adts.get(strip_generics(path))
            if a is None:
                return None
            path = strip_generics(path)
        if isinstance(a, tuple):
            a = json.loads(norm(self.files[a[0]][a[1]:a[2]].decode()))
            a["byname"] = {v["n"]: (i, v) for i, v in enumerate(a["variants"])}
            for v in a["variants"]:
                if v["d"] is not None:
                    d = int(v["d"])
                    if d >= 1 << 63:
                        d -= (1 << 128) if d >= 1 << 127 else (1 << 64)
                    elif d >= 1 << 31 and a["kind"] == "enum" and d <= 0xffffffff and d >= 0xf0000000:
                        d -= 1 << 32
                    elif d == 255 and path == 'std::cmp::Ordering':
                        d = -1
                    v["d"] = d
            self.adts[path] = a
        return a

    def fns(self, pred=None):
        for k, ix in self.index.items():
            if pred is None or pred(k, ix):
                yield k, ix

    def by_suffix(self, suffix, kind=None):
        """unique function whose path ends with the given segments"""
        out = [k for k, ix in self.index.items() if (ix[3] == suffix or ix[3].endswith("::" + suffix)) and (kind is None or ix[4] == kind) and k == ix[3]]
        return out
