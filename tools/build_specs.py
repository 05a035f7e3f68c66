#!/usr/bin/env python3
"""Redrafts spec/<name>.json for the named groups (default: all) and shows what changed; the drafts are reviewed by hand before they are committed.
usage: build_specs.py [group ...]   (writes only with --write)"""
import sys, json, os, re, signal, time
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__))]
from spec_tables import *
import spec_groups


def build(F, idx, name, write, show):
    out = {}
    for t, d in spec_groups.GROUPS[name].items():
        d = dict(d)
        pat = d.pop('fn')
        ps = [p for p in idx if re.search(pat, p) and '{closure' not in p]
        if len(ps) != 1 and not d.get('many') or not ps:
            print('##', name, t, 'matches', len(ps), [x[-80:] for x in ps[:6]])
            continue
        d.pop('many', None)
        for p in ps:
            n = t if len(ps) == 1 else '%s of %s' % (t, title(p))
            while n in out:
                n += "'"
            one(F, out, name, n, p, dict(d), show)
    if write:
        save(name, out)


def title(p):
    m = re.match(r'<(.*) as std::convert::From<(.*)>>::from$', p)
    if m:
        return re.sub(r'\w+::', '', m.group(1) + ' from ' + m.group(2))
    p = re.sub(r'<impl (.*?) for (.*?)>', r'\2', p)
    m = re.match(r'<(.*) as .*>::\w+$', p)
    return re.sub(r'\w+::', '', (m.group(1) if m else p.rsplit('::', 1)[0]))


def one(F, out, name, t, p, d, show):
    bases = d.pop('bases', [{}])
    skip = d.pop('skip', None)
    sk = (lambda c, w: re.search(skip, w)) if skip else None
    t0 = time.time()
    try:
        signal.alarm(int(os.environ.get("VALARM", "150")))
        out[t] = table(F, p, bases, skip=sk, **d)
        signal.alarm(0)
    except BaseException as e:
        signal.alarm(0)
        print('##', name, t, type(e).__name__, str(e)[-360:])
        return
    r = out[t]['rows']
    print('==', name, t, len(r), '%.1fs' % (time.time() - t0))
    for c, w in r[:show]:
        print('    ', re.sub(r"[' ]", '', str(short(c)))[:110], '=>', w[:170])


def late(*a):
    raise TimeoutError('took too long')


if __name__ == '__main__':
    signal.signal(signal.SIGALRM, late)
    write = '--write' in sys.argv
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    show = 40 if '-v' in sys.argv else 3
    F = Facts(sorted(glob.glob(factsbuild.ensure() + '/*.jsonl')))
    idx = sorted({ix[3] for ix in F.index.values()})
    only = None
    for g in a or spec_groups.GROUPS:
        only = None
        if ':' in g:
            g, only = g.split(':')
            spec_groups.GROUPS[g] = {k: v for k, v in spec_groups.GROUPS[g].items() if re.search(only, k)}
        build(F, idx, g, write and not only, show)
