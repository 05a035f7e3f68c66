#!/usr/bin/env python3
"""Drafts a result table (cell of the inputs -> result term) for functions that convert one representation into another.
The draft is reviewed by hand against the protocol's field definitions and committed under spec/; checks only read the committed file."""
import sys, os, json, glob, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R + '/va', R + '/props']
import factsbuild, kv
from facts import Facts
from absint import Interp, Spec, lin_str, fmt_rs, Budget, Undecided, rs_inter, rs_compl
from harness import classify
from vcommon import elide, full
import p_s


def settled(I, outs):
    """a yes/no result becomes one outcome per answer"""
    res = []
    for o in outs:
        v = I.strip(o.st, o.val) if isinstance(o.val, tuple) else o.val
        wrap = None
        if isinstance(v, tuple) and v[0] == 'a' and v[2] in ('Ok', 'Some') and len(v[4]) == 1:
            wrap, v = v, I.strip(o.st, v[4][0])
        if isinstance(v, tuple) and v[0] == 'c' and not any(x in str(v) for x in '?~#'):
            for b in (0, 1):
                for s in I.assume(o.st, v, bool(b)):
                    n = ('n', b, ())
                    res.append(type(o)(**dict(o.__dict__, st=s, val=wrap[:4] + ((n,),) if wrap else n)) if hasattr(o, '__dict__') else o._replace(st=s, val=wrap[:4] + ((n,),) if wrap else n))
        else:
            res.append(o)
    return res


ROOT_FIRST = True   # split first on what every path decides


def draft(F, path, base=None, models=None, names=None, opaque=(), pats=(), vocab=()):
    """[(cell, result)] of a partition of the base cell fine enough that every cell has one result"""
    ks = [k for k, ix in F.index.items() if ix[3] == path]
    fn = F.fn(ks[0])
    ps = [p or 'a%d' % i for i, p in enumerate((fn.get('params') or [])[:fn['argc']])]
    ps += ['a%d' % i for i in range(len(ps), fn['argc'])]
    ps = names or ps
    tps = [[p, fn['locals'][i + 1][0]] for i, p in enumerate(ps)]
    rows = []
    voc = list(vocab) + [r'^[^?~#]*$']

    def go(cell, depth=0):
        I = Interp(F, Spec(cell=cell, models=models or {}, pats=list(pats), vocab=voc, opaque=[re.compile(x) for x in opaque]))
        outs = settled(I, I.run(fn, [('o', p) for p in ps]))
        if not outs:
            return
        res = {}
        for o in outs:
            k, txt = classify(I, o)
            res.setdefault('PANIC ' + str(o.val) if k == 'panic' else 'Err' if k == 'err' and not KEEPERR and (txt.startswith('Err') or 'Err(' in txt[:12]) else full(I, o, tps), []).append(o)
        if len(res) == 1:
            unk = {str(u) for o in outs for u in o.st.unk}
            assert not unk, (path, cell, unk)
            rows.append((cell, list(res)[0]))
            return
        assert depth < 40 and len(rows) < 900, (path, cell, list(res)[:3])
        sp = None
        cand = {}
        for o in outs:
            for key, r in o.st.R.items():
                if len(key) == 1 and not any(x in key[0][0] for x in '?~#') or len(key) == 2 and not any(x in key[0][0] + key[1][0] for x in '?~#'):
                    cand.setdefault(key, []).append(r)
        for key in sorted(cand, key=lambda k: (-len(cand[k]) if ROOT_FIRST else 0, not k[0][0].startswith('discr('), -len(k), len(k[0][0]), str(k))):
            nm = lin_str(('n', 0, key))
            if nm not in cell and len(key) == 2 and all(x in I.symty for x, _ in key):
                lo = sum(c * (I.symty[x][0][0] if c > 0 else I.symty[x][-1][1]) for x, c in key)
                hi = sum(c * (I.symty[x][-1][1] if c > 0 else I.symty[x][0][0]) for x, c in key)
                cell = dict(cell)
                cell_default = ((lo, hi),)
            else:
                cell_default = None
            cur = cell.get(nm) or cell_default or (I.symty.get(key[0][0]) if len(key) == 1 else None) or ((-10**60, 10**60),)
            if nm in cell and len(cur) == 1 and cur[0][0] == cur[0][1]:
                continue
            pieces = [cur]
            for r in cand[key]:
                nx = []
                for q in pieces:
                    a, b2 = rs_inter(q, r), rs_inter(q, rs_compl(r))
                    nx += [x for x in (a, b2) if x]
                pieces = nx
            if len(pieces) > 1:
                sp = (nm, pieces)
                break
        assert sp, ('no split', path, cell, list(res)[:4])
        for q in sp[1]:
            c2 = dict(cell)
            c2[sp[0]] = q
            go(c2, depth + 1)
    go({k: v for k, v in (base or {}).items()})
    return ps, [fn['locals'][i + 1][0] for i in range(fn['argc'])], rows


KEEPERR = False


def table(F, fn, bases, skip=None, oracles=(), pats=(), kvrows=None, env=None, before=None, **kw):
    """rows of a function over several base cells"""
    out, seen = None, set()
    for b in bases:
        b = {k: v if isinstance(v, tuple) else ((v, v),) for k, v in b.items()}
        ps, ts, rows = draft(F, fn, b, models=p_s.models_of(oracles, kvrows, env), pats=p_s.pats_of(pats), **kw)
        if out is None:
            out = {'fn': fn, 'params': [[n, t] for n, t in zip(ps, ts)]}
            if oracles:
                out['oracles'] = oracles
            if pats:
                out['pats'] = pats
            if kvrows is not None:
                out['kv'] = kvrows
            if env:
                out['env'] = env
            if before:
                out['before'] = before
            out['rows'] = []
        for c, w in rows:
            if re.search(r'\?[\]~.,) ]', w) and not w.startswith('PANIC'):
                print('!! imprecise:', fn[-60:], str(short(c))[:150], '=>', w[:200])
                continue
            if w.startswith('PANIC') or skip and skip(c, w):
                continue
            key = json.dumps([c, w], sort_keys=True)
            if key not in seen:
                seen.add(key)
                out['rows'].append([c, w])
    return out


def short(c):
    return {k: v[0][0] if len(v) == 1 and v[0][0] == v[0][1] else v for k, v in c.items()}


def save(name, tables):
    p = R + '/spec/%s.json' % name
    with open(p, 'w') as f:
        f.write('{\n')
        for i, (t, d) in enumerate(tables.items()):
            f.write('%s: {%s, "rows": [\n' % (json.dumps(t), ', '.join('%s: %s' % (json.dumps(k), json.dumps(v)) for k, v in d.items() if k != 'rows')))
            f.write(',\n'.join('  ' + json.dumps([short(c), w]) for c, w in d['rows']))
            f.write('\n]}%s\n' % (',' if i + 1 < len(tables) else ''))
        f.write('}\n')
    print(name, len(tables), 'tables', sum(len(d['rows']) for d in tables.values()), 'rows')
