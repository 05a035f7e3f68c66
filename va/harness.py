"""Shared machinery of the checks: fact loading, partition tables, reporting."""
import json, os, sys, time, signal, threading, re, hashlib, multiprocessing, collections, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'va'))
import witness
from facts import Facts, strip_generics
from absint import Interp, Spec, Outcome, Budget, Undecided, POS, NEG, fmt_rs, lin_str, parse_lin

# symbols the validation rules are stated over, besides the plain input quantities
ATOMS = [
    r'^cmpb\(', r'^eq\(', r'^(?:starts_with|ends_with|strip_prefix|strip_suffix|contains)\(',
    r'^match\(', r'^utf8\(', r'^discr\((?:Message|MessageData)::decode\(', r'^len\((?:Message::encode_to_vec|blake3)\(',
]


class Anchor(Exception):
    """an entry point the property is stated over is not there: fail closed"""


def between(lo, hi):
    return ((lo, hi),)


def one(*vals):
    from absint import rs
    return rs(*[(v, v) for v in vals])


def atmost(n):
    return ((NEG, n),)


def atleast(n):
    return ((n, POS),)


class Entry:
    """a public function of /repo with its parameters named by type, in order"""

    missing = None

    def __init__(self, ctx, path, params):
        self.path = path
        self.fn, self.args = None, []
        try:
            self.find(ctx, path, params)
        except Anchor as e:     # reported as undecided; the whole check fails closed when little is left of it
            self.fn, self.args, self.missing = None, [], str(e)
            ctx.lost.append(str(e))

    def find(self, ctx, path, params):
        keys = [k for k in ctx.F.bypath.get(path, [])]
        if not keys:
            short = path.split('::')[-1]
            cand = [k for k in ctx.F.by_suffix(short) if ctx.F.index[k][3].split('::')[0] == path.split('::')[0]]
            if len(cand) == 1:     # the function moved to another module
                keys = cand
            else:
                raise Anchor('entry point %s not found' % path)
        self.fn = ctx.F.fn(keys[0] if path not in keys else path)
        self.args = []
        want = list(params)
        for i in range(self.fn['argc']):
            ty = self.fn['locals'][i + 1][0]
            hit = None
            for j, (nm, pat) in enumerate(want):
                if re.search(pat, ty):
                    hit = j
                    break
            if hit is None:
                ps = self.fn.get('params') or []
                self.args.append(('o', 'extra_%s' % (ps[i] if i < len(ps) and ps[i] else i)))
            else:
                self.args.append(('o', want.pop(hit)[0]))
        if want:
            raise Anchor('%s no longer takes %s' % (path, [w[0] for w in want]))


class Row:
    def __init__(self, name, cell=None, expect=None, pats=(), stars=None, entry=None, **kw):
        self.name, self.cell, self.expect, self.pats, self.stars, self.entry, self.kw = name, cell or {}, expect, list(pats), stars or {}, entry, kw


def is_ok(I, o):
    t = I.term(o.st, o.val)
    return t


def classify(I, o):
    if o.kind == 'panic':
        return 'panic', o.val
    t = I.term(o.st, o.val)
    if t.startswith('Ok(') or t == 'Ok':
        return 'ok', t
    if t.startswith('Err(') or t == 'Err':
        return 'err', t
    if t.startswith('Some(') or t == 'None':
        return ('ok' if t[0] == 'S' else 'err'), t
    if t in ('1', 'true'):
        return 'ok', t
    if t in ('0', 'false'):
        return 'err', t
    return 'other', t


_CTX = None
ROWSEC = int(os.environ.get('VROWSEC', '60'))       # one cell
ALLSEC = int(os.environ.get('VALLSEC', '540'))      # all cells of a check; what is left over then is undecided
_START = time.time()


def _late(*a):
    raise Budget('took too long')


def _run_row(args):
    ti, ri = args
    t = _CTX.tables[ti]
    try:
        return ti, ri, t.eval_row(t.rows[ri])
    except Anchor:
        raise
    except Exception:
        return ti, ri, {'error': traceback.format_exc()}


class Table:
    def __init__(self, ctx, name, entry, rows, base=None, pats=(), stars=None, vocab=(), models=None, pure=(), opaque=(), inline_depth=45, budget=600000, deny=None, panics='violation', maxpanic=()):
        self.ctx, self.name, self.entry, self.rows = ctx, name, entry, rows
        self.base, self.pats, self.stars = dict(base or {}), list(pats), dict(stars or {})
        self.vocab = list(ATOMS) + list(vocab)
        # every quantity some row of the table is stated over is one the specification knows
        for r in rows:
            for k in r.cell:
                self.vocab += ['^%s$' % re.escape(x) for x, _ in parse_lin(k)]
            self.vocab += ['^(?:%s)$' % p for p, _ in r.pats if not p.startswith('(?i')]
        self.models, self.pure, self.opaque = dict(models or {}), list(pure), list(opaque)
        self.depth, self.budget, self.deny = inline_depth, budget, deny
        self.panics = panics

    def spec(self, row):
        cell = dict(self.base)
        cell.update(row.cell)
        stars = dict(self.stars)
        stars.update(row.stars)
        s = Spec(cell=cell, pats=self.pats + row.pats, opaque=self.opaque, pure=self.pure, stars=stars, models=self.models, vocab=self.vocab, inline_depth=self.depth, trace=row.kw.get('trace'))
        s.deny = re.compile(self.deny) if self.deny else None
        return s

    def eval_row(self, row):
        t0 = time.time()
        e = row.entry or self.entry
        if e.missing:
            return {'undecided': [e.missing], 'bad': [], 'outs': 0, 'kinds': {}, 'fns': [], 'steps': 0, 't': 0}
        I = Interp(self.ctx.F, self.spec(row), budget=self.budget)
        left = min(ROWSEC, ALLSEC - (time.time() - _START))
        timed = threading.current_thread() is threading.main_thread()
        try:
            if left <= 1:
                raise Budget('no time left')
            if timed:
                signal.signal(signal.SIGALRM, _late)
                signal.setitimer(signal.ITIMER_REAL, left)
            sub = row.kw.get('args') or {}
            outs = I.run(e.fn, [sub.get(a[1], a) if a[0] == 'o' else a for a in e.args])
        except (Budget, Undecided) as ex:
            return {'undecided': ['analysis budget: %s' % ex], 'bad': [], 'outs': 0, 'fns': sorted(I.used_fns), 'steps': I.steps, 't': time.time() - t0}
        finally:
            if timed:
                signal.setitimer(signal.ITIMER_REAL, 0)
        bad, und, seen = [], [], collections.Counter()
        anyhit = False
        for o in outs:
            k, txt = classify(I, o)
            seen[k] += 1
            good = self.judge(row, I, o, k, txt)
            if good is not True and k == 'other' and all(self.judge(row, I, q, *classify(I, q)) is True for q in self.by_variant(I, e, o) or (o,)):
                good = True
            if good is True:
                anyhit = anyhit or k != 'panic'
                continue
            if isinstance(good, str) and good.startswith('?'):
                und.append(good[1:])
                continue
            desc = '%s at %s' % (txt, o.where) if k == 'panic' else txt
            if o.st.unk or txt == 'bot':
                o.st.unk = o.st.unk or {'value lost in the analysis'}
                if txt != 'bot' and witness.confirm(I, o.st):
                    bad.append((desc if good is False else good, self.witness(I, o)))
                    continue
                und.append('%s under %s' % (desc[:120], '; '.join(sorted(map(str, o.st.unk))[:2])))
            else:
                bad.append((desc if good is False else good, self.witness(I, o)))
        if not outs:
            und.append('no outcome reachable')
        if row.expect == 'accept' and not bad and not und and not seen.get('ok'):
            bad.append(('no accepting outcome is reachable', {}))
        return {'undecided': und, 'bad': bad, 'outs': len(outs), 'kinds': dict(seen), 'fns': sorted(I.used_fns), 'steps': I.steps, 't': time.time() - t0, 'notes': sorted(I.notes)}

    def by_variant(self, I, e, o):
        """a result handed on as a whole, once per variant it can have on this path"""
        import models
        rt = e.fn['locals'][0][0] if e.fn.get('locals') else ''
        split = models.split_res if rt.startswith(models.RES + '<') else models.split_opt if rt.startswith(models.OPT + '<') else None
        if split is None or I.strip(o.st, o.val)[0] != 'o':
            return None
        make = {'Ok': models.ok, 'Err': models.err, 'Some': models.some, 'None': lambda v: models.NONE}
        return [Outcome(o.kind, make[var](pv), s, o.where) for s, var, pv in split(I, o.st, o.val)]

    def judge(self, row, I, o, k, txt):
        """True: as specified; False: not; str: not, with explanation"""
        if k == 'panic':
            if row.kw.get('panics', self.panics) == 'ignore':
                return True
            if row.kw.get('panics', self.panics) == 'arith' and 'overflow' in str(o.val):
                return True
            return False
        e = row.expect
        if e == 'any':
            return True
        if e == 'reject':
            return k == 'err'
        if e == 'accept':
            return k == 'ok'
        if callable(e):
            return e(I, o, k, txt)
        raise Exception('bad expectation %r' % (e,))

    def witness(self, I, o):
        w = {}
        for key, v in o.st.R.items():
            nm = lin_str(('n', 0, key))
            if len(nm) < 160 and '?' not in nm and '~' not in nm:
                w[nm] = fmt_rs(v)
        return w


class Ctx:
    def __init__(self, prop, F, tier='quick', seed=1, known=()):
        self.prop, self.F, self.tier, self.seed = prop, F, tier, seed
        self.tables = []
        self.lost = []           # entry points not found
        self.violations = []     # {key, msg, detail}
        self.undecided = []
        self.obligations = 0
        self.discharged = 0
        self.samples = []
        self.fns = set()
        self.counts = collections.Counter()
        self.explain = []
        self.known = {k: d for k, d in known}

    # ------------------------------------------------------ reporting
    def ob(self, ok, key, msg='', detail=None, undecided=None):
        """one obligation of a structural rule"""
        self.obligations += 1
        if undecided:
            self.undecided.append('%s: %s' % (key, undecided))
        elif ok:
            self.discharged += 1
        else:
            self.violations.append({'key': key, 'msg': msg, 'detail': detail})
        if len(self.samples) < 12 or not ok:
            self.samples.append({'obligation': key, 'holds': bool(ok) if not undecided else None, 'note': str(msg)[:300] if not ok else ''})
        return ok

    def floor(self, name, n, least):
        self.counts[name] = n
        if n < least:
            self.violations.append({'key': 'floor:' + name, 'msg': 'only %d %s found, %d were confirmed by hand: the rule no longer sees the code it is about' % (n, name, least), 'detail': None})

    def entry(self, path, params):
        return Entry(self, path, params)

    def table(self, *a, **kw):
        t = Table(self, *a, **kw)
        self.tables.append(t)
        return t

    def run_tables(self):
        global _CTX
        _CTX = self
        jobs = [(ti, ri) for ti, t in enumerate(self.tables) for ri in range(len(t.rows))]
        if not jobs:
            return
        n = min(8, os.cpu_count() or 4, len(jobs))
        if n > 1 and not os.environ.get('VSERIAL'):
            with multiprocessing.get_context('fork').Pool(n) as p:
                res = list(p.imap(_run_row, jobs, chunksize=1))
        else:
            res = [_run_row(j) for j in jobs]
        for ti, ri, r in res:
            t, row = self.tables[ti], self.tables[ti].rows[ri]
            key = '%s/%s' % (t.name, row.name)
            self.obligations += 1
            if 'error' in r:
                if os.environ.get('VVERBOSE'):
                    raise Exception('row %s: %s' % (key, r['error']))
                self.undecided.append('%s: analysis error: %s' % (key, str(r['error'])[-200:]))
                continue
            self.fns.update(r['fns'])
            self.counts['abstract_steps'] += r['steps']
            self.counts['outcomes'] += r['outs']
            if r['bad']:
                d, w = r['bad'][0]
                e = row.expect if isinstance(row.expect, str) else row.kw.get('say', 'the specified result')
                self.violations.append({'key': key, 'msg': 'inputs in the cell [%s] must give %s, but %s is reachable in %s' % (self.cellstr(t, row), e, d[:300], (row.entry or t.entry).path), 'detail': {'witness': w, 'others': [b[0][:200] for b in r['bad'][1:6]]}})
            elif r['undecided']:
                self.undecided.append('%s: %s' % (key, r['undecided'][0]))
            else:
                self.discharged += 1
            if len(self.samples) < 12 or r['bad']:
                self.samples.append({'cell': self.cellstr(t, row), 'rule': key, 'expect': row.expect if isinstance(row.expect, str) else row.kw.get('say', 'custom'), 'outcomes': r.get('kinds'), 'seconds': round(r['t'], 2)})
            if os.environ.get('VVERBOSE'):
                print('  row %-60s %s %s %.2fs %s %s' % (key, row.expect if isinstance(row.expect, str) else 'custom', r.get('kinds'), r['t'], [b[0][:150] for b in r['bad'][:4]], r['undecided'][:2]))

    def cellstr(self, t, row):
        out = []
        for k, v in list(row.cell.items()):
            out.append('%s in %s' % (k, fmt_rs(v)))
        for p, v in row.pats:
            out.append('/%s/ in %s' % (p, fmt_rs(v)))
        return ', '.join(out)[:400]
