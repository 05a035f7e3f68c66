#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property from /repo's current source."""
import sys, os, json, time, importlib, glob, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'va'), os.path.join(HERE, 'props')]
t0 = time.time()
import factsbuild
from harness import Ctx, Anchor
from facts import Facts


def registry():
    import registry as R
    return R.CHECKS


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        for e in json.load(open(p))['findings']:
            if e['property'] == prop:
                out.append((e['key'], e['what']))
    return out


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    fn = registry()[prop]
    d = factsbuild.ensure()
    F = Facts(sorted(glob.glob(d + '/*.jsonl')))
    ctx = Ctx(prop, F, tier, seed, known_findings(prop))
    ctx.repo = factsbuild.REPO
    try:
        fn(ctx)
        ctx.run_tables()
    except Anchor as e:
        ctx.obligations += 1
        ctx.violations.append({'key': 'anchor', 'msg': str(e), 'detail': None})
    if ctx.lost and not ctx.discharged:
        ctx.violations.append({'key': 'anchor', 'msg': 'everything the rule is stated over is gone: %s' % '; '.join(ctx.lost[:6]), 'detail': None})
    left, seen = [], {}
    for v in ctx.violations:
        if v['key'] in ctx.known:
            seen.setdefault(v['key'], v)
        else:
            left.append(v)
    cov = {
        'explanation': ' '.join(ctx.explain) or (fn.__doc__ or '').strip() or 'see DESIGN.md',
        'obligations': ctx.obligations, 'discharged': ctx.discharged,
        'samples': ctx.samples[:14],
        'functions_analysed': len(ctx.fns), 'functions': sorted(ctx.fns)[:60],
        'counts': dict(ctx.counts), 'undecided': len(ctx.undecided), 'undecided_list': ctx.undecided[:20],
        'known_findings_seen': sorted(seen),
    }
    if os.environ.get('VFNS'):
        open(os.environ['VFNS'] + '/' + prop, 'w').write('\n'.join(sorted(ctx.fns)))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': ['library functions behave as their models in va/models.py say', 'the stand-ins in stubs/ have the signatures of the crates they replace'],
          'violations': len(left), 'wall_s': round(time.time() - t0, 2)}
    edir = os.path.join(HERE, 'evidence')
    os.makedirs(edir, exist_ok=True)
    json.dump(ev, open(os.path.join(edir, prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d functions, %.1fs' % (prop, ctx.obligations, ctx.discharged, len(ctx.undecided), len(ctx.fns), time.time() - t0))
    for u in ctx.undecided[:20]:
        print('  undecided:', u[:300])
    for k in seen:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, ctx.known[k]))
    if not left and ctx.obligations == 0:
        print('no obligation was generated: the check analysed nothing')
        sys.exit(2)
    if left:
        rdir = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, prop + '.json')
        json.dump({'property': prop, 'source': d, 'violations': left}, open(rp, 'w'), indent=1)
        for v in left[:25]:
            print('  %s: %s' % (v['key'], v['msg'][:700]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        sys.exit(1)


if __name__ == '__main__':
    try:
        main()
    except factsbuild.BuildFailed as e:
        print('the source does not compile in the analysis workspace:\n%s' % e)
        sys.exit(2)
