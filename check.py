#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--program src|single]: decide one property."""
import argparse, importlib, json, multiprocessing, os, sys, time, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'rules')]
sys.setrecursionlimit(20000)
import facts
from report import Ctx


def work(a):
    prop, tier, program = a
    try:
        m = importlib.import_module(prop.lower())
        ctx = Ctx(prop, tier, facts.load(program))
        m.check(ctx)
        if not ctx.obs:
            raise facts.AnalysisBroken("%s: no obligation was checked in '%s'" % (prop, program))
        return ctx.result()
    except facts.AnalysisBroken as e:
        return {'program': program, 'broken': str(e)}
    except Exception:
        return {'program': program, 'broken': traceback.format_exc()}


def known(prop):
    path = os.path.join(V, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get('known', []) if k['property'] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--program')
    ap.add_argument('-v', action='store_true')
    o = ap.parse_args()
    t0 = time.time()
    prop = o.prop
    m = importlib.import_module(prop.lower())
    facts.build_tool()
    progs = [o.program] if o.program else ['src', 'single']
    with multiprocessing.Pool(len(progs)) as pool:
        res = pool.map(work, [(prop, o.tier, x) for x in progs], chunksize=1)
    broken = [r for r in res if 'broken' in r]
    ok = [r for r in res if 'broken' not in r]
    viol, seen = [], {}
    for r in ok:
        for v in r['violations']:
            k = v['rule'] + '|' + v['key']
            if k in seen:
                seen[k]['also'] = '%s (%s)' % (v['where'], v['program'])
            else:
                seen[k] = v
                viol.append(v)
    kn = known(prop)
    new, old = [], []
    for v in viol:
        (old if any(k['rule'] == v['rule'] and k['key'] == v['key'] for k in kn) else new).append(v)
    obs = {}
    for r in ok:
        for k, n in r['obligations'].items():
            obs[k] = obs.get(k, 0) + n
    cov = {
        'explanation': m.EXPLAIN.strip(),
        'rule': m.RULE.strip(),
        'programs': len(ok),
        'analysed_units': sum(r['units'] for r in ok),
        'functions_in_programs': sum(r['functions_total'] for r in ok),
        'functions_analysed': {r['program']: r['functions'] for r in ok},
        'call_sites_interpreted': sum(r['call_sites'] for r in ok),
        'explorations': sum(r['explorations'] for r in ok),
        'path_outcomes': sum(r['paths'] for r in ok),
        'branch_forks': sum(r['forks'] for r in ok),
        'obligations': sum(obs.values()),
        'obligations_by_rule': obs,
        'discharged': sum(obs.values()) - len(viol),
        'samples': [s for r in ok for s in r['samples']][:12],
    }
    ev = {'property': prop, 'tier': o.tier if o.tier in ('quick', 'thorough') else 'quick',
          'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
          'assumptions': list(getattr(m, 'ASSUME', [])) + [
              'clang 18 parses the sources as the build does (C++20, NDEBUG); callbacks and streams '
              'supplied by the user do not touch library internals',
              'standard library calls behave as modelled in lib/engine.py or are uninterpreted'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for v in old:
        print('KNOWN-FINDING: property=%s %s [%s] %s' % (prop, v['key'], v['where'], v['message']))
    if new:
        d = os.path.join(V, 'build', 'replay')
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, prop + '.txt')
        with open(rp, 'w') as f:
            for v in new:
                f.write('%s: rule "%s"\n  instance: %s\n  where: %s [program %s]%s\n  %s\n' % (
                    prop, v['rule'], v['key'], v['where'], v['program'],
                    '; also ' + v['also'] if 'also' in v else '', v['message']))
                for p in v['path']:
                    f.write('    %s\n' % p)
        for v in new:
            print('%s: %s: %s  (%s)' % (v['where'], v['rule'], v['message'], v['key']))
            if o.v:
                for p in v['path']:
                    print('    ', p)
        for b in broken:
            print('note: analysis incomplete in %s: %s' % (b['program'], b['broken'].splitlines()[-1]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if broken:
        for b in broken:
            print('ANALYSIS-BROKEN property=%s program=%s: %s' % (prop, b['program'], b['broken']))
        return 2
    print('%s: %d obligations hold (%d functions, %d call sites, %d path outcomes; %.1f s)' % (
        prop, sum(obs.values()), sum(len(r['functions']) for r in ok),
        cov['call_sites_interpreted'], cov['path_outcomes'], time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
