#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decides one property on /repo's current tree.

exit 0: property held on everything analysed; 1: violation (line VIOLATION property=.. replay=..);
2: the analysis could not be carried out."""
import sys, os, json, time, importlib, traceback, argparse
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from pfstat.model import Model, AnalysisError
from pfstat import findings


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    mod = importlib.import_module('pfstat.props.' + a.prop.lower())
    ev = os.environ.get('PFSTAT_EVID') or os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    try:
        m = Model()
        res = mod.check(m, a.tier)
        if a.tier == 'thorough' and getattr(mod, 'BOTH_BUILDS', True):
            md = Model(debug=True)
            r2 = mod.check(md, a.tier)
            have = {(v['function'], v['message']) for v in res['violations']}
            res['violations'] += [v for v in r2['violations'] if (v['function'], v['message']) not in have]
            res['coverage']['debug_build_variant'] = {k: v for k, v in r2['coverage'].items()
                                                      if isinstance(v, int)}
        if not res['coverage'].get('instances_checked'):
            raise AnalysisError('the rule of %s matched nothing: anchors vanished' % a.prop)
    except AnalysisError as e:
        print('ANALYSIS-ERROR property=%s %s' % (a.prop, e))
        return 2
    known = findings.load()
    new, old = [], []
    for v in res['violations']:
        (old if findings.match(known, a.prop, v) else new).append(v)
    cov = res['coverage']
    cov['translation_units'] = len(m.tus)
    cov['functions_in_tree'] = len(m.funcs)
    cov['known_findings'] = len(old)
    cov.setdefault('explanation', mod.__doc__.strip())
    cov['rule'] = ' '.join(mod.__doc__.split())
    doc = {'property': a.prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')),
           'level': getattr(mod, 'LEVEL', 'other'), 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
           'violations': len(new), 'assumptions': getattr(mod, 'ASSUMPTIONS', []) + COMMON}
    doc['coverage']['violation_details'] = new
    json.dump(doc, open(os.path.join(ev, a.prop + '.json'), 'w'), indent=1)
    for v in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (a.prop, v['where'], v['message']))
    if a.v:
        print(json.dumps(cov, indent=1)[:6000])
    print('%s: %d instances checked, %d violations, %d known findings, %.1fs' % (
        a.prop, cov['instances_checked'], len(new), len(old), time.time() - t0))
    if new:
        rp = os.path.join(ev, a.prop + '.violations.json')
        json.dump(new, open(rp, 'w'), indent=1)
        for v in new:
            print('  %s in %s: %s\n      path %s' % (v['where'], v['function'], v['message'], v.get('path', '')))
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
        return 1
    return 0


COMMON = ['clang 18 front end and CFG builder are correct',
          'code reached only through callbacks supplied by the embedding application (logger, plugins) does not '
          're-enter the framework']

if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
