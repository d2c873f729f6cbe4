#!/usr/bin/env python3
"""check.py <property>: decides one property from /repo's current source.

exit 0  nothing found          exit 1  VIOLATION line printed
exit 2  the analysis itself could not be carried out"""
import json
import os
import resource
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))


def known(prop):
    """[(key, text)] of the findings recorded for this property."""
    out = []
    try:
        for line in open(os.path.join(HERE, 'known_findings.txt')):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' | ')
                out.append((key.strip(), text.strip()))
    except OSError:
        pass
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    import extract
    import registry
    import decide
    p = registry.PROPS[prop]
    try:
        R = decide.decide(prop, p, tier, seed)
    except decide.Broken as e:
        print('ERROR: %s: %s' % (prop, e))
        return 2
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    n = {}
    for o in R.outcomes:
        n[o.status] = n.get(o.status, 0) + 1
    viol = [o for o in R.outcomes if o.status == 'violation']
    kn = known(prop)
    new = []
    shown = set()
    for o in viol:
        k = '%s/%s' % (o.case, o.label)
        hit = [x for x in kn if x[0] == k]
        if hit:
            if k not in shown:
                print('KNOWN-FINDING: property=%s %s' % (prop, hit[0][1]))
                shown.add(k)
        else:
            new.append(o)
    cov = {
        'explanation': R.explanation,
        'obligations': len(R.outcomes),
        'discharged': n.get('discharged', 0),
        'agreeing_in_value_only': n.get('agrees', 0),
        'undecided': n.get('undecided', 0),
        'violated': len(viol),
        'interpretations_per_undischarged_obligation': R.seeds,
        'rule': R.rule,
        'spec_units': R.units,
        'translation_units': R.tus,
        'functions_analysed': R.functions,
        'samples': ['%s: %s: %s%s' % (o.case, o.label, o.status, ' (%s)' % o.detail if o.detail else '')
                    for o in sample(R.outcomes)],
    }
    cov.update(R.coverage)
    und = [o for o in R.outcomes if o.status == 'undecided']
    if und:
        cov['undecided_obligations'] = ['%s: %s: %s' % (o.case, o.label, o.detail) for o in und][:40]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': p.level, 'coverage': cov,
          'assumptions': R.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    rep = os.path.join(HERE, 'evidence', prop + '.report.txt')
    with open(rep, 'w') as f:
        for o in R.outcomes:
            f.write('%-10s %s: %s%s%s\n' % (o.status, o.case, o.label, '\n           ' + o.detail if o.detail else '',
                                            '\n           at ' + str(o.loc) if o.loc else ''))
    for o in und:
        print('undecided: %s: %s: %s' % (o.case, o.label, o.detail[:300]))
    print('%s: %d obligations, %s (%.1f s)' % (prop, len(R.outcomes),
                                               ', '.join('%d %s' % (v, k) for k, v in sorted(n.items())),
                                               time.time() - t0))
    if new:
        for o in new[:12]:
            print('%s %s: %s' % (place(o, R), o.case, o.label))
            print('    %s' % o.detail)
            if o.extra and o.extra.get('model') is not None:
                print('    structure %s' % o.extra['model'])
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    return 0


def place(o, R):
    if o.loc:
        return '%s:' % o.loc
    fs = R.casefuncs.get(o.case)
    return ('%s:' % fs[0][1]) if fs else 'spec:'


def sample(outs):
    seen = {}
    for o in outs:
        seen.setdefault(o.status, []).append(o)
    r = []
    for k in seen:
        r.extend(seen[k][:6])
    return r


if __name__ == '__main__':
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]

    def go():
        try:
            rc[0] = main()
        except SystemExit as e:
            rc[0] = e.code
        except BaseException:
            import traceback
            traceback.print_exc(file=sys.stdout)
            rc[0] = 2
    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0] if isinstance(rc[0], int) else 2)
