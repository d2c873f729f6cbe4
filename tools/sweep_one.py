#!/usr/bin/env python3
"""sweep_one.py [ids]: all properties on TJ_REPO in one process (for mutation sweeps)."""
import os
import sys
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import decide      # noqa: E402
import extract     # noqa: E402
import registry    # noqa: E402
import signal      # noqa: E402
import time        # noqa: E402
import verify      # noqa: E402


def main():
    t0 = time.time()
    ids = sys.argv[1:] or list(registry.PROPS)
    first = True
    for i in ids:
        p = registry.PROPS[i]
        R = decide.Result()
        t1 = time.time()
        P = extract.load(extra=tuple(u.name for u in p.units))
        for src, err in P.errors.items() if first else ():
            print('ERR', src, err[:300].replace('\n', ' '))
        first = False
        if any(s.startswith(extract.REPO) for s in P.errors):
            break
        for u in p.units:
            path = os.path.join(extract.VERIF, 'spec', u.name + '.cpp')
            if path in P.errors:
                print(i, 'violation' if u.promise else 'broken', u.name, 'does not compile')
                continue
            ns = decide.names_of(P, u.name)
            if u.only:
                ns = [n for n in ns if u.only(n)]
            for n in ns:
                c = u.cases[n](P) if n in u.cases else u.default(P, n)
                try:
                    signal.alarm(300)
                    outs, A = verify.check_case(P, n, c, 12, rng0=100003)
                    R.outcomes.extend(outs)
                except (RecursionError, MemoryError, decide.OutOfTime) as e:
                    R.outcomes.append(verify.Outcome(n, 'summary', 'undecided', repr(e)[:200]))
                except Exception as e:
                    R.outcomes.append(verify.Outcome(n, 'summary', 'broken', repr(e)[:200]))
                finally:
                    signal.alarm(0)
        if p.post:
            p.post(R)
        for rule in p.rules:
            rule(P, R, 'quick')
        for o in R.outcomes:
            if o.status in ('violation', 'undecided', 'broken'):
                print(i, o.status, o.case, '|', o.label, '|', o.detail[:160].replace('\n', ' '))
        if os.environ.get('TIMES'):
            print(i, '%.1f s' % (time.time() - t1))
    print('done %.1f s' % (time.time() - t0))


sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)
decide.init()


def go():
    try:
        main()
    finally:
        sys.stdout.flush()
        os._exit(0)


th = threading.Thread(target=go)
th.start()
th.join()
