"""Checks the analyser on spec/selftest.cpp (not a registered check)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import threading
import decide
import extract
import registry
import verify


def main():
    sys.setrecursionlimit(300000)
    P = extract.load(extra=('selftest',), repo_sources=False)
    for s, e in P.errors.items():
        if 'selftest' in s:
            print(e[:1500])
    bad = 0
    for n in decide.names_of(P, 'selftest'):
        if len(sys.argv) > 1 and sys.argv[1] not in n:
            continue
        try:
            outs, A = verify.check_case(P, n, verify.Case(n), 30, rng0=7)
            st = ','.join(sorted({o.status for o in outs}))
            det = next((o.detail for o in outs if o.status != 'discharged'), '')
        except LookupError as e:
            st, det = 'broken', str(e)
        ok = ('violation' in st) if n.startswith('diff') else not set(st.split(',')) - {'discharged', 'agrees'}
        bad += not ok
        print('ok ' if ok else 'BAD', n, st, '' if ok else det[:300])
    print('%d wrong' % bad)


threading.stack_size(512 << 20)
th = threading.Thread(target=main)
th.start()
th.join()
