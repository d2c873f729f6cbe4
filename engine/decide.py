"""Decides one property: loads its units, compares every impl/ref pair, applies
its rules, and collects what was analysed."""
import concurrent.futures as cf
import multiprocessing
import os
import resource
import signal
import sys
import time

import extract
import interp
import terms
import verify


class Broken(Exception):
    pass


class Result:
    def __init__(self):
        self.outcomes = []
        self.functions = []
        self.casefuncs = {}
        self.units = []
        self.tus = []
        self.seeds = 0
        self.coverage = {}
        self.assumptions = list(ASSUME)
        self.explanation = EXPLAIN
        self.rule = RULE


EXPLAIN = ('Static value-flow and effect summaries. Every translation unit of /repo is type-checked by clang; '
           'an abstract interpreter over the resolved syntax trees computes, for all inputs at once (symbolic '
           'scalars, sequences of unknown length, loops summarised in closed form), the result and the ordered '
           'effects of each API entry point, and the same for a reference written in plain arithmetic. An '
           'obligation is discharged when both summaries have the same canonical form, or are proved equal case by '
           'case (linear arithmetic over the conditions, pointwise for sequences). Where neither succeeds, '
           'both terms are compared under random interpretations of their symbols (polynomial identity testing '
           'on terms; the program is not run): a difference is a violation, agreement counts as '
           'agreeing_in_value_only and is not a proof.')
RULE = ('each public entry point, summarised over all inputs, has the value and the effects of the reference '
        'in its specification unit')
ASSUME = ['real arithmetic: floating-point rounding is not modelled',
          'the declared interface of Sleipnir (stubs/sleipnir) means what its documentation says',
          'the standard-library models of engine/models.py']


def names_of(P, unit):
    """impl functions of one specification unit, in source order."""
    path = os.path.join(extract.VERIF, 'spec', unit + '.cpp')
    out = []
    for qn, fs in P.by_qn.items():
        if qn.startswith("impl::") and qn.count("::") == 1 and "ref::" + qn[6:] in P.by_qn:
            loc = (fs[0].get('loc') or ['', 0])
            if str(loc[0]) == path:
                out.append((loc[1], qn[6:]))
    return [n for l, n in sorted(out)]


def load(units, cases_repo=True, checked=False):
    try:
        P = extract.load(extra=tuple(u.name for u in units), repo_sources=cases_repo, checked=checked)
    except extract.ExtractError as e:
        raise Broken(str(e))
    return P


_job = {}


class OutOfTime(Exception):
    pass


def expired(sig, frame):
    raise OutOfTime('out of time')


BUDGET = {'quick': 480, 'thorough': 6 * 3600}


def work(args):
    unit, name = args
    P, cases, seeds, seed, tier = _job['v']
    case = cases[(unit, name)]
    t0 = time.time()
    try:
        left = int(_job['until'] - t0)
        if left <= 0:
            raise OutOfTime('no time left')
        signal.alarm(left)
        outs, A = verify.check_case(P, name, case, seeds, rng0=seed * 100003)
        fs = verify.repo_functions(A.I) if A else []
        return name, outs, fs, None, time.time() - t0
    except (Exception, OutOfTime) as e:
        return name, [gave_up(name, e)], [], None, time.time() - t0
    finally:
        signal.alarm(0)


def gave_up(name, e):
    import traceback
    tb = traceback.extract_tb(e.__traceback__)
    at = ' (%s:%d)' % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else ''
    return verify.Outcome(name, 'summary', 'undecided', ('the analysis gave up: %r%s' % (e, at))[:400])


def decide(prop, p, tier, seed):
    R = Result()
    P = load(p.units, checked=p.checked)
    terms.POSITIVE = set(p.positive)
    bad = {}
    for src, err in P.errors.items():
        if src.startswith(os.path.join(extract.VERIF, 'spec') + '/'):
            bad[os.path.basename(src)[:-4]] = err
        elif p.tolerant:
            R.outcomes.append(p.tolerant(src, err))
        else:
            # a construct the declared library interfaces do not have
            R.outcomes.append(verify.Outcome(os.path.basename(src), 'type-check', 'undecided', first_error(err)))
    R.tus = [s for s in P.tus]
    R.units = [u.name for u in p.units]
    R.seeds = 60 if tier == 'quick' else 400
    jobs = []
    cases = {}
    for u in p.units:
        if u.name in bad:
            if u.promise:
                R.outcomes.append(verify.Outcome(u.name, 'the documented interface compiles', 'violation',
                                                 first_error(bad[u.name]), first_loc(bad[u.name])))
                continue
            # it names something /repo no longer has in that form
            R.outcomes.append(verify.Outcome(u.name, 'specification unit', 'undecided', first_error(bad[u.name])))
            continue
        if u.promise:
            R.outcomes.append(verify.Outcome(u.name, 'the documented interface compiles', 'discharged'))
        ns = names_of(P, u.name)
        if u.only:
            ns = [n for n in ns if u.only(n)]
        if not ns:
            raise Broken('specification unit %s has no functions' % u.name)
        for n in ns:
            cases[(u.name, n)] = u.cases[n](P) if n in u.cases else u.default(P, n)
            jobs.append((u.name, n))
    _job['v'] = (P, cases, R.seeds, seed, tier)
    _job['until'] = time.time() + BUDGET.get(tier, 600)
    funcs = {}
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(8, max(1, len(jobs))), initializer=init) as pool:
        for name, outs, fs, err, dt in pool.imap(work, jobs, chunksize=1):
            R.outcomes.extend(outs)
            R.casefuncs[name] = fs
            for f in fs:
                funcs[f] = 1
    R.functions = sorted('%s (%s)' % f for f in funcs)
    try:
        if p.post:
            p.post(R)
    except Exception as e:
        R.outcomes.append(gave_up('post', e))
    for rule in p.rules:
        try:
            rule(P, R, tier)
        except Broken:
            raise
        except Exception as e:
            R.outcomes.append(gave_up(getattr(rule, '__name__', 'rule'), e))
    return R


def init():
    signal.signal(signal.SIGALRM, expired)
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    sys.setrecursionlimit(200000)


def first_error(err):
    for l in err.splitlines():
        if 'error:' in l:
            return l.split('error:', 1)[1].strip()
    return err[:200]


def first_loc(err):
    for l in err.splitlines():
        if 'error:' in l:
            return l.split(': ')[0]
    return None
