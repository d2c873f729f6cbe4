"""Rules decided directly on the type-checked program."""
import extract
import verify

SYNC = {'std::mutex', 'std::shared_mutex', 'std::recursive_mutex', 'std::once_flag', 'std::condition_variable',
        'std::timed_mutex'}


def in_repo(loc):
    f = str((loc or [''])[0])
    return f.startswith(extract.REPO + '/') and not f.endswith('/util/expected')


def where(loc):
    return '%s:%s' % (str(loc[0])[len(extract.REPO) + 1:], loc[1])


def walk(n):
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            yield x
            stack.extend(x.values())
        elif isinstance(x, list):
            stack.extend(x)


def reaches_mutable(P, ty, depth=0):
    """A pointer, reference or smart pointer to something that can be changed."""
    if depth > 4:
        return False
    if ty.get('ref') or ty.get('k') == 'ptr':
        to = P.types[ty['to']] if 'to' in ty else None
        if to is None or to.get('k') == 'fn':
            return False
        return not to.get('const') or reaches_mutable(P, to, depth + 1)
    if ty.get('tn') in ('std::unique_ptr', 'std::shared_ptr'):
        a = [P.types[x['t']] for x in ty.get('targs') or [] if 't' in x]
        return bool(a) and not a[0].get('const')
    return False


def flag_objects(P):
    """The objects GetCancellationFlag(), or what it calls, refers to."""
    flag = set()
    todo = list(P.by_qn.get('trajopt::GetCancellationFlag', []))
    done = set()
    while todo:
        d = todo.pop()
        if id(d) in done:
            continue
        done.add(id(d))
        for n in walk(d.get('body')):
            if n.get('gid') in P.statics:
                flag.add(n['gid'])
            elif isinstance(n.get('qn'), str) and n['qn'].startswith('trajopt::'):
                todo.extend(P.by_qn.get(n['qn'], []))
    return flag


def one_flag(P, R, tier):
    """A request made on any thread is seen by the thread that generates: the flag
    is one object of the process, and access to it is atomic."""
    for g in sorted(flag_objects(P)):
        s = P.statics[g]
        ty = P.types[s['t']]
        under = P.types[ty['to']] if ty.get('ref') and 'to' in ty else ty
        label = 'a request made on another thread is seen'
        if s['tls']:
            why = '%s has one copy per thread' % s['qn']
        elif under.get('k') in ('int', 'bool', 'enum', 'float') or under.get('tn') in (None, ''):
            why = 'access to %s (%s) is not atomic' % (s['qn'], ty['s'])
        else:
            R.outcomes.append(verify.Outcome('cancel flag', label, 'discharged'))
            continue
        R.outcomes.append(verify.Outcome('cancel flag', label, 'violation', why, where(s['loc'])))


def no_shared_state(P, R, tier):
    """No object of static storage duration that can change, but the cancel flag;
    no member that const functions may change."""
    flag = flag_objects(P)
    seen = 0
    for s in P.statics.values():
        if not in_repo(s['loc']):
            continue
        seen += 1
        ty = P.types[s['t']]
        if s['const'] or s['constexpr']:
            if not reaches_mutable(P, ty):
                continue
        if ty.get('tn') in SYNC or ty.get('rec') in SYNC:
            continue
        under = P.types[ty['to']] if ty.get('ref') and 'to' in ty else ty
        if s['gid'] in flag and len(flag) == 1 and under.get('tn') == 'std::atomic' and not s['tls']:
            R.outcomes.append(verify.Outcome('shared state', 'the cancel flag is one atomic object', 'discharged'))
            continue
        R.outcomes.append(verify.Outcome(
            'shared state', 'static object %s cannot change' % s['qn'], 'violation',
            'all generators of the process share %s (%s)%s' %
            (s['qn'], ty['s'], ' in ' + s['in'] if s.get('in') else ''), where(s['loc'])))
    fields = 0
    for name, r in P.records.items():
        if not r.get('repo') or not in_repo(r.get('loc')):
            continue
        for f in r.get('fields') or []:
            fields += 1
            ty = P.types[f['t']]
            if f.get('mutable') and ty.get('tn') not in SYNC and ty.get('rec') not in SYNC and \
                    ty.get('tn') != 'std::atomic' and not name.startswith('('):
                R.outcomes.append(verify.Outcome(
                    'shared state', 'const functions do not change %s::%s' % (name, f['n']), 'violation',
                    'member %s of %s is mutable' % (f['n'], name), where(r['loc'])))
    labels = [o.label for o in R.outcomes if o.status == 'violation']
    if not any(x.startswith('static object') for x in labels):
        R.outcomes.append(verify.Outcome('shared state', 'no static object but the cancel flag can change', 'discharged'))
    if not any(x.startswith('const functions') for x in labels):
        R.outcomes.append(verify.Outcome('shared state', 'no const function can change a member', 'discharged'))
    R.coverage['static_objects_examined'] = seen
    R.coverage['data_members_examined'] = fields
