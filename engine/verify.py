"""Compares the summary of every impl:: function of a specification unit with
the summary of its ref:: counterpart."""
import math
import os
import time
from fractions import Fraction

import extract
import cases
import interp
import prover
import refute
import rint
import terms as t
from terms import mk

VARTN = 'sleipnir::Variable'
TRACE = {'decl', 'callback', 'solved'}          # bookkeeping events, no effect of their own


class Case:
    """How one function is compared.

    opaque     functions summarised by name (decided by another property)
    unordered  fields whose order carries no meaning
    events     None: all events as a multiset; or a tuple of event names kept, in order
    mode       'missing': other events than the required ones do not matter; 'extra': only those do
    once       events that mean the same however often they happen
    phases     'init': compare the values variables hold when the solver starts
    fix/flen/falt, maxlen   shape of the random structures
    floor      least value of an atom (a length) that holds by another property
    """

    def __init__(self, name, opaque=None, unordered=(), events=None, order=False, fix=None, flen=None,
                 falt=None, maxlen=3, params=(), seeds=1.0, views=None, roles=None, keep=None,
                 project=None, K=16, title=None, mode='both', once=('subject', 'apply'),
                 bounds=False, floor=None):
        self.name = name
        self.opaque = opaque or {}
        self.unordered = unordered
        self.events = events
        self.order = order
        self.fix = fix
        self.flen = flen
        self.falt = falt
        self.maxlen = maxlen
        self.params = params
        self.seeds = seeds
        self.views = views
        self.roles = roles
        self.keep = keep
        self.project = project
        self.K = K
        self.title = title
        self.mode = mode
        self.once = once
        self.bounds = bounds
        self.floor = floor


class Outcome:
    def __init__(self, case, label, status, detail='', loc=None, extra=None):
        self.case = case
        self.label = label
        self.status = status        # discharged | agrees | violation | undecided
        self.detail = detail
        self.loc = loc
        self.extra = extra


class Summary:
    def __init__(self, I, v, refs, log):
        self.I = I
        self.v = v
        self.refs = refs
        self.log = log


_strip_memo = {}


def strip(x):
    """The term without source locations."""
    r = _strip_memo.get(x.id)
    if r is None:
        if x.op == 'ev':
            r = mk('ev', x.args[0], '', *[strip(a) if isinstance(a, t.T) else a for a in x.args[2:]])
        elif x.op == 'poly':
            r = x
        elif not any(isinstance(a, t.T) or isinstance(a, tuple) for a in x.args):
            r = x
        else:
            r = mk(x.op, *[strip(a) if isinstance(a, t.T) else
                           tuple(strip(b) if isinstance(b, t.T) else b for b in a) if isinstance(a, tuple) else a
                           for a in x.args])
        _strip_memo[x.id] = r
    return r


def explode(s):
    """A log as a list of single-event segments (order forgotten), or None."""
    out = []
    if s.op != 'seq':
        return None
    for g in s.args:
        if g.op == 'elem':
            out.append(t.seq(g))
        elif g.op == 'for':
            v, b = t.open_(g, 2)
            r = explode(b)
            if r is None:
                return None
            for x in r:
                out.append(t.forseq(g.args[1], v, x))
        elif g.op == 'if':
            r = explode(g.args[1])
            if r is None:
                return None
            for x in r:
                out.append(t.ifseg(g.args[0], x) if not t.is_seq(t.ifseg(g.args[0], x)) else t.ifseg(g.args[0], x))
        elif g.op == 'sub':
            r = explode(g.args[0])
            if r is None:
                return None
            out.extend(r)
        else:
            return None
    return out


def leaf_event(x):
    """The single event inside an exploded segment."""
    while True:
        if x.op == 'seq':
            if len(x.args) != 1:
                return None
            x = x.args[0]
        elif x.op == 'elem':
            return x.args[0]
        elif x.op == 'for':
            x = x.args[2]
        elif x.op == 'if':
            x = x.args[1]
        else:
            return None


def trivial_rel(r):
    if r.op != 'rel':
        return False
    c = t.const_of(r.args[1])
    return c is not None and (c == 0 if r.args[0] == '==' else c >= 0)


def keep_event(e, events):
    if e is None or e.op != 'ev':
        return True
    n = e.args[0]
    if events is not None:
        return n in events
    if n in TRACE:
        return False
    if n == 'subject' and trivial_rel(e.args[2]):
        return False
    return True


def vars_of(P, d):
    out = set()
    for p in d['params']:
        ty = P.types[p['t']]
        while ty.get('ref') and 'to' in ty:
            ty = P.types[ty['to']]
        if ty.get('tn') == VARTN or (ty.get('rec') or '').endswith(VARTN):
            out.add(p['n'])
    return out


def evaluate(P, qn, case, facts=()):
    I = interp.Interp(P, opaque=case.opaque)
    I.bounds = case.bounds
    v, refs, log = I.run(qn, facts=facts)
    return Summary(I, v, refs, log)


def repo_functions(I):
    """Functions of /repo the summary went through."""
    out = []
    for k, d in I.funcs_seen.items():
        loc = d.get('loc') or ['', 0]
        f = str(loc[0])
        if f.startswith(extract.REPO + '/'):
            out.append((d['qn'], '%s:%s' % (f[len(extract.REPO) + 1:], loc[1])))
    return out


def views_of(case, S, which):
    """[(label, term)] compared as values."""
    out = []
    if case.views is not None:
        return [(n, f(S)) for n, f in case.views]
    if S.v is not None and S.v is not interp.VOID:
        out.append(('result', S.v))
    for n in case.params:
        if n in S.refs:
            out.append(('final ' + n, S.refs[n]))
    return out


def check_case(P, name, case, seeds, rng0=0, report=None):
    """[Outcome] for one function."""
    t0 = time.time()
    impl, ref, pre = 'impl::' + name, 'ref::' + name, 'pre::' + name
    fs = P.by_qn.get(impl)
    gs = P.by_qn.get(ref)
    if not fs or not gs:
        raise LookupError('specification function %s is incomplete' % name)
    res = []
    facts = ()
    prec = None
    try:
        if P.by_qn.get(pre):
            prec = evaluate(P, pre, case).v
            facts = tuple(prec.args) if prec.op == 'and' else (prec,)
    except interp.Unsupported as e:
        raise LookupError('precondition of %s: %s' % (name, e))
    try:
        B = evaluate(P, ref, case, facts)
    except interp.Unsupported as e:
        raise LookupError('reference %s: %s' % (name, e))
    try:
        A = evaluate(P, impl, case, facts)
    except interp.Unsupported as e:
        return [Outcome(name, 'summary', 'undecided', 'not summarised: %s' % e)], None
    roles = None
    if case.roles:
        ca, cb = case.roles(A), case.roles(B)
        if set(cb) - set(ca):
            return [Outcome(name, 'summary', 'undecided', 'the columns of the solution were not found')], A
        roles = (site_roles(ca), site_roles(cb))
    vs = vars_of(P, fs[0])
    todo = []
    try:
        for (la, xa), (lb, xb) in zip(views_of(case, A, 'impl'), views_of(case, B, 'ref')):
            for lc, ya, yb in split(la, xa, xb):
                if same_term(ya, yb, facts, roles, case.unordered):
                    res.append(Outcome(name, lc, 'discharged'))
                elif by_cases(ya, yb, case, facts, roles):
                    # the proof is a long one: look for a witness against it all the same
                    o = Outcome(name, lc, 'discharged', 'equal in every case')
                    res.append(o)
                    todo.append((o, 'value', ya, yb))
                else:
                    o = Outcome(name, lc, 'agrees')
                    res.append(o)
                    todo.append((o, 'value', ya, yb))
        if case.events != ():
            ea, eb = A.log, B.log
            o = None
            if not case.order:
                missing, extra, total, plain = event_terms(ea, eb, case, facts, roles)
                if missing is not None and not missing and not extra:
                    if not total:
                        res.append(Outcome(name, 'no effects', 'discharged'))
                    for i in range(total):
                        res.append(Outcome(name, 'effect %d' % (i + 1), 'discharged'))
                    if not plain:
                        # parts of the logs were matched or refuted by a longer proof: cross-checked too
                        o = Outcome(name, 'effects', 'discharged', 'equal in every case')
                        res.append(o)
                elif missing is not None:
                    for i in range(total - len(missing)):
                        res.append(Outcome(name, 'effect %d' % (i + 1), 'discharged'))
                    for m in missing:
                        res.append(Outcome(name, 'effect: %s' % t.show(m)[:160], 'agrees'))
                    o = Outcome(name, 'effects', 'agrees')
                    res.append(o)
                else:
                    o = Outcome(name, 'effects', 'agrees')
                    res.append(o)
            else:
                xa, xb = ordered(ea, case), ordered(eb, case)
                if xa is not None and xb is not None and same_term(xa, xb, facts, roles):
                    res.append(Outcome(name, 'effects in order', 'discharged'))
                else:
                    o = Outcome(name, 'effects in order', 'agrees')
                    res.append(o)
            if o is not None:
                todo.append((o, 'events', ea, eb))
    except RecursionError:
        res.append(Outcome(name, 'normal form', 'undecided', 'term too deep'))
    if todo:
        random_phase(name, case, A, B, prec, vs, todo, res, seeds, rng0)
    for (obj, owner), user in A.I.dangling.items():
        d = P.functions.get(user) or {}
        res.append(Outcome(name, 'no object is used after its lifetime', 'violation',
                           '%s of %s is used after its lifetime, by %s' %
                           (obj, owner, d.get('qn', 'the caller')), A.I.locstr(d.get('loc'))))
    return res, A


def split(label, a, b, depth=2):
    """Records compared field by field."""
    if depth and a.op == 'rec' and b.op == 'rec' and a.args[0] == b.args[0] and a.args[1] == b.args[1] \
            and len(a.args) > 3 and not str(a.args[0]).startswith('$'):
        out = []
        for n, x, y in zip(a.args[1], a.args[2:], b.args[2:]):
            out.extend(split('%s.%s' % (label, n), x, y, depth - 1))
        return out
    return [(label, a, b)]


def sort_unordered(x, fields, memo):
    """Sequences held in the named fields, in a canonical order."""
    r = memo.get(x.id)
    if r is not None:
        return r
    if x.op == 'poly' or not any(isinstance(a, t.T) for a in x.args):
        r = x
    else:
        args = [sort_unordered(a, fields, memo) if isinstance(a, t.T) else a for a in x.args]
        if x.op == 'rec' and isinstance(args[1], tuple):
            for i, n in enumerate(args[1]):
                if n in fields and args[2 + i].op == 'seq':
                    e = explode(args[2 + i])
                    if e is not None:
                        q = t.EMPTY
                        for z in sorted(e, key=lambda z: z.id):
                            q = t.cat(q, z)
                        args[2 + i] = q
        r = x if all(a is b for a, b in zip(args, x.args)) else mk(x.op, *args)
    memo[x.id] = r
    return r


def ordered(log, case):
    """The log restricted to the events of interest, order kept."""
    if log.op != 'seq':
        return None
    out = t.EMPTY
    for g in log.args:
        if g.op == 'elem':
            if keep_event(g.args[0], case.events):
                out = t.cat(out, t.seq(g))
        elif g.op == 'for':
            v, b = t.open_(g, 2)
            r = ordered(b, case)
            if r is None:
                return None
            if r is not t.EMPTY:
                out = t.cat(out, t.forseq(g.args[1], v, r))
        elif g.op == 'if':
            r = ordered(g.args[1], case)
            if r is None:
                return None
            if r is not t.EMPTY:
                out = t.cat(out, t.ifseg(g.args[0], r))
        elif g.op == 'sub':
            r = ordered(g.args[0], case)
            if r is None:
                return None
            out = t.cat(out, r)
        else:
            return None
    return out


def rename_sites(x, m, memo):
    """Decision-variable sites replaced by the names of their columns."""
    if m is None:
        return x
    r = memo.get(x.id)
    if r is None:
        if x.op == 'dv':
            r = mk('dv', m.get(x.args[0], ('?', x.args[0])),
                   *[rename_sites(a, m, memo) for a in x.args[1:]])
        elif x.op == 'poly':
            acc = t.num(0)
            ch = False
            for mo, c in x.args:
                p = t.num(c)
                for a, e in mo:
                    b = rename_sites(a, m, memo)
                    if b is not a:
                        ch = True
                    p = t.mul(p, t.powi(b if b.op == 'poly' else t.atom(b), e))
                acc = t.add(acc, p)
            r = acc if ch else x
        elif not any(isinstance(a, (t.T, tuple)) for a in x.args):
            r = x
        else:
            args = [rename_sites(a, m, memo) if isinstance(a, t.T) else
                    tuple(rename_sites(b, m, memo) if isinstance(b, t.T) else b for b in a)
                    if isinstance(a, tuple) else a for a in x.args]
            if all(a is b for a, b in zip(args, x.args)):
                r = x
            elif x.op == 'rel':
                r = t.rel(*args)
            else:
                r = t.rebuild(x.op, args)
        memo[x.id] = r
    return r


def site_roles(cols):
    """{site: column name} from {column name: term}, where the pattern is plain."""
    out = {}
    for n, x in cols.items():
        y = x
        bs = []
        ok = True
        while y.op == 'seq' and len(y.args) == 1 and y.args[0].op in ('for', 'elem'):
            g = y.args[0]
            if g.op == 'elem':
                y = g.args[0]
            else:
                v, b = t.open_(g, 2)
                bs.append(v)
                y = b
                # the body is a sequence holding one element
        a = t.single_atom(y) if y.op == 'poly' else y
        if a is not None and a.op == 'val':
            a = a.args[0]
        if a is not None and a.op == 'dv' and a.args[0] not in out:
            idx = [t.single_atom(z) for z in a.args[1:]]
            if all(i in bs for i in idx):
                out[a.args[0]] = n
    return out


def same_term(a, b, facts, roles=None, unordered=()):
    a, b = strip(a), strip(b)
    if roles:
        a, b = rename_sites(a, roles[0], {}), rename_sites(b, roles[1], {})
    if a is b:
        return True
    a, b = prover.norm(a, facts), prover.norm(b, facts)
    if a is b:
        return True
    if unordered:
        m = {}
        a, b = sort_unordered(a, unordered, m), sort_unordered(b, unordered, m)
        a, b = prover.norm(a, facts), prover.norm(b, facts)
        a, b = sort_unordered(a, unordered, m), sort_unordered(b, unordered, m)
        if a is b:
            return True
    if t.is_num(a) and t.is_num(b):
        return prover.norm(t.sub(a, b), facts) is t.num(0)
    return False


def by_cases(a, b, case, facts, roles):
    a, b = strip(a), strip(b)
    if roles:
        a, b = rename_sites(a, roles[0], {}), rename_sites(b, roles[1], {})
    if case.unordered:
        m = {}
        a, b = sort_unordered(a, case.unordered, m), sort_unordered(b, case.unordered, m)
    return cases.same(a, b, facts, case.floor)


def event_terms(la, lb, case, facts, roles):
    """Multiset comparison of normalised events: (missing, unexpected, expected count)."""
    ea, eb = explode(la), explode(lb)
    if ea is None or eb is None:
        return None, None, 0, True
    def prep(l, m):
        out = []
        for x in l:
            if not keep_event(leaf_event(x), case.events):
                continue
            e = leaf_event(x)
            if case.keep and not case.keep(e):
                continue
            y = strip(x)
            if m is not None:
                y = rename_sites(y, m, {})
            y = prover.norm(y, facts)
            if y is t.EMPTY:
                continue
            e = leaf_event(y)
            if e is not None and e.op == 'ev' and e.args[0] == 'subject' and trivial_rel(e.args[2]):
                continue
            out.append((y, x))
        return out
    ea, eb = prep(ea, roles and roles[0]), prep(eb, roles and roles[1])
    rest = list(ea)
    missing = []
    used = set()
    for y, x in eb:
        e = leaf_event(y)
        if e is not None and e.op == 'ev' and e.args[0] in case.once:
            if y in used or any(z is y for z, w in rest):
                used.add(y)
                rest = [zw for zw in rest if zw[0] is not y]
                continue
            missing.append((y, x))
            continue
        for i, (z, w) in enumerate(rest):
            if z is y:
                del rest[i]
                break
        else:
            missing.append((y, x))
    plain = (not rest or case.mode == 'missing') and (not missing or case.mode == 'extra' and not rest)
    extra = [(z, w) for z, w in rest if not refute.impossible(z, facts, case.floor)]
    missing = [(y, x) for y, x in missing if not refute.impossible(y, facts, case.floor)]
    if missing and extra:
        if len(missing) + len(extra) < 40 and \
                cases.same_events([z for z, w in extra], [y for y, x in missing], facts, case.floor):
            missing, extra = [], []
        for yx in list(missing):
            e = leaf_event(yx[0])
            for zw in extra:
                f = leaf_event(zw[0])
                if e is not None and f is not None and e.args[0] == f.args[0] and len(e.args) == len(f.args) and \
                        cases.same_events([zw[0]], [yx[0]], facts, case.floor):
                    missing.remove(yx)
                    extra.remove(zw)
                    break
    extra = [w for z, w in extra]
    missing = [x for y, x in missing]
    if case.mode == 'missing':
        extra = []
    if case.mode == 'extra' and not extra:
        missing = []
    return missing, extra, len(eb), plain


# ------------------------------------------------------------- random phase
def assign_lengths(M, prec):
    """Choose lengths that make the equations of the precondition true where that
    is possible, then decide whether the structure satisfies it."""
    parts = prec.args if prec.op == 'and' else (prec,)
    for c in parts:
        if c.op == 'eq0':
            lens = []
            for mo, co in c.args[0].args:
                if len(mo) == 1 and mo[0][1] == 1 and mo[0][0].op == 'len' and abs(co) == 1:
                    lens.append((mo[0][0], co))
            cand = []
            for a, co in lens:
                try:
                    v = M.ev(a.args[0])
                except (rint.Poison, rint.Cannot):
                    continue
                if isinstance(v, list) and len(a.args[0].args) == 1 and a.args[0].args[0].op == 'opq':
                    pass
                if isinstance(v, rint.Ref):
                    cand.append((v.p, a, co))
            cand = [z for z in cand if z[0] not in M.lens] or []
            if cand:
                p, a, co = cand[-1]
                rest = t.sub(c.args[0], t.mul(t.num(co), t.atom(a)))
                try:
                    val = -M.num(rest, {}) / co
                except (rint.Poison, rint.Cannot):
                    return False
                if val < 0 or val != int(val) or val > (40 if M.until is None else 5000):
                    return False
                M.lens[p] = int(val)
                M.memo.clear()
    try:
        return M.cond(prec, {})
    except rint.Poison:
        return False


def tokens(M, x):
    """The decision variables a column (possibly nested) consists of."""
    v = M.ev(x)

    def conv(z):
        if isinstance(z, list):
            return [conv(y) for y in z]
        if isinstance(z, rint.Ref):
            return [conv(y) for y in M.aslist(z)]
        return getattr(z, 'tok', None)
    return conv(v)


def guard_constants(roots):
    """Where the linear guards inside the terms change: (lengths, numbers, large ones of either)."""
    lens, nums, bigs = set(), set(), set()
    seen = set()
    st = [x for x in roots if isinstance(x, t.T)]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        st.extend(t.subterms(x))
        if x.op in ('idiv', 'imod') and t.const_of(x.args[1]) is not None:
            c = abs(t.const_of(x.args[1]))
            if 2 < c <= 12:
                lens.add(c)
        if x.op in ('min', 'max'):
            for a in x.args:
                if t.const_of(a) is not None:
                    nums.add(Fraction(t.const_of(a)))
                    bigs.add(t.const_of(a))
        if x.op not in ('le0', 'lt0', 'eq0') or x.args[0].op != 'poly':
            continue
        const = sum(c for mo, c in x.args[0].args if not mo)
        for mo, c in x.args[0].args:
            if len(mo) != 1 or mo[0][1] != 1:
                continue
            root = Fraction(-const) / c
            a = mo[0][0]
            bigs.add(root)
            if a.op in ('len', 'bnd', 'sum', 'ite', 'idiv') and 2 < root <= 12:
                lens.add(math.floor(root))
            if a.op not in ('len', 'bnd') and root not in (0, 1, -1, 2):
                nums.add(root)
    bigs = sorted(set(math.floor(b) for b in bigs if 12 < b <= 4000))
    return sorted(lens), sorted(nums), bigs[:4]


def random_phase(name, case, A, B, prec, vs, todo, res, seeds, rng0):
    n = max(8, int(seeds * case.seeds))
    done = 0
    tries = 0
    cannot = None
    bad = {}
    given = set()
    refpoison = 0
    consts = guard_constants([x for z in todo for x in z[2:]])
    seen = set()
    t0 = time.time()
    large = [(k, b + d, r) for b in consts[2] for d in (1, 0) for k, q in (('nat', 9), ('len', 5)) for r in range(q)]
    while tries < n * 40 or large:
        big = None
        if done >= n or tries >= n * 40:
            # one count or length as large as a guard asks for
            if large and time.time() - t0 < 240 and len(bad) < len(todo):
                big = large.pop(0)
            # more structures while there are guards that always went the same way
            elif tries >= n * 40 or done >= 4 * n or (time.time() - t0 > 100 and n < 100) or \
                    all((i, not v) in seen for i, v in seen) or len(bad) == len(todo):
                break
        seed = rng0 + tries
        tries += 1
        M = rint.Model(seed, fix=case.fix, flen=case.flen, falt=case.falt, vars=vs,
                       K=case.K if (vs or case.roles) else 1, maxlen=case.maxlen, consts=consts[:2], seen=seen,
                       big=big, until=time.time() + 10 if big else None)
        try:
            if prec is not None and not assign_lengths(M, prec):
                continue
        except rint.Slow:
            continue
        except rint.Cannot as e:
            cannot = e
            break
        good = True
        for o, kind, xa, xb in todo:
            if id(o) in bad or o.status == 'undecided' or id(o) in given:
                continue
            try:
                try:
                    M.role = case.rolemap(M, B) if hasattr(case, 'rolemap') else roles_of(M, case, B)
                    b = interpret(M, case, kind, xb)
                except rint.Poison:
                    refpoison += 1
                    good = False
                    break
                try:
                    M.role = roles_of(M, case, A)
                    a = interpret(M, case, kind, xa)
                except rint.Poison as e:
                    bad[id(o)] = ((seed, done), ('reads what does not exist: %s' if 'end' not in str(e) else 'contains %s') % e, None)
                    continue
                d = differ(M, case, kind, a, b)
                if d is not None:
                    bad[id(o)] = ((seed, done),) + d
            except rint.Slow:
                good = False
                break
            except (rint.Cannot, RecursionError) as e:
                given.add(id(o))
                if o.status == 'agrees':
                    o.status = 'undecided'
                    o.detail = 'terms not compared: %s' % ('too deep' if isinstance(e, RecursionError) else e)
        if good:
            done += 1
    for o, kind, xa, xb in todo:
        if id(o) in bad:
            (seed, after), what, loc = bad[id(o)]
            o.status = 'violation'
            o.detail = what
            o.loc = loc
            o.extra = {'model': seed}
            o.after = after         # so many structures showed no difference
        elif o.status == 'agrees':
            if cannot is not None or done == 0:
                o.status = 'undecided'
                o.detail = 'no structure satisfies the precondition' if cannot is None else str(cannot)
            else:
                o.detail = 'terms differ in form, equal on %d structures' % done
                half = sum((i, not v) not in seen for i, v in seen)
                if half:
                    o.detail += ', %d guard(s) went one way only' % half
    for o in res:
        if o.label.startswith('effect: ') and o.status == 'agrees':
            o.detail = 'terms differ in form'


def roles_of(M, case, S):
    if not case.roles:
        return {}
    out = {}
    M.role = {}
    tok = rint.Tokens(M)
    for cname, x in case.roles(S).items():
        try:
            leaves = list(tok.leaves(x))
        except rint.Poison:
            continue                # where there is no solution
        for path, tk in leaves:
            out.setdefault(tk, ('dv', cname) + path)
    return out


def interpret(M, case, kind, x):
    M.memo = {}
    M._km = {}
    if kind == 'value':
        if case.project:
            return case.project(M, M.ev(x))
        return M.ev(x)
    v = M.ev(x)
    out = []
    for e in v:
        if not isinstance(e, rint.Ev):
            raise rint.Cannot('log entry %r' % (e,))
        if case.events is not None:
            if e.name not in case.events:
                continue
        elif e.name in TRACE:
            continue
        if e.name == 'subject' and trivial_value(e.args[0]):
            continue
        if case.keep and not case.keep(e):
            continue
        out.append(e)
    return out


def trivial_value(r):
    if not isinstance(r, rint.Rel):
        return False
    v = r.vals
    if any(z is rint.UNDEF or z != z for z in v):
        return False
    if r.op == '==':
        return all(abs(float(z)) < 1e-12 for z in v)
    return all(z == v[0] for z in v) and float(v[0]) >= 0 and len(v) > 1


def differ(M, case, kind, a, b):
    if kind == 'value':
        d = rint.diff(M, a, b, '', case.unordered)
        if d is None:
            return None
        return ('%s is %s where %s is required' % (d[0].lstrip('.') or 'the result', short(d[1]), short(d[2])), None)
    if case.order:
        d = rint.diff(M, a, b, 'effects', case.unordered)
        if d is None:
            return None
        loc = None
        for x, y in zip(a, b):
            if rint.diff(M, x, y, '', case.unordered) is not None:
                loc = x.loc
                break
        else:
            loc = a[-1].loc if a else None
        return ('%s: %s where %s is required' % (d[0], short(d[1]), short(d[2])), loc)
    missing, extra = rint.match_events(M, a, b, case.unordered, case.once)
    if case.mode == 'missing':
        extra = []
    elif case.mode == 'extra':
        missing = []
    if not missing and not extra:
        return None
    what = []
    if missing:
        what.append('%d required effect(s) missing, e.g. %s' % (len(missing), short(missing[0])))
    if extra:
        what.append('%d effect(s) that are not required, e.g. %s' % (len(extra), short(extra[0])))
    loc = extra[0].loc if extra else None
    return ('; '.join(what), loc)


def short(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + '...'
