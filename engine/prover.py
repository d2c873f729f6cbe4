"""Decides comparisons under the facts that hold at a program point.

A goal q >= 0 is shown by cancelling its negative monomials against the facts
(each known to be >= 0); what is left must be intrinsically non-negative.  The
method is incomplete and sound: 'cond' comes back unchanged when nothing is
known."""
from fractions import Fraction
import terms as t


def flatten(facts):
    ge = []      # polynomials known >= 0
    eqs = []     # polynomials known == 0
    known = set()
    st = list(facts)
    while st:
        f = st.pop()
        if f.op == 'and':
            st.extend(f.args)
            continue
        known.add(f.id)
        if f.op in ('le0', 'lt0'):
            ge.append(t.neg(f.args[0]))
        elif f.op == 'eq0':
            eqs.append(f.args[0])
            ge.append(f.args[0])
            ge.append(t.neg(f.args[0]))
        elif f.op == 'not' and f.args[0].op == 'eq0':
            p = f.args[0].args[0]
            if t.is_int(p):
                if t.nonneg(p):
                    ge.append(t.sub(p, t.num(1)))
                elif t.nonneg(t.neg(p)):
                    ge.append(t.sub(t.neg(p), t.num(1)))
    return ge, eqs, known


_flat = {}


def flat(facts):
    k = tuple(f.id for f in facts)
    r = _flat.get(k)
    if r is None:
        r = flatten(facts)
        if len(_flat) > 20000:
            _flat.clear()
        _flat[k] = r
    return r


def neg_monos(q):
    out = []
    for m, c in q.args:
        if c >= 0:
            if all(e % 2 == 0 or t.atom_nonneg(a) for a, e in m):
                continue
            out.append((m, c))
        else:
            out.append((m, c))
    return out


def prove_ge(q, ge, depth=4, seen=None):
    """q >= 0 follows from the polynomials ge being >= 0."""
    if t.nonneg(q):
        return True
    if depth == 0:
        return False
    if seen is None:
        seen = set()
    if q.id in seen:
        return False
    seen.add(q.id)
    bad = neg_monos(q)
    if not bad:
        return True
    # bounds from min/max/first atoms
    for m, c in bad:
        if len(m) == 1 and m[0][1] == 1 and c < 0:
            a = m[0][0]
            subs = []
            if a.op == 'first':
                subs = [t.pos(a.args[1])]
            elif a.op == 'min':
                subs = list(a.args)
            for s in subs:
                q2 = t.add(q, t.mul(t.num(c), t.sub(s, t.atom(a))))
                if prove_ge(q2, ge, depth - 1, seen):
                    return True
            if a.op == 'max':
                if all(prove_ge(t.add(q, t.mul(t.num(c), t.sub(s, t.atom(a)))), ge, depth - 1, seen)
                       for s in a.args):
                    return True
            if a.op == 'ite':
                if all(prove_ge(t.add(q, t.mul(t.num(c), t.sub(s, t.atom(a)))), ge, depth - 1, seen)
                       for s in a.args[1:]):
                    return True
        if len(m) == 1 and m[0][1] == 1 and c > 0 and m[0][0].op == 'max':
            for s in m[0][0].args:
                if prove_ge(t.add(q, t.mul(t.num(c), t.sub(s, t.atom(m[0][0])))), ge, depth - 1, seen):
                    return True
    m, c = bad[0]
    if m == () and len(bad) > 1:
        m, c = bad[1]
    for f in ge:
        for fm, fc in f.args:
            if fm == m and ((fc < 0) == (c < 0)):
                lam = Fraction(c) / Fraction(fc)
                q2 = t.sub(q, t.mul(t.num(lam), f))
                if prove_ge(q2, ge, depth - 1, seen):
                    return True
    return False


_memo = {}
STRONG = None      # least values of atoms, while comparisons may use linear arithmetic


def strong(floor):
    global STRONG
    STRONG = floor
    _memo.clear()
    _fixed.clear()


def simp(c, facts):
    if c is t.TRUE or c is t.FALSE:
        return c
    k = (c.id, tuple(f.id for f in facts))
    r = _memo.get(k)
    if r is None:
        r = _simp(c, facts)
        if STRONG is not None and r.op in ('le0', 'lt0', 'eq0'):
            r = settle(r, facts)
        if len(_memo) > 200000:
            _memo.clear()
        _memo[k] = r
    return r


_fixed = {}


def fixed(facts):
    """Lengths the facts determine: {atom id: number}."""
    import refute
    k = tuple(f.id for f in facts)
    r = _fixed.get(k)
    if r is None:
        r = {}
        for f in facts:
            if f.op not in ('le0', 'eq0'):
                continue
            ms = [(m, c) for m, c in f.args[0].args if m != ()]
            if len(ms) != 1 or abs(ms[0][1]) != 1 or len(ms[0][0]) != 1:
                continue
            a, e = ms[0][0][0]
            if e != 1 or a.op != 'len' or a.id in r:
                continue
            n = t.num(-dict(f.args[0].args).get((), 0) * ms[0][1])
            try:
                if refute.unsat(list(facts) + [t.not_(t.eq0(t.sub(t.atom(a), n)))], STRONG):
                    r[a.id] = n
            except refute.TooHard:
                pass
        _fixed[k] = r
    return r


def settle(c, facts):
    import refute
    try:
        if refute.unsat(list(facts) + [c], STRONG):
            return t.FALSE
        if refute.unsat(list(facts) + [t.not_(c)], STRONG):
            return t.TRUE
    except refute.TooHard:
        pass
    return c


def _simp(c, facts):
    ge, eqs, known = flat(facts)
    if c.id in known:
        return t.TRUE
    if t.not_(c).id in known:
        return t.FALSE
    o = c.op
    if o == 'and':
        xs = [simp(x, facts) for x in c.args]
        return t.and_(*xs)
    if o == 'or':
        xs = [simp(x, facts) for x in c.args]
        return t.or_(*xs)
    if o == 'le0':
        p = c.args[0]
        if prove_ge(t.neg(p), ge):
            return t.TRUE
        if t.is_int(p):
            if prove_ge(t.sub(p, t.num(1)), ge):
                return t.FALSE
        elif known_strict(p, facts):
            return t.FALSE
        return c
    if o == 'lt0':
        p = c.args[0]
        if prove_ge(p, ge):
            return t.FALSE
        if known_strict(t.neg(p), facts):
            return t.TRUE
        return c
    if o == 'eq0':
        p = c.args[0]
        if t.is_int(p):
            if prove_ge(t.sub(p, t.num(1)), ge) or prove_ge(t.sub(t.neg(p), t.num(1)), ge):
                return t.FALSE
        elif known_strict(p, facts) or known_strict(t.neg(p), facts):
            return t.FALSE
        up, down = prove_ge(p, ge), prove_ge(t.neg(p), ge)
        if up and down:
            return t.TRUE
        if t.is_int(p):
            if up:
                return t.le0(p)
            if down:
                return t.le0(t.neg(p))
        return c
    if o == 'not':
        x = simp(c.args[0], facts)
        return t.not_(x)
    if o == 'none':
        n = simp(t.le0(c.args[1]), facts)
        if n is t.TRUE:
            return t.TRUE
        v, b = t.open_(c, 2)
        vb = simp(b, tuple(facts) + (t.lt0(t.sub(t.atom(v), c.args[1])),))
        if vb is t.FALSE:
            return t.TRUE
        return c
    return c


def known_strict(p, facts):
    """p > 0 follows: some fact -q<0 (strict) with p - lam*q >= 0."""
    ge, eqs, known = flat(facts)
    if len(p.args) > 0:
        k0 = dict(p.args).get((), 0)
        if k0 > 0 and prove_ge(t.sub(p, t.num(k0)), ge):
            return True
    st = list(facts)
    while st:
        f = st.pop()
        if f.op == 'and':
            st.extend(f.args)
        elif f.op == 'lt0':
            q = t.neg(f.args[0])
            k = t.proportional(dict(p.args), dict(q.args))
            if k is not None and k > 0:
                return True
    return False


# ---- simplification of a whole term under facts --------------------------------
def norm(x, facts=(), memo=None):
    """Simplify the gates inside a term using the facts and the enclosing
    binder ranges and guards."""
    if memo is None:
        memo = {}
    k = (x.id, tuple(f.id for f in facts))
    r = memo.get(k)
    if r is None:
        r = _norm(x, facts, memo)
        memo[k] = r
    return r


def _has_gate(x, memo={}):
    r = memo.get(x.id)
    if r is None:
        if x.op in ('ite', 'le0', 'lt0', 'eq0', 'if', 'wrap', 'none', 'first', 'min', 'max', 'abs', 'upd',
                    'valof', 'obj'):
            r = True
        else:
            r = any(_has_gate(y) for y in t.subterms(x))
        memo[x.id] = r
    return r


def _norm(x, facts, memo):
    if not _has_gate(x) and not (STRONG is not None and fixed(facts)):
        return x
    o = x.op
    N = lambda y: norm(y, facts, memo)
    if t.is_bool(x) and o not in ('none', 'and', 'or', 'not'):
        if o in ('le0', 'lt0', 'eq0'):
            p = N(x.args[0])
            return simp({'le0': t.le0, 'lt0': t.lt0, 'eq0': t.eq0}[o](p), facts)
        return simp(x, facts)
    if o == 'poly':
        new = {}
        fix = fixed(facts) if STRONG is not None else {}
        for m, c in x.args:
            for a, e in m:
                if a.id not in new and a.id in fix:
                    new[a.id] = fix[a.id]
                elif a.id not in new:
                    v = norm(a, facts, memo) if _has_gate(a) or fix else a
                    new[a.id] = None if v is a else v if v.op == 'poly' else t.atom(v)
        if not any(v is not None for v in new.values()):
            return x
        acc = {}
        for m, c in x.args:
            ch = [(new[a.id], e) for a, e in m if new[a.id] is not None]
            if not ch:
                acc[m] = acc.get(m, 0) + c
                continue
            p = t._rawpoly({tuple(ae for ae in m if new[ae[0].id] is None): c})
            for v, e in ch:
                p = t.mul(p, t.powi(v, e))
            for m2, c2 in p.args:
                acc[m2] = acc.get(m2, 0) + c2
        return t.mkpoly(acc)
    if o == 'ite':
        c = N(x.args[0])
        if c is t.TRUE:
            return N(x.args[1])
        if c is t.FALSE:
            return N(x.args[2])
        a = norm(x.args[1], facts + (c,), memo)
        b = norm(x.args[2], facts + (t.not_(c),), memo)
        if a is not b and t.is_num(a) and t.is_num(b):
            # one branch covers the other
            d = t.eq0(t.sub(a, b))
            if simp(d, facts + (t.not_(c),)) is t.TRUE:
                return a
            if simp(d, facts + (c,)) is t.TRUE:
                return b
        return t.ite(c, a, b)
    if o == 'and':
        out = []
        fs = facts
        for y in x.args:
            z = norm(y, fs, memo)
            if z is t.FALSE:
                return t.FALSE
            out.append(z)
            fs = fs + (z,) if z is not t.TRUE else fs
        # second pass so that the result does not depend on the order
        res = []
        for i, y in enumerate(out):
            others = tuple(z for j, z in enumerate(out) if j != i and z is not t.TRUE)
            z = norm(y, facts + others, memo)
            if z is t.TRUE:
                out[i] = t.TRUE
                continue
            out[i] = z
            res.append(z)
        return t.and_(*res)
    if o == 'or':
        return simp(t.or_(*[N(y) for y in x.args]), facts)
    if o == 'not':
        return t.not_(N(x.args[0]))
    if o == 'if':
        c = N(x.args[0])
        if c is t.FALSE:
            return t.EMPTY
        if c is t.TRUE:
            return N(x.args[1])
        return t.ifseg(c, norm(x.args[1], facts + (c,), memo))
    if o in ('sum', 'for', 'none', 'first'):
        cnt = N(x.args[1])
        if STRONG is not None and o in ('sum', 'for', 'none') and simp(t.le0(cnt), facts) is t.TRUE:
            return {'sum': t.num(0), 'for': t.EMPTY, 'none': t.TRUE}[o]
        if STRONG is not None and o in ('sum', 'for', 'none') and t.is_int(cnt) and t.const_of(cnt) is None and \
                simp(t.eq0(t.sub(cnt, t.num(1))), facts) is t.TRUE:
            cnt = t.num(1)
        v, b = t.open_(x, 2)
        fs = facts + (t.lt0(t.sub(t.atom(v), cnt)),)
        if o in ('sum', 'for', 'none'):
            fs = fs + (t.lt0(t.neg(cnt)),)
        b = norm(b, fs, memo)
        return {'sum': t.sum_, 'for': t.forseq, 'none': t.none_, 'first': t.first_}[o](cnt, v, b)
    if o in ('minred', 'maxred'):
        cnt = N(x.args[1])
        a = t.single_atom(cnt)
        if a is not None and a.op == 'max' and len(a.args) == 2 and t.num(0) in a.args:
            cnt = a.args[1] if a.args[0] is t.num(0) else a.args[0]     # a negative count is an empty range
        b0 = t.mk('bnd', x.args[0])
        v = t.fresh_bv()
        fs = facts + (t.lt0(t.sub(t.atom(v), cnt)), t.lt0(t.neg(cnt)))
        items = []
        for g in x.args[3:]:
            gg = norm(t.subst(g.args[0], {b0: t.atom(v)}), fs, memo)
            if gg is t.FALSE:
                continue
            items.append((gg, norm(t.subst(g.args[1], {b0: t.atom(v)}), fs + (gg,), memo)))
        return t.minred(o, cnt, v, N(x.args[2]), items)
    if STRONG is not None and o in ('max', 'min') and len(x.args) == 2:
        p, q = N(x.args[0]), N(x.args[1])
        d = simp(t.le0(t.sub(p, q)), facts)
        if d is t.TRUE or d is t.FALSE:
            return q if (d is t.TRUE) == (o == 'max') else p
        return t.minmax(o, [p, q])
    if STRONG is not None and o == 'wrap' and t.is_int(x.args[1]):
        p = N(x.args[1])
        if simp(t.le0(t.neg(p)), facts) is t.TRUE:
            return p
        return t.fn('wrap', x.args[0], p)
    if STRONG is not None and o == 'updfor':
        hh, base, cnt, idx, val = x.args
        v = t.fresh_bv()
        b0 = t.mk('bnd', hh)
        cnt = N(cnt)
        fs = facts + (t.lt0(t.sub(t.atom(v), cnt)), t.le0(t.neg(t.atom(v))))
        return t.updfor(N(base), cnt, v, norm(t.subst(idx, {b0: t.atom(v)}), fs, memo),
                        norm(t.subst(val, {b0: t.atom(v)}), fs, memo))
    if o in ('updfor', 'fold'):
        return x
    if o in t.VARLIKE:
        return x
    old = t.Facts.cur
    t.Facts.cur = facts
    try:
        args = []
        for a in x.args:
            if isinstance(a, t.T):
                args.append(N(a))
            elif isinstance(a, tuple):
                args.append(tuple(N(b) if isinstance(b, t.T) else b for b in a))
            else:
                args.append(a)
        return t.rebuild(o, args)
    finally:
        t.Facts.cur = old
