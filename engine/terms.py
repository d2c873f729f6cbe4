"""Hash-consed value-flow terms.

Every value the analysis computes is one of these terms.  Numbers are kept as
polynomials over atoms, sequences as a free monoid of comprehension segments,
booleans in negation normal form over linear-comparison atoms.  Two values are
the same for every input if they normalise to the same term (the converse does
not hold, which is why a difference alone never raises an alarm)."""
from fractions import Fraction
import math

_tab = {}
_n = [0]
NOFV = frozenset()


class T:
    __slots__ = ('op', 'args', 'id', 'fv', 'h', '_nn', '_int')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


POSITIVE = set()       # fields documented as non-negative, where that is part of the precondition


def mk(op, *args):
    if POSITIVE and op == 'obj' and args[-1] == 'real' and args[0] == 'fld' and args[2] in POSITIVE:
        args = args[:-1] + ('pos',)
    k = (op,) + args
    t = _tab.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    _n[0] += 1
    t.id = _n[0]
    t._nn = None
    t._int = None
    if op in VARLIKE:
        t.fv = frozenset((t,))
        t.h = args[0] if op == 'bnd' else 0
    elif op == 'poly':
        fv = None
        h = 0
        for mono, c in args:
            for a, e in mono:
                if a.fv:
                    fv = a.fv if fv is None else fv | a.fv
                if a.h > h:
                    h = a.h
        t.fv = fv or NOFV
        t.h = h
    else:
        fv = None
        h = 0
        for a in args:
            if isinstance(a, T):
                if a.fv:
                    fv = a.fv if fv is None else fv | a.fv
                if a.h > h:
                    h = a.h
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T):
                        if b.fv:
                            fv = b.fv if fv is None else fv | b.fv
                        if b.h > h:
                            h = b.h
        if op in BINDERS:
            hh = args[0]
            if fv:
                fv = frozenset(x for x in fv
                               if not (x.op in ('bnd', 'bph') and x.args[0] == hh))
            h = max(h, hh)
        t.fv = fv or NOFV
        t.h = h
    _tab[k] = t
    return t


# variable-like leaves: bound while evaluating, canonical binders, loop-entry placeholders
VARLIKE = {'bv', 'bnd', 'phi', 'bph'}
# args[0] is the binder height
BINDERS = {'sum', 'for', 'none', 'first', 'fold', 'updfor', 'minred', 'maxred'}

_bvn = [0]


def fresh_bv(hint='k'):
    _bvn[0] += 1
    return mk('bv', _bvn[0])


def fresh_phi(kind, hint=''):
    """kind: 'nat', 'int', 'real', 'bool', 'obj'."""
    _bvn[0] += 1
    return mk('phi', _bvn[0], kind)


# ------------------------------------------------------------------ numbers
def _norm_coef(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def _rawpoly(d):
    items = [(m, _norm_coef(c)) for m, c in d.items() if c != 0]
    items.sort(key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    return mk('poly', *items)


ZERO = None
ONE = None


def num(c):
    if isinstance(c, float):
        if math.isinf(c):
            return INF if c > 0 else neg(INF)
        c = Fraction(c)
    c = _norm_coef(c)
    return _rawpoly({(): c})


def atom(a):
    """A polynomial consisting of one atom."""
    return _rawpoly({((a, 1),): 1})


def is_num(t):
    return isinstance(t, T) and t.op == 'poly'


def const_of(t):
    """The rational value of a constant polynomial, else None."""
    if t.op != 'poly':
        return None
    if not t.args:
        return 0
    if len(t.args) == 1 and t.args[0][0] == ():
        return t.args[0][1]
    return None


def single_atom(t):
    if t.op == 'poly' and len(t.args) == 1:
        m, c = t.args[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def needs_reduce(m):
    for a, e in m:
        if (e >= 2 or e <= -2) and a.op in ('sqrt', 'abs'):
            return True
        if e >= 2 and a.op == 'sin':
            return True
        if e == -1 and a.op == 'sqrt':
            return False
    return False


def mkpoly(d):
    """Normalise a monomial->coefficient dictionary."""
    red = [m for m, c in d.items() if c != 0 and needs_reduce(m)]
    while red:
        for m in red:
            c = d.pop(m)
            p = num(c)
            for a, e in m:
                if a.op in ('sqrt',) and abs(e) >= 2:
                    k = int(e / 2)
                    p = mul(p, powi(a.args[0], k))
                    r = e - 2 * k
                    if r:
                        p = mul(p, _rawpoly({((a, r),): 1}))
                elif a.op == 'abs' and abs(e) >= 2:
                    k = int(e / 2)
                    p = mul(p, powi(a.args[0], 2 * k))
                    r = e - 2 * k
                    if r:
                        p = mul(p, _rawpoly({((a, r),): 1}))
                elif a.op == 'sin' and e >= 2:
                    cs = cos(a.args[0])
                    p = mul(p, sub(num(1), mul(cs, cs)))
                    if e > 2:
                        p = mul(p, _rawpoly({((a, e - 2),): 1}))
                else:
                    p = mul(p, _rawpoly({((a, e),): 1}))
            for m2, c2 in p.args:
                d[m2] = d.get(m2, 0) + c2
        red = [m for m, c in d.items() if c != 0 and needs_reduce(m)]
    # |x| written with sign(): sign(d)*(c*d) -> c*|d|
    sg = set()
    for m, c in d.items():
        if c != 0:
            for a, e in m:
                if a.op == 'sign' and e == 1:
                    sg.add(a)
    for s in sg:
        B = {}
        for m, c in d.items():
            if c != 0:
                for a, e in m:
                    if a is s and e == 1:
                        B[tuple(x for x in m if x[0] is not s)] = c
        q = s.args[0]
        k = proportional(B, dict(q.args))
        if k is not None and B:
            for m in list(d):
                if any(a is s and e == 1 for a, e in m):
                    del d[m]
            ab = absv(q)
            for m2, c2 in mul(num(k), ab).args:
                d[m2] = d.get(m2, 0) + c2
    return _rawpoly(d)


def proportional(A, B):
    """k with A = k*B (dictionaries), or None."""
    A = {m: c for m, c in A.items() if c != 0}
    B = {m: c for m, c in B.items() if c != 0}
    if len(A) != len(B) or not A:
        return None
    k = None
    for m, c in A.items():
        if m not in B:
            return None
        r = Fraction(c) / Fraction(B[m])
        if k is None:
            k = r
        elif r != k:
            return None
    return k


def add(a, b):
    if a.op != 'poly' or b.op != 'poly':
        raise TypeError('add of non-number %r %r' % (a, b))
    if not a.args:
        return b
    if not b.args:
        return a
    d = dict(a.args)
    for m, c in b.args:
        d[m] = d.get(m, 0) + c
    return mkpoly(d)


def neg(a):
    return _rawpoly({m: -c for m, c in a.args})


def sub(a, b):
    return add(a, neg(b))


def addn(*xs):
    r = num(0)
    for x in xs:
        r = add(r, x)
    return r


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id))


LIMIT = 60000


def mul(a, b):
    if a.op != 'poly' or b.op != 'poly':
        raise TypeError('mul of non-number %r %r' % (a, b))
    if not a.args or not b.args:
        return num(0)
    ca, cb = const_of(a), const_of(b)
    if ca is not None:
        if ca == 1:
            return b
        return _rawpoly({m: c * ca for m, c in b.args})
    if cb is not None:
        return mul(b, a)
    # cancel an inverse against the polynomial it inverts
    for p, q in ((a, b), (b, a)):
        if len(p.args) == 1 and len(q.args) > 1:
            m, c = p.args[0]
            for at, e in m:
                if at.op == 'inv' and e >= 1:
                    k = proportional(dict(q.args), dict(at.args[0].args))
                    if k is not None:
                        rest = _rawpoly({tuple(x for x in m if x[0] is not at) + (
                            ((at, e - 1),) if e > 1 else ()): c * k})
                        return mkpoly(dict(rest.args))
    if len(a.args) * len(b.args) > LIMIT:
        if len(a.args) > len(b.args):
            a = atom(mk('paren', a))
        else:
            b = atom(mk('paren', b))
    d = {}
    for m1, c1 in a.args:
        for m2, c2 in b.args:
            m = mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return mkpoly(d)


def muln(*xs):
    r = num(1)
    for x in xs:
        r = mul(r, x)
    return r


def inv(p):
    c = const_of(p)
    if c is not None:
        if c == 0:
            return INF
        return num(Fraction(1) / Fraction(c))
    if len(p.args) == 1:
        m, c = p.args[0]
        return mkpoly({tuple((a, -e) for a, e in m): Fraction(1) / Fraction(c)})
    # factor the common monomial
    common = None
    for m, c in p.args:
        dm = dict(m)
        if common is None:
            common = dm
        else:
            common = {a: min(e, dm[a]) for a, e in common.items() if a in dm}
        if not common:
            break
    common = {a: e for a, e in (common or {}).items() if e > 0}
    lead = p.args[0][1]
    if common:
        im = tuple(sorted(((a, -e) for a, e in common.items()), key=lambda ae: ae[0].id))
        q = _rawpoly({mmul(m, im): Fraction(c) / Fraction(lead) for m, c in p.args})
        return mul(_rawpoly({im: Fraction(1) / Fraction(lead)}), atom(mk('inv', q)))
    q = _rawpoly({m: Fraction(c) / Fraction(lead) for m, c in p.args})
    return mul(num(Fraction(1) / Fraction(lead)), atom(mk('inv', q)))


def div(a, b):
    if a is b and const_of(b) != 0:
        return num(1)
    cb = const_of(b)
    if cb is None and len(b.args) > 1:
        k = proportional(dict(a.args), dict(b.args))
        if k is not None:
            return num(k)
    return mul(a, inv(b))


def powi(p, n):
    if n == 0:
        return num(1)
    if n < 0:
        return inv(powi(p, -n))
    r = p
    for _ in range(n - 1):
        r = mul(r, p)
    return r


def lead_split(p):
    """p = c*q with the leading coefficient of q equal to 1."""
    c = p.args[0][1]
    return c, _rawpoly({m: Fraction(x) / Fraction(c) for m, x in p.args})


def sign(p):
    c = const_of(p)
    if c is not None:
        return num((c > 0) - (c < 0))
    c, q = lead_split(p)
    s = atom(mk('sign', q))
    return s if c > 0 else neg(s)


def absv(p):
    c = const_of(p)
    if c is not None:
        return num(abs(c))
    if nonneg(p):
        return p
    c, q = lead_split(p)
    return mul(num(abs(c)), atom(mk('abs', q)))


def _isqrt(c):
    c = Fraction(c)
    if c < 0:
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def sqrt(p):
    c = const_of(p)
    if c is not None:
        r = _isqrt(c)
        if r is not None:
            return num(r)
        return atom(mk('sqrt', p))
    if len(p.args) == 1:
        m, c = p.args[0]
        r = _isqrt(c)
        if r is not None and all(e % 2 == 0 for a, e in m):
            return mul(num(r), absv(_rawpoly({tuple((a, e // 2) for a, e in m): 1})))
    # pull out a square rational content
    c, q = lead_split(p)
    r = _isqrt(c) if c > 0 else None
    if r is not None and r != 1:
        return mul(num(r), atom(mk('sqrt', q)))
    return atom(mk('sqrt', p))


def cos(p):
    c = const_of(p)
    if c == 0:
        return num(1)
    if c is None or c < 0:
        co, q = lead_split(p)
        if co < 0:
            p = neg(p)
    return atom(mk('cos', p))


def sin(p):
    c = const_of(p)
    if c == 0:
        return num(0)
    co, q = lead_split(p)
    if co < 0:
        return neg(atom(mk('sin', neg(p))))
    return atom(mk('sin', p))


def fn(name, *args):
    """Other real functions."""
    if name == 'sqrt':
        return sqrt(args[0])
    if name == 'cos':
        return cos(args[0])
    if name == 'sin':
        return sin(args[0])
    if name == 'abs':
        return absv(args[0])
    if name == 'sign':
        return sign(args[0])
    if name == 'hypot':
        return sqrt(addn(*[mul(a, a) for a in args]))
    cs = [const_of(a) for a in args]
    if name in ('trunc', 'floor', 'ceil', 'round'):
        if cs[0] is not None:
            f = Fraction(cs[0])
            if name == 'floor':
                return num(math.floor(f))
            if name == 'ceil':
                return num(math.ceil(f))
            if name == 'trunc':
                return num(math.trunc(f))
        if is_int(args[0]):
            return args[0]
    if name == 'pow':
        if cs[1] is not None and Fraction(cs[1]).denominator == 1 and abs(cs[1]) <= 8:
            return powi(args[0], int(cs[1]))
        if cs[1] == Fraction(1, 2):
            return sqrt(args[0])
    if name == 'idiv':
        if cs[1] == 1:
            return args[0]
        if cs[0] is not None and cs[1]:
            q = abs(cs[0]) // abs(cs[1])
            return num(q if (cs[0] < 0) == (cs[1] < 0) else -q)
    if name == 'imod':
        if cs[1] == 1:
            return num(0)
        if cs[0] is not None and cs[1]:
            r = abs(cs[0]) % abs(cs[1])
            return num(r if cs[0] >= 0 else -r)
    if name == 'narrow':  # narrow(bits, p): p as an integer of so many bits, signed if < 0
        b, c = int(cs[0]), cs[1]
        if c is not None and c == int(c):
            c = int(c) % (1 << abs(b))
            return num(c - (1 << abs(b)) if b < 0 and c >> (abs(b) - 1) else c)
    if name == 'fl32':
        a = single_atom(args[0])
        if a is not None and a.op == 'fl32':
            return args[0]
        if cs[0] is not None and in_float(Fraction(cs[0])):
            return args[0]
    if name == 'wrap':  # wrap(bits, p): p modulo 2**bits
        if nonneg(args[1]):
            return args[1]
        c = cs[1]
        if c is not None:
            return num(int(c) % (1 << int(cs[0])))
    return atom(mk(name, *args))


def in_float(c):
    d = c.denominator
    return d & (d - 1) == 0 and abs(c.numerator) < 1 << 24 and d < 1 << 60


def minmax(op, xs):
    """op 'min'/'max' over a list of polynomials, flattened and sorted."""
    s = {}
    for x in xs:
        a = single_atom(x)
        if a is not None and a.op == op:
            for y in a.args:
                s[y.id] = y
        else:
            s[x.id] = x
    cs = [(const_of(x), x) for x in s.values() if const_of(x) is not None]
    if len(cs) > 1:
        best = (min if op == 'min' else max)(cs, key=lambda c: c[0])
        for c, x in cs:
            if x is not best[1]:
                del s[x.id]
    if op == 'min' and INF.id in s and len(s) > 1:
        del s[INF.id]
    if op == 'max' and len(s) > 1:
        cs = [x for x in s.values() if const_of(x) is not None]
        for c in cs:
            if const_of(c) <= 0 and all(nonneg(x) for x in s.values() if x is not c):
                del s[c.id]
    l = sorted(s.values(), key=lambda x: x.id)
    if len(l) == 1:
        return l[0]
    return atom(mk(op, *l))


# sorts -----------------------------------------------------------------
INTOPS = {'len', 'idiv', 'imod', 'wrap', 'narrow', 'first', 'trunc', 'floor', 'ceil', 'round', 'bv', 'sign',
          'altidx'}
NNOPS = {'len', 'bv', 'bnd', 'wrap', 'first', 'sqrt', 'abs', 'altidx'}


def atom_int(a):
    if a._int is None:
        o = a.op
        if o in INTOPS or o == 'bnd':
            r = True
        elif o in ('sym', 'phi'):
            r = a.args[1] in ('nat', 'int')
        elif o == 'obj':
            r = a.args[-1] in ('nat', 'int')
        elif o == 'get':
            r = a.args[-1] in ('nat', 'int')
        elif o in ('ite',):
            r = is_int(a.args[1]) and is_int(a.args[2])
        elif o in ('min', 'max'):
            r = all(is_int(x) for x in a.args)
        elif o == 'sum':
            r = is_int(a.args[2])
        elif o == 'abs':
            r = is_int(a.args[0])
        elif o == 'bph':
            r = a.args[2] in ('nat', 'int')
        elif o == 'fold':
            r = a.args[4] in ('nat', 'int')
        elif o in ('uf',):
            r = a.args[1] in ('nat', 'int')
        elif o == 'paren':
            r = is_int(a.args[0])
        else:
            r = False
        a._int = r
    return a._int


def is_int(p):
    if p.op != 'poly':
        return False
    if p._int is None:
        r = True
        for m, c in p.args:
            if isinstance(c, Fraction) or any(e < 0 or not atom_int(a) for a, e in m):
                r = False
                break
        p._int = r
    return p._int


def atom_nonneg(a):
    if a._nn is None:
        o = a.op
        if o in NNOPS:
            r = True
        elif o in ('sym', 'phi', 'uf'):
            r = a.args[1] in ('nat', 'pos')
        elif o in ('obj', 'get'):
            r = a.args[-1] in ('nat', 'pos')
        elif o == 'bph':
            r = a.args[2] in ('nat', 'pos')
        elif o == 'fold':
            r = a.args[4] in ('nat', 'pos')
        elif o == 'ite':
            r = nonneg(a.args[1]) and nonneg(a.args[2])
        elif o == 'max':
            r = any(nonneg(x) for x in a.args)
        elif o == 'min':
            r = all(nonneg(x) for x in a.args)
        elif o in ('sum',):
            r = nonneg(a.args[2])
        elif o == 'narrow':
            r = const_of(a.args[0]) > 0
        elif o == 'fl32':
            r = nonneg(a.args[0])
        elif o in ('idiv', 'imod'):
            r = nonneg(a.args[0]) and nonneg(a.args[1])
        elif o in ('trunc', 'floor', 'ceil', 'round', 'inv', 'paren'):
            r = nonneg(a.args[0])
        elif o in ('inf', 'pi'):
            r = True
        else:
            r = False
        a._nn = r
    return a._nn


def nonneg(p):
    """Intrinsically >= 0 (without any path facts)."""
    if p.op != 'poly':
        return False
    if p._nn is None:
        r = True
        for m, c in p.args:
            if c < 0:
                r = False
                break
            for a, e in m:
                if e % 2 and not atom_nonneg(a):
                    r = False
                    break
            if not r:
                break
        p._nn = r
    return p._nn


def sym(name, kind='real'):
    return atom(mk('sym', name, kind))


# ------------------------------------------------------------------ booleans
TRUE = mk('true')
FALSE = mk('false')


def bconst(b):
    return TRUE if b else FALSE


def found(p):
    """For p = +-(n - first(n, c)): (sign, condition that there is none)."""
    if len(p.args) > 6:
        return None
    for m, c in p.args:
        if len(m) == 1 and m[0][0].op == 'first' and m[0][1] == 1 and abs(c) == 1:
            a = m[0][0]
            if not nonneg(a.args[1]):
                return None
            d = sub(a.args[1], atom(a))
            if d is p:
                return 1, mk('none', *a.args)
            if d is neg(p):
                return -1, mk('none', *a.args)
    return None


def le0(p):
    """p <= 0"""
    c = const_of(p)
    if c is not None:
        return bconst(c <= 0)
    f = found(p)
    if f is not None:
        return f[1] if f[0] == 1 else TRUE
    if nonneg(neg(p)):
        return TRUE
    if INF_A is not None and len(p.args) >= 1:
        for m, c in p.args:
            if len(m) == 1 and m[0][0] is INF_A:
                return bconst(c < 0)
    if is_int(p):
        k0 = 0
        g = 0
        for m, c in p.args:
            if m == ():
                k0 = c
            else:
                g = math.gcd(g, abs(c))
        if nonneg(p) and k0 >= 1:
            return FALSE
        # sum g*x + k0 <= 0  <=>  sum x <= floor(-k0/g)
        q = {m: c // g for m, c in p.args if m != ()}
        q[()] = -((-k0) // g)
        return mk('le0', _rawpoly(q))
    # strip positive monomial factors (denominators)
    p = strip_pos(p)
    c, q = lead_split(p)
    return mk('le0', q if c > 0 else neg(q))


def lt0(p):
    c = const_of(p)
    if c is not None:
        return bconst(c < 0)
    f = found(p)
    if f is not None:
        return FALSE if f[0] == 1 else not_(f[1])
    if is_int(p):
        return le0(add(p, num(1)))
    if nonneg(p):
        return FALSE
    for m, c in p.args:
        if len(m) == 1 and m[0][0] is INF_A:
            return bconst(c < 0)
    p = strip_pos(p)
    c, q = lead_split(p)
    return mk('lt0', q if c > 0 else neg(q))


def strip_pos(p):
    return p


def eq0(p):
    c = const_of(p)
    if c is not None:
        return bconst(c == 0)
    f = found(p)
    if f is not None:
        return f[1]
    for m, c in p.args:
        if len(m) == 1 and m[0][0] is INF_A and len(p.args) > 1:
            return FALSE
    if is_int(p):
        g = 0
        for m, c in p.args:
            if m != ():
                g = math.gcd(g, abs(c))
        k0 = dict(p.args).get((), 0)
        if k0 % g:
            return FALSE
        if k0 > 0 and nonneg(p):
            return FALSE
        if k0 < 0 and nonneg(neg(p)):
            return FALSE
        p = _rawpoly({m: c // g for m, c in p.args})
    else:
        a = len(p.args) == 1
        if a:
            m, c = p.args[0]
            if len(m) == 1 and m[0][0].op == 'abs':
                return eq0(m[0][0].args[0])
    c, q = lead_split(p)
    if is_int(p):
        return mk('eq0', p if c > 0 else neg(p))
    return mk('eq0', q)


def not_(c):
    o = c.op
    if o == 'true':
        return FALSE
    if o == 'false':
        return TRUE
    if o == 'le0':
        return lt0(neg(c.args[0]))
    if o == 'lt0':
        return le0(neg(c.args[0]))
    if o == 'and':
        return or_(*[not_(x) for x in c.args])
    if o == 'or':
        return and_(*[not_(x) for x in c.args])
    if o == 'not':
        return c.args[0]
    return mk('not', c)


def _nary(op, unit, zero, xs):
    s = {}
    for x in xs:
        if x is zero:
            return zero
        if x is unit:
            continue
        if x.op == op:
            for y in x.args:
                s[y.id] = y
        else:
            s[x.id] = x
    vals = list(s.values())
    for x in vals:
        if not_(x).id in s:
            return zero
    # absorption: a & (a | b) -> a ; a & (~a | b) -> a & b
    dual = 'or' if op == 'and' else 'and'
    changed = False
    out = []
    for x in vals:
        if x.op == dual:
            if any(y.id in s for y in x.args):
                changed = True
                continue
            rest = [y for y in x.args if not_(y).id not in s]
            if len(rest) != len(x.args):
                changed = True
                out.append(_nary(dual, zero, unit, rest))
                continue
        out.append(x)
    if changed:
        return _nary(op, unit, zero, out)
    # weaker linear bounds: p+c1<=0 and p+c2<=0
    if len(vals) > 1:
        best = {}
        drop = set()
        for x in vals:
            if x.op in ('le0', 'lt0'):
                p = x.args[0]
                k0 = dict(p.args).get((), 0)
                base = (x.op, tuple(mc for mc in p.args if mc[0] != ()))
                if base in best:
                    o = best[base]
                    ok0 = o[0]
                    tighter = k0 > ok0
                    if op == 'or':
                        tighter = not tighter
                    if tighter:
                        drop.add(o[1].id)
                        best[base] = (k0, x)
                    else:
                        drop.add(x.id)
                else:
                    best[base] = (k0, x)
        if drop:
            vals = [x for x in vals if x.id not in drop]
    if not vals:
        return unit
    if len(vals) == 1:
        return vals[0]
    vals.sort(key=lambda x: x.id)
    return mk(op, *vals)


def and_(*xs):
    return _nary('and', TRUE, FALSE, xs)


def or_(*xs):
    return _nary('or', FALSE, TRUE, xs)


def implies(a, b):
    return or_(not_(a), b)


def is_bool(t):
    return t.op in ('true', 'false', 'le0', 'lt0', 'eq0', 'and', 'or', 'not', 'bsym', 'none', 'isalt',
                    'bobj', 'ueq', 'bite', 'bget', 'buf', 'bfold') or (
        t.op == 'phi' and t.args[1] == 'bool') or (t.op == 'bph' and t.args[2] == 'bool')


# ------------------------------------------------------------------ gating
def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if is_bool(a) and is_bool(b):
        return or_(and_(c, a), and_(not_(c), b))
    if a.op == 'poly' and b.op == 'poly':
        # canonical polarity
        nc = not_(c)
        if nc.id < c.id and nc.op != 'not':
            return _ite_num(nc, b, a)
        return _ite_num(c, a, b)
    if a.op == 'rec' and b.op == 'rec' and a.args[0] == b.args[0] and a.args[1] == b.args[1]:
        return mk('rec', a.args[0], a.args[1],
                  *[ite(c, x, y) for x, y in zip(a.args[2:], b.args[2:])])
    if is_seq(a) and is_seq(b):
        return seq_ite(c, a, b)
    nc = not_(c)
    if nc.id < c.id and nc.op != 'not':
        return mk('ite', nc, b, a)
    return mk('ite', c, a, b)


def cofactor(t, c, val):
    """Simplify ite's on exactly the condition c inside t (one level deep)."""
    a = single_atom(t) if t.op == 'poly' else (t if t.op == 'ite' else None)
    if a is not None and a.op == 'ite':
        if a.args[0] is c:
            return a.args[1] if val else a.args[2]
        if a.args[0] is not_(c):
            return a.args[2] if val else a.args[1]
    return t


def _ite_num(c, a, b):
    a = cofactor(a, c, True)
    b = cofactor(b, c, False)
    if a is b:
        return a
    if c.op == 'eq0':
        # ite(x == 0, b[x:=0], b) -> b is handled by random interpretation only
        pass
    # min/max written with a comparison
    if c.op in ('le0', 'lt0'):
        p = c.args[0]
        k = proportional(dict(p.args), dict(sub(a, b).args)) if a is not b else None
        if k is not None:
            return minmax('min' if k > 0 else 'max', [a, b])
    return atom(mk('ite', c, a, b))


# ------------------------------------------------------------------ sequences
def is_seq(t):
    return t.op in ('seq', 'upd', 'updfor', 'seqite')


EMPTY = mk('seq')


def seq(*segs):
    return mk('seq', *segs)


def elem(v):
    return mk('elem', v)


def opq(o):
    return mk('opq', o)


def cat(*ss):
    out = []
    for s in ss:
        if s.op == 'seq':
            out.extend(s.args)
        else:
            out.append(mk('sub', s))
    return mk('seq', *out)


def segs_of(s):
    if s.op == 'seq':
        return s.args
    return (mk('sub', s),)


def mksegs(segs):
    """Flatten trivial segments."""
    if len(segs) == 1 and segs[0].op == 'sub':
        return segs[0].args[0]
    return mk('seq', *segs)


def seq_ite(c, a, b):
    if a is b:
        return a
    sa, sb = segs_of(a), segs_of(b)
    n = 0
    while n < len(sa) and n < len(sb) and sa[n] is sb[n]:
        n += 1
    # common suffix
    m = 0
    while m < len(sa) - n and m < len(sb) - n and sa[len(sa) - 1 - m] is sb[len(sb) - 1 - m]:
        m += 1
    out = list(sa[:n])
    ra, rb = sa[n:len(sa) - m], sb[n:len(sb) - m]
    # single elements on both sides: gate the element
    if len(ra) == 1 and len(rb) == 1 and ra[0].op == 'elem' and rb[0].op == 'elem':
        out.append(elem(ite(c, ra[0].args[0], rb[0].args[0])))
    else:
        if ra:
            out.extend(ifseg(c, mksegs(ra)).args)
        if rb:
            out.extend(ifseg(not_(c), mksegs(rb)).args)
    out.extend(sa[len(sa) - m:])
    return mksegs(out)


def ifseg(c, s):
    """Sequence that is s when c holds and empty otherwise."""
    if c is FALSE or s is EMPTY:
        return EMPTY
    if c is TRUE:
        return s if s.op == 'seq' else mk('seq', mk('sub', s))
    if s.op == 'seq' and len(s.args) == 1 and s.args[0].op == 'if':
        i = s.args[0]
        return ifseg(and_(c, i.args[0]), i.args[1])
    if s.op == 'seq' and all(g.op == 'for' and is_int(g.args[1]) and le0(g.args[1]) is not_(c) for g in s.args):
        return s                      # without c it is empty anyway
    return mk('seq', mk('if', c, s))


def close(body, var, h=None):
    """Replace var by a canonical binder; returns (height, body)."""
    hh = (maxh(body) if h is None else h) + 1
    return hh, subst(body, {var: atom(mk('bnd', hh)) if True else None})


def maxh(t):
    return t.h if isinstance(t, T) else 0


def open_(node, i):
    """Body of binder node (args index i) with a fresh variable: (var, body)."""
    v = fresh_bv()
    b = mk('bnd', node.args[0])
    return v, subst(node.args[i], {b: atom(v)})


def inst(node, i, value):
    return subst(node.args[i], {mk('bnd', node.args[0]): value})


def forseq(count, var, body):
    """[body(var) for var in 0..count)"""
    if body is EMPTY:
        return EMPTY
    c = const_of(count)
    if c is not None:
        if c <= 0:
            return EMPTY
        if c <= 6:
            return cat(*[subst(body, {var: num(i)}) for i in range(int(c))])
    if nonneg(neg(count)):
        return EMPTY
    # eta: copying an opaque sequence element by element
    if body.op == 'seq' and len(body.args) == 1 and body.args[0].op == 'elem':
        r = raw_of(body.args[0].args[0])
        if r is not None and r.op == 'obj' and r.args[0] == 'get' and \
                r.args[2] is atom(var) and var not in r.args[1].fv and \
                count is length(seq(opq(r.args[1]))):
            return seq(opq(r.args[1]))
    # a guard on the binder that only bounds it from above is left to normalisation
    hh, b = close(body, var)
    return mk('seq', mk('for', hh, count, b))


def raw_of(v):
    """The opaque object a (possibly expanded) value stands for, if any."""
    if v.op == 'obj':
        return v
    if v.op == 'poly':
        a = single_atom(v)
        if a is not None and a.op == 'obj':
            return mk('obj', *a.args[:-1], None) if a.args[-1] is not None else a
        return None
    if v.op == 'bobj':
        return mk('obj', *v.args, None)
    if v.op == 'seq':
        if len(v.args) == 1 and v.args[0].op == 'opq':
            return v.args[0].args[0]
        return None
    if v.op == 'rec':
        base = None
        names = v.args[1]
        if not names:
            return None
        for n, x in zip(names, v.args[2:]):
            r = raw_of(x)
            if r is None or r.args[0] != 'fld' or r.args[2] != n:
                return None
            if base is None:
                base = r.args[1]
            elif base is not r.args[1]:
                return None
        return base
    return None


# opaque objects: mk('obj', 'sym', name, kind) / ('obj','fld', base, field, kind) /
# ('obj','get', seqobj, idx, kind).  kind is None for aggregates and the numeric
# kind ('real','nat','int','pos') where the object is a number.
def osym(name):
    return mk('obj', 'sym', name, None)


def ofld(o, f, kind=None):
    return mk('obj', 'fld', o, f, kind)


def oget(o, i, kind=None):
    return mk('obj', 'get', o, i, kind)


LEN_OVERRIDE = {}


def olen(o):
    r = LEN_OVERRIDE.get(o)
    if r is not None:
        return r
    for f in LEN_RULES:
        r = f(o)
        if r is not None:
            return r
    return atom(mk('len', o))


LEN_RULES = []


def seglen(g):
    if g.op == 'elem':
        return num(1)
    if g.op == 'opq':
        return olen(g.args[0])
    if g.op == 'if':
        return ite(g.args[0], length(g.args[1]), num(0))
    if g.op == 'for':
        v, b = open_(g, 2)
        return sum_(g.args[1], v, length(b))
    if g.op == 'sub':
        return length(g.args[0])
    raise TypeError(g.op)


_lenmemo = {}


def length(s):
    if s.op == 'upd':
        return length(s.args[0])
    if s.op == 'updfor':
        return length(s.args[1])
    if s.op == 'ite':
        return ite(s.args[0], length(s.args[1]), length(s.args[2]))
    if s.op != 'seq':
        return atom(mk('len', s))
    r = num(0)
    gs = s.args
    i = 0
    while i < len(gs):
        g = gs[i]
        if g.op == 'if' and i + 1 < len(gs) and gs[i + 1].op == 'if' and not_(g.args[0]) is gs[i + 1].args[0]:
            r = add(r, ite(g.args[0], length(g.args[1]), length(gs[i + 1].args[1])))
            i += 2
            continue
        r = add(r, seglen(g))
        i += 1
    return r


def pos(n):
    if nonneg(n):
        return n
    return minmax('max', [num(0), n])


def sum_(count, var, body):
    """Sum of body(var) for var in 0..count)."""
    c = const_of(count)
    if c is not None:
        if c <= 0:
            return num(0)
        if c <= 8:
            r = num(0)
            for i in range(int(c)):
                r = add(r, subst(body, {var: num(i)}))
            return r
    if var not in body.fv:
        return mul(body, pos(count))
    # peel a positive constant off the count: sum_{k<n+c} = sum_{k<n} + f(n) + ...
    if is_int(count):
        k0 = dict(count.args).get((), 0)
        if k0 > 0:
            n = sub(count, num(k0))
            if nonneg(n) and k0 <= 8:
                r = sum_(n, var, body)
                for i in range(int(k0)):
                    r = add(r, subst(body, {var: add(n, num(i))}))
                return r
    r = num(0)
    va = atom(var)
    for m, c in body.args:
        out = tuple((a, e) for a, e in m if var not in a.fv)
        inn = tuple((a, e) for a, e in m if var in a.fv)
        f = _rawpoly({out: c})
        if not inn:
            r = add(r, mul(f, pos(count)))
        elif inn == ((var, 1),) and nonneg(count):
            r = add(r, mul(f, mul(mul(count, sub(count, num(1))), num(Fraction(1, 2)))))
        else:
            b = _rawpoly({inn: 1})
            hh, cb = close(b, var)
            r = add(r, mul(f, atom(mk('sum', hh, count, cb))))
    return r


def none_(count, var, cond):
    """for all var in 0..count): not cond"""
    if cond is FALSE:
        return TRUE
    c = const_of(count)
    if c is not None and c <= 0:
        return TRUE
    if var not in cond.fv:
        return or_(not_(cond), le0(count))
    hh, b = close(cond, var)
    return mk('none', hh, count, b)


def first_(count, var, cond):
    """Least var in 0..count) with cond, or max(count,0) if there is none."""
    if cond is FALSE:
        return pos(count)
    if cond is TRUE:
        return num(0)
    hh, b = close(cond, var)
    return atom(mk('first', hh, count, b))


# ---- indexing --------------------------------------------------------------
# Prover hook: decides comparisons under the current path facts.
class Facts:
    cur = ()


def decide(c):
    """TRUE/FALSE if the current facts settle c, else c."""
    if c is TRUE or c is FALSE:
        return c
    from prover import simp
    return simp(c, Facts.cur)


def get(s, i, wrap=None, kind=None):
    """s[i]; wrap turns a raw opaque element into a typed value."""
    w = wrap or (lambda o: o)
    if s.op == 'upd':
        c = decide(eq0(sub(s.args[1], i)))
        if c is TRUE:
            return s.args[2]
        if c is FALSE:
            return get(s.args[0], i, wrap, kind)
        return ite(c, s.args[2], get(s.args[0], i, wrap, kind))
    if s.op == 'updfor':
        hh, base, cnt, idx, val = s.args
        b = mk('bnd', hh)
        j = solve_for(idx, b, i)
        if j is None:
            return w(mk('obj', 'get', mk('seqobj', s), i, kind))
        c = decide(and_(le0(neg(j)), lt0(sub(j, cnt))))
        if c is FALSE:
            return get(base, i, wrap, kind)
        v = subst(val, {b: j})
        if c is TRUE:
            return v
        return ite(c, v, get(base, i, wrap, kind))
    if s.op == 'ite':
        return ite(s.args[0], get(s.args[1], i, wrap, kind), get(s.args[2], i, wrap, kind))
    if s.op != 'seq':
        return w(mk('obj', 'get', s, i, kind))
    segs = s.args
    ci, over = const_of(i), const_of(sub(i, length(s)))
    if segs and ((ci is not None and ci < 0) or (over is not None and over >= 0)):
        return w(mk('obj', 'get', EMPTY, i, None))          # outside
    if len(segs) == 1 and segs[0].op == 'opq':
        return w(oget(segs[0].args[0], i, None))
    if len(segs) == 1 and segs[0].op == 'sub':
        return get(segs[0].args[0], i, wrap, kind)
    if len(segs) == 1 and segs[0].op == 'for':
        f = segs[0]
        if f.args[2].op == 'seq' and len(f.args[2].args) == 1 and f.args[2].args[0].op == 'elem':
            return inst(f, 2, i).args[0].args[0]
    if len(segs) == 2 and segs[0].op == 'if' and segs[1].op == 'if' and not_(segs[0].args[0]) is segs[1].args[0]:
        c = decide(segs[0].args[0])
        if c is TRUE or c is FALSE:
            return get(segs[0 if c is TRUE else 1].args[1], i, wrap, kind)
        return ite(c, get(segs[0].args[1], i, wrap, kind), get(segs[1].args[1], i, wrap, kind))
    # general concatenation: find the segment
    off = num(0)
    cases = []
    for n, g in enumerate(segs):
        ln = seglen(g)
        end = add(off, ln)
        last = n == len(segs) - 1
        here = TRUE if last else decide(lt0(sub(i, end)))
        if here is FALSE:
            off = end
            continue
        rel = sub(i, off)
        if g.op == 'elem':
            v = g.args[0]
        elif g.op == 'opq':
            v = w(oget(g.args[0], rel, None))
        elif g.op == 'sub':
            v = get(g.args[0], rel, wrap, kind)
        elif g.op == 'for' and g.args[2].op == 'seq' and len(g.args[2].args) == 1 and \
                g.args[2].args[0].op == 'elem':
            v = inst(g, 2, rel).args[0].args[0]
        elif g.op == 'if':
            v = get(g.args[1], rel, wrap, kind)
        else:
            v = w(mk('obj', 'get', mk('seqobj', mk('seq', g)), rel, None))
        cases.append((here, v))
        if here is TRUE:
            break
        off = end
    if not cases:
        return w(mk('obj', 'get', mk('seqobj', s), i, None))
    r = cases[-1][1]
    for c, v in reversed(cases[:-1]):
        r = ite(c, v, r)
    return r


def solve_for(expr, var, target):
    """expr(var) == target solved for var, when expr is var + (rest)."""
    co = 0
    rest = {}
    for m, c in expr.args:
        if m == ((var, 1),):
            co = c
        elif any(var in a.fv for a, e in m):
            return None
        else:
            rest[m] = c
    if co not in (1, -1):
        return None
    d = sub(target, _rawpoly(rest))
    return d if co == 1 else neg(d)


def update(s, i, v):
    """s with s[i] replaced by v."""
    if s.op == 'seq':
        ci = const_of(i)
        off = num(0)
        for n, g in enumerate(s.args):
            ln = seglen(g)
            if g.op == 'elem':
                c = decide(eq0(sub(i, off)))
                if c is TRUE:
                    return mk('seq', *s.args[:n], elem(v), *s.args[n + 1:])
                if c is not FALSE:
                    break
            else:
                c = decide(lt0(sub(i, add(off, ln))))
                if c is not FALSE:
                    break
            off = add(off, ln)
    if s.op == 'upd' and s.args[1] is i:
        return update(s.args[0], i, v)
    if raw_of(v) is not None:
        r = raw_of(v)
        if r.args[0] == 'get' and s.op == 'seq' and len(s.args) == 1 and s.args[0].op == 'opq' \
                and s.args[0].args[0] is r.args[1] and r.args[2] is i:
            return s
    return mk('upd', s, i, v)


def slice_tail(s, n):
    """s without its first n elements, for constant small n when possible."""
    c = const_of(n)
    if c == 0:
        return s
    if s.op == 'seq' and c is not None:
        k = int(c)
        segs = list(s.args)
        while k and segs and segs[0].op == 'elem':
            segs.pop(0)
            k -= 1
        if k == 0:
            return mk('seq', *segs)
        if segs and segs[0].op == 'for':
            pass
    return None


# ---- substitution -----------------------------------------------------------
def subst(t, m):
    """Simultaneous substitution; keys are variable-like atoms (or any atom),
    values are terms (polynomials for numeric atoms)."""
    keys = frozenset(k for k in m)
    memo = {}
    return _subst(t, m, keys, memo)


def _subst(t, m, keys, memo):
    if not t.fv:
        return t
    if t.fv.isdisjoint(keys):
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    r = _subst1(t, m, keys, memo)
    memo[t.id] = r
    return r


def _subst1(t, m, keys, memo):
    o = t.op
    S = lambda x: _subst(x, m, keys, memo)
    if t in m:
        return m[t]
    if o == 'poly':
        keep = {}
        acc = None
        for mono, c in t.args:
            hit = False
            for a, e in mono:
                if a.fv and not a.fv.isdisjoint(keys):
                    hit = True
                    break
            if not hit:
                keep[mono] = c
                continue
            p = num(c)
            for a, e in mono:
                if a.fv and not a.fv.isdisjoint(keys):
                    v = S(a)
                    if v.op != 'poly':
                        v = atom(v)
                    p = mul(p, powi(v, e))
                else:
                    p = mul(p, _rawpoly({((a, e),): 1}))
            acc = p if acc is None else add(acc, p)
        k = _rawpoly(keep)
        return k if acc is None else add(k, acc)
    if o in VARLIKE:
        return m.get(t, t)
    if o in BINDERS:
        return subst_binder(t, m)
    args = []
    for a in t.args:
        if isinstance(a, T):
            args.append(S(a))
        elif isinstance(a, tuple):
            args.append(tuple(S(b) if isinstance(b, T) else b for b in a))
        else:
            args.append(a)
    return rebuild(o, args)


def subst_binder(t, m):
    h = t.args[0]
    o = t.op
    b = mk('bnd', h)
    # rename the binder apart, substitute, and close again
    v = fresh_bv()
    m2 = {k: x for k, x in m.items() if k is not b}
    m2[b] = atom(v)
    if o == 'fold':
        _, cnt, inits, bodies, kind, sel = t.args
        phs = {}
        news = []
        for i, kd in enumerate(kind_list(t)):
            p = fresh_phi(kd)
            news.append(p)
            phs[mk('bph', h, kd, i)] = p if kd in ('obj', 'bool') else atom(p)
        m3 = dict(m2)
        for k0, x in phs.items():
            m3[mk_bph(h, k0)] = x
        return fold_(subst(cnt, m), v, [subst(x, m) for x in inits], news,
                     [subst(x, m3) for x in bodies], sel)
    if o == 'sum':
        return sum_(subst(t.args[1], m), v, subst(t.args[2], m2))
    if o == 'for':
        r = forseq(subst(t.args[1], m), v, subst(t.args[2], m2))
        # 'for' occurs only as a segment: the caller (a 'seq') splices
        return r
    if o == 'none':
        return none_(subst(t.args[1], m), v, subst(t.args[2], m2))
    if o == 'first':
        return first_(subst(t.args[1], m), v, subst(t.args[2], m2))
    if o == 'updfor':
        _, base, cnt, idx, val = t.args
        return updfor(subst(base, m), subst(cnt, m), v, subst(idx, m2), subst(val, m2))
    if o in ('minred', 'maxred'):
        _, cnt, init, items = t.args[0], t.args[1], t.args[2], t.args[3:]
        return minred(o, subst(cnt, m), v, subst(init, m),
                      [(subst(g.args[0], m2), subst(g.args[1], m2)) for g in items])
    raise TypeError(o)


def mk_bph(h, k0):
    return k0


def kind_list(t):
    """kinds of the state components of a fold node"""
    return t.args[4][1]


def updfor(base, cnt, var, idx, val):
    c = const_of(cnt)
    if c is not None and c <= 0:
        return base
    if c is not None and c <= 6:
        r = base
        for i in range(int(c)):
            r = update(r, subst(idx, {var: num(i)}), subst(val, {var: num(i)}))
        return r
    hh = max(idx.h, val.h) + 1
    b = atom(mk('bnd', hh))
    ci, cv = subst(idx, {var: b}), subst(val, {var: b})
    # every position is overwritten: this is a comprehension
    if idx is atom(var) and cnt is length(base) and not mentions(val, base):
        return forseq(cnt, var, seq(elem(val)))
    return mk('updfor', hh, base, cnt, ci, cv)


def mentions(t, s):
    """Does t contain the (sub)term s?"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x is s:
            return True
        if x.id in seen:
            continue
        seen.add(x.id)
        for a in subterms(x):
            st.append(a)
    return False


def subterms(x):
    if x.op == 'poly':
        for mono, c in x.args:
            for a, e in mono:
                yield a
    else:
        for a in x.args:
            if isinstance(a, T):
                yield a
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T):
                        yield b


def minred(op, cnt, var, init, items):
    """min (max) of init and of e(var) over var in 0..cnt) with g(var)."""
    c = const_of(cnt)
    if c is not None and c <= 0:
        return init
    items = [(g, e) for g, e in items if g is not FALSE]
    if not items:
        return init
    h = 0
    for g, e in items:
        h = max(h, g.h, e.h)
    hh = h + 1
    b = atom(mk('bnd', hh))
    cl = sorted(set(mk('pair', subst(g, {var: b}), subst(e, {var: b})) for g, e in items),
                key=lambda x: x.id)
    return atom(mk(op, hh, cnt, init, *cl))


def fold_(cnt, var, inits, phis, bodies, sel):
    """Component sel of iterating state <- bodies(state, var) cnt times."""
    c = const_of(cnt)
    if c is not None and c <= 0:
        return inits[sel]
    # keep only what the selected component depends on
    need = {sel}
    while True:
        add_ = set()
        for i in need:
            for j, p in enumerate(phis):
                if j not in need and p in bodies[i].fv:
                    add_.add(j)
        if not add_:
            break
        need |= add_
    idx = sorted(need)
    inits = [inits[i] for i in idx]
    phis = [phis[i] for i in idx]
    bodies = [bodies[i] for i in idx]
    sel = idx.index(sel)
    h = 0
    for b in bodies:
        h = max(h, b.h)
    hh = h + 1
    m = {var: atom(mk('bnd', hh))}
    kinds = []
    for i, p in enumerate(phis):
        kd = p.args[1]
        kinds.append(kd)
        ph = mk('bph', hh, kd, i)
        m[p] = ph
    bodies = tuple(subst_phi(b, m) for b in bodies)
    k = kinds[sel]
    t = mk('fold', hh, cnt, tuple(inits), bodies, (k, tuple(kinds)), sel)
    if k in ('nat', 'int', 'real', 'pos'):
        return atom(t)
    if k == 'bool':
        return mk('bfold', t)
    return t


def subst_phi(t, m):
    m2 = {}
    for k, v in m.items():
        if v.op == 'bph' and v.args[1] in ('nat', 'int', 'real', 'pos'):
            v = atom(v)
        m2[k] = v
    return subst(t, m2)


def rebuild(o, args):
    """Re-run the smart constructor of a node."""
    a = args
    if o == 'inv':
        return inv(a[0])
    if o in ('sign',):
        return sign(a[0])
    if o == 'abs':
        return absv(a[0])
    if o == 'sqrt':
        return sqrt(a[0])
    if o == 'cos':
        return cos(a[0])
    if o == 'sin':
        return sin(a[0])
    if o in ('min', 'max'):
        return minmax(o, a)
    if o in ('trunc', 'floor', 'ceil', 'round', 'pow', 'idiv', 'imod', 'wrap', 'narrow', 'fl32', 'atan2', 'tan', 'exp',
             'log', 'acos', 'asin', 'atan'):
        return fn(o, *a)
    if o == 'paren':
        if len(a[0].args) < 200:
            return a[0]
        return mk(o, *a)
    if o == 'ite':
        return ite(*a)
    if o == 'le0':
        return le0(a[0])
    if o == 'lt0':
        return lt0(a[0])
    if o == 'eq0':
        return eq0(a[0])
    if o == 'and':
        return and_(*a)
    if o == 'or':
        return or_(*a)
    if o == 'not':
        return not_(a[0])
    if o == 'seq':
        out = []
        for g in a:
            if g.op == 'seq':
                out.extend(g.args)
            elif g.op == 'sub' and g.args[0].op == 'seq':
                out.extend(g.args[0].args)
            else:
                out.append(g)
        return mk('seq', *out)
    if o == 'if':
        return ifseg(a[0], a[1])
    if o == 'opq':
        if is_seq(a[0]):
            return a[0] if a[0].op == 'seq' else mk('seq', mk('sub', a[0]))
        return mk('opq', a[0])
    if o == 'sub':
        if a[0].op == 'seq':
            return a[0]
        if a[0].op == 'ite':
            return mk('seq', mk('sub', a[0]))
        return mk('sub', a[0])
    if o == 'upd':
        return update(a[0], a[1], a[2])
    if o == 'len':
        if is_seq(a[0]):
            return length(a[0])
        if a[0].op == 'seqobj':
            return length(a[0].args[0])
        return olen(a[0])
    if o == 'obj':
        return rebuild_obj(a)
    if o == 'bobj':
        x = rebuild_obj(list(a) + ['bool'])
        return x
    if o == 'seqobj':
        return mk('seqobj', a[0])
    if o == 'rel':
        return rel(a[0], a[1])
    if o == 'dv':
        return atom(mk('dv', *a))
    return mk(o, *a)


def rebuild_obj(a):
    """An opaque projection whose base was replaced by a value."""
    kind = a[-1]
    if a[0] in ('fld', 'get'):
        b = a[1]
        if b.op not in ('obj', 'phi', 'bph', 'ite', 'seqobj', 'payload', 'fold', 'uf'):
            if a[0] == 'fld' and b.op == 'rec':
                return b.args[2 + b.args[1].index(a[2])]
            if a[0] == 'fld' and is_seq(b) and a[2] == '#':
                return b
            if a[0] == 'get' and is_seq(b):
                return get(b, a[2], wrap=lambda o: as_kind(o, kind))
        if b.op == 'seqobj':
            return get(b.args[0], a[2], wrap=lambda o: as_kind(o, kind)) if b.args[0].op == 'seq' and \
                not (len(b.args[0].args) == 1 and b.args[0].args[0].op == 'for') else \
                as_kind(mk('obj', *a[:-1], None), kind)
        if b.op == 'ite':
            x = rebuild_obj([a[0], b.args[1]] + list(a[2:]))
            y = rebuild_obj([a[0], b.args[2]] + list(a[2:]))
            return ite(b.args[0], x, y)
    return as_kind(mk('obj', *a[:-1], None), kind)


def as_kind(o, kind):
    if not isinstance(o, T) or o.op != 'obj':
        return o
    if kind in ('real', 'nat', 'int', 'pos'):
        return atom(mk('obj', *o.args[:-1], kind))
    if kind == 'bool':
        return mk('bobj', *o.args[:-1])
    return o


def rel(op, p):
    """A relation p == 0 or p >= 0 handed to the solver, up to scaling."""
    c = const_of(p)
    if c is None:
        if op == '==':
            c0, q = lead_split(p)
            p = q
        else:
            c0, q = lead_split(p)
            p = q if c0 > 0 else neg(q)
    return mk('rel', op, p)


INF_A = None
INF_A = mk('inf')
INF = atom(INF_A)
PI = atom(mk('pi'))


# ---- printing ---------------------------------------------------------------
def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 14:
        return '...'
    S = lambda x: show(x, d + 1)
    o = t.op
    if o == 'poly':
        if not t.args:
            return '0'
        out = []
        for n, (m, c) in enumerate(t.args):
            if n > 12:
                out.append(' + ...(%d terms)' % len(t.args))
                break
            ms = '*'.join(S(a) + ('^%d' % e if e != 1 else '') for a, e in m)
            if not m:
                s = str(c)
            elif c == 1:
                s = ms
            elif c == -1:
                s = '-' + ms
            else:
                s = '%s*%s' % (c, ms)
            out.append((' + ' if n and not s.startswith('-') else ' ' if n else '') + s)
        return '(' + ''.join(out) + ')' if len(t.args) > 1 else ''.join(out)
    if o == 'sym':
        return str(t.args[0])
    if o == 'bv':
        return 'k%d' % t.args[0]
    if o == 'bnd':
        return 'i%d' % t.args[0]
    if o == 'phi':
        return 'phi%d' % t.args[0]
    if o == 'bph':
        return 'st%d.%d' % (t.args[0], t.args[2])
    if o == 'obj':
        if t.args[0] == 'sym':
            return str(t.args[1])
        if t.args[0] == 'fld':
            return '%s.%s' % (S(t.args[1]), t.args[2])
        return '%s[%s]' % (S(t.args[1]), S(t.args[2]))
    if o == 'le0':
        return '%s<=0' % S(t.args[0])
    if o == 'lt0':
        return '%s<0' % S(t.args[0])
    if o == 'eq0':
        return '%s==0' % S(t.args[0])
    if o == 'and':
        return '(' + ' && '.join(S(x) for x in t.args) + ')'
    if o == 'or':
        return '(' + ' || '.join(S(x) for x in t.args) + ')'
    if o == 'not':
        return '!' + S(t.args[0])
    if o == 'ite':
        return '(%s ? %s : %s)' % tuple(S(x) for x in t.args)
    if o == 'len':
        return '|%s|' % S(t.args[0])
    if o == 'sum':
        return 'sum(i%d<%s: %s)' % (t.args[0], S(t.args[1]), S(t.args[2]))
    if o == 'seq':
        return '[' + ', '.join(S(x) for x in t.args) + ']'
    if o == 'elem':
        return S(t.args[0])
    if o == 'opq':
        return '*' + S(t.args[0])
    if o == 'for':
        return 'for i%d<%s: %s' % (t.args[0], S(t.args[1]), S(t.args[2]))
    if o == 'if':
        return 'if %s: %s' % (S(t.args[0]), S(t.args[1]))
    if o == 'rec':
        nm = t.args[0]
        nm = nm if isinstance(nm, str) else 'closure'
        return '%s{%s}' % (nm.split('::')[-1],
                           ', '.join('%s=%s' % (n, S(x)) for n, x in zip(t.args[1], t.args[2:])))
    if o == 'rel':
        return '%s %s 0' % (S(t.args[1]), t.args[0])
    if o == 'pi':
        return 'pi'
    if o in ('true', 'false', 'inf'):
        return o
    return '%s(%s)' % (o, ', '.join(S(x) if isinstance(x, T) else
                                    ('(' + ','.join(S(y) if isinstance(y, T) else str(y) for y in x) + ')'
                                     if isinstance(x, tuple) else str(x)) for x in t.args))
