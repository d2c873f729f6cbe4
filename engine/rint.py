"""Random interpretation of summary terms.

A summary and its specification are terms of the same language.  When their
canonical forms differ, both terms (never the program) are interpreted over
random small structures; only terms that really denote different values are
reported.  Equal interpretations leave the obligation undischarged, never
violated."""
import math
import random
import sys
import time
import zlib
from fractions import Fraction

import terms as t

sys.setrecursionlimit(100000)


class Poison(Exception):
    """The term reads outside a sequence or an undefined value."""


class Cannot(Exception):
    """The interpretation does not cover this term."""


class Slow(Exception):
    """The interpretation takes too long."""


class Ref:
    """An opaque object, named by its access path."""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return pstr(self.p)

    def __eq__(self, o):
        return isinstance(o, Ref) and o.p == self.p

    def __hash__(self):
        return hash(self.p)


class Rec:
    __slots__ = ('name', 'names', 'vals')

    def __init__(self, name, names, vals):
        self.name = name
        self.names = names
        self.vals = vals

    def field(self, n):
        return self.vals[self.names.index(n)]

    def __repr__(self):
        return '{%s}' % ', '.join('%s=%r' % x for x in zip(self.names, self.vals))


class Alt:
    __slots__ = ('i', 'v')

    def __init__(self, i, v):
        self.i = i
        self.v = v

    def __repr__(self):
        return 'alt%d(%r)' % (self.i, self.v)


class Ev:
    """An event: name, source location, arguments."""
    __slots__ = ('name', 'loc', 'args')

    def __init__(self, name, loc, args):
        self.name = name
        self.loc = loc
        self.args = args

    def __repr__(self):
        return '%s(%s)' % (self.name, ', '.join(map(repr, self.args)))


class Poly:
    """A real expression over decision variables, evaluated under several assignments."""
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = vals

    def __repr__(self):
        return 'expr%s' % (tuple(fmt(x) for x in self.vals),)


class Rel:
    __slots__ = ('op', 'vals')

    def __init__(self, op, vals):
        self.op = op
        self.vals = vals

    def __repr__(self):
        return 'rel(%s, %s)' % (self.op, tuple(fmt(x) for x in self.vals[:4]))


class Undef:
    def __repr__(self):
        return 'undefined'


UNDEF = Undef()


def fmt(x):
    if isinstance(x, Fraction):
        return str(x) if x.denominator < 1000 else '%.6g' % float(x)
    if isinstance(x, float):
        return '%.6g' % x
    return repr(x)


def pstr(p):
    if not isinstance(p, tuple):
        return str(p)
    if p and p[0] in ('uf', 'val', 'dv'):
        return '%s(%s)' % (p[0], ', '.join(pstr(x) for x in p[1:]))
    out = ''
    for x in p:
        if isinstance(x, int):
            out += '[%d]' % x
        elif isinstance(x, tuple):
            out += pstr(x)
        else:
            out += ('.' if out else '') + str(x)
    return out


class Var(Fraction):
    """The value of a decision variable, which remembers whose value it is.
    Arithmetic on it gives plain numbers."""
    __slots__ = ('tok',)


def var(tok, v):
    r = Fraction.__new__(Var, v)
    r.tok = tok
    return r


NUMK = ('real', 'nat', 'int', 'pos')


NATS = ([0, 0, 1, 1, 2, 2, 3, 4], [0, 1, 1, 2, 2, 3, 3, 4, 5], [1, 2, 3, 4, 5, 6, 7, 8, 9, 11])


class Model:
    """One random structure.  fix(path, kind) may pin a number, flen(path) a length,
    falt(path) the active alternative; `vars` are roots standing for decision variables."""

    def __init__(self, seed, fix=None, flen=None, falt=None, vars=(), nalt=10, K=4, role=None, maxlen=3, consts=((), ()),
                 seen=None, big=None, until=None):
        self.seed = seed
        self.big = big                # ('len' or 'nat', value): one length or count is that large
        self.until = until
        self.steps = 0
        self.fix = fix
        self.flen = flen
        self.falt = falt
        self.vars = set(vars)
        self.nalt = nalt
        self.K = K
        self.role = role or {}
        self.maxlen = maxlen
        self.profile = random.Random(seed).randrange(3)      # of sizes
        # structures in which many numbers coincide
        q = random.Random(seed * 11 + 5)
        self.few = q.random() < 0.2 and [Fraction(q.randint(-3000, 3000), 997) for _ in range(q.randint(1, 3))] + \
            q.choice([[], [Fraction(0)]])
        # of numbers that count something
        self.counts = random.Random(seed * 7 + 3).randrange(3 if maxlen > 3 or not vars else 2)
        self.consts = consts          # lengths and numbers the guards compare with
        self.seen = seen              # guards and the ways they went
        self.long = 0
        self.memo = {}
        self.nmemo = {}
        self.lens = {}
        self.nums = {}
        self.k = 0
        self.keep = []                # values whose identity is part of a key
        self.poisoned = 0

    def rnd(self, *key):
        return random.Random(zlib.crc32(repr((self.seed,) + key).encode()))

    # ---- leaves
    def number(self, path, kind):
        key = (path, kind if kind not in ('pos',) else 'real')
        if self.isvar(path):
            key = key + (self.k,)
        v = self.nums.get(key)
        if v is not None:
            return v
        v = None
        if self.fix is not None and not self.isvar(path):
            v = self.fix(self, path, kind)
        if self.big and self.big[0] == 'nat' and kind == 'nat' and not self.isvar(path) and \
                self.rnd('big', *key).random() < 0.4:
            v = Fraction(self.big[1])
            self.big = None
        if v is None:
            r = self.rnd('num', *key)
            if kind == 'nat':
                v = Fraction(r.choice(NATS[self.counts]))
                if self.consts[1] and r.random() < 0.15:
                    c = r.choice(self.consts[1])
                    if c.denominator == 1 and 0 <= c <= 64:
                        v = c
            elif kind == 'int':
                v = Fraction(r.randint(-3, 5))
                whole = [c for c in self.consts[1] if c.denominator == 1]
                if whole and r.random() < 0.4:
                    v = r.choice(whole) + r.choice([0, 0, 0, 1, -1])
            elif self.isvar(path):
                v = Fraction(r.randint(-4000, 4000), r.choice([997, 1009, 1000]))
            else:
                c = r.random()
                if self.few and c < 0.85:
                    v = r.choice(self.few)
                elif c < 0.12:
                    v = Fraction(0)
                elif c < 0.24 and self.consts[1]:
                    v = r.choice(self.consts[1]) + r.choice([0, 0, Fraction(1, 97), Fraction(-1, 97)])
                elif c < 0.36:
                    v = Fraction(r.randint(-4, 4), 2)
                elif c < 0.5:
                    v = Fraction(r.randint(-50000, 50000), 487)
                else:
                    v = Fraction(r.randint(-5000, 5000), 997)
                if kind == 'pos':
                    v = abs(v) + Fraction(1, 7)
        self.nums[key] = v
        return v

    def isvar(self, path):
        return isinstance(path, tuple) and len(path) > 0 and (path[0] in self.vars or path[0] == 'dv')

    def boolean(self, path):
        if self.fix is not None:
            v = self.fix(self, path, 'bool')
            if v is not None:
                return bool(v)
        return self.rnd('bool', path).random() < 0.5

    def length(self, path):
        n = self.lens.get(path)
        if n is None:
            n = self.flen(self, path) if self.flen else None
            if self.big and self.big[0] == 'len' and self.rnd('big', path).random() < 0.4:
                n = int(self.big[1])
                self.big = None
            r = self.rnd('long', path)
            if self.consts[0] and self.long < 2 and (n is None or n < 9) and r.random() < 0.2:
                n = max(0, r.choice(self.consts[0]) + r.choice([0, 1]))
                self.long += 1
            if n is None:
                r = self.rnd('len', path)
                m = self.maxlen
                if self.profile == 0:
                    n = r.choice([0, 1, 1, 2, 2, 3][:2 * m] + [k for k in range(4, m + 1) for _ in (0, 1)])
                elif self.profile == 1:
                    n = r.choice([m - 1, m, m, m + 1, m + 2])
                else:
                    n = r.randint(0, m + 1)
            self.lens[path] = n
        return n

    def alt(self, path):
        if self.falt:
            r = self.falt(self, path)
            if r is not None:
                return r
        return self.rnd('alt', path).randrange(self.nalt)

    # ---- evaluation
    def ev(self, x, env=None):
        env = env or {}
        if not x.fv:
            key = x.id
        else:
            try:
                key = (x.id,) + tuple(self.ekey(env[v]) for v in sorted(x.fv, key=lambda z: z.id))
            except KeyError as e:
                raise Cannot('free variable %s' % t.show(e.args[0]))
        memo = self.memo
        r = memo.get(key)
        if r is None:
            if self.until is not None:
                self.steps += 1
                if self.steps % 256 == 0 and time.time() > self.until:
                    raise Slow('interpretation')
            r = (self._ev(x, env),)
            memo[key] = r
        return r[0]

    def ekey(self, v):
        """The key of a bound value: numbers by value, what has structure by identity."""
        if type(v) is Fraction or type(v) is int:
            return v
        if isinstance(v, (list, Rec, Alt, Ev, Poly, Rel, Var)):
            self.keep.append(v)
            return ('id', id(v))
        return hkey(v)

    def num(self, x, env):
        """A number (structural: independent of decision variables)."""
        v = self.ev(x, env)
        if isinstance(v, bool):
            return Fraction(int(v))
        if isinstance(v, (int, Fraction, float)):
            return v
        if v is UNDEF:
            raise Poison('undefined number')
        if isinstance(v, Ref):
            return self.number(v.p, 'real')
        raise Cannot('number expected, got %r' % (v,))

    def idx(self, x, env):
        v = self.num(x, env)
        if isinstance(v, float):
            if v != v or v in (math.inf, -math.inf):
                return v
            return int(v) if v == int(v) else v
        if v.denominator != 1:
            raise Poison('fractional index')
        return int(v)

    def hasvar(self, x):
        """Does the term depend on decision variables?"""
        m = self.nmemo
        r = m.get(x.id)
        if r is None:
            r = False
            if x.op == 'dv':
                r = True
            elif x.op == 'obj' and x.args[0] == 'sym':
                r = x.args[1] in self.vars
            elif x.op in ('val', 'valof'):
                r = False
            elif x.op == 'bph':
                r = False
            elif x.op == 'len':
                r = False
            else:
                for s in t.subterms(x):
                    if self.hasvar(s):
                        r = True
                        break
            m[x.id] = r
        return r

    def expr(self, x, env):
        """Values of a real expression under the K assignments."""
        if not self.hasvar(x):
            v = self.num(x, env)
            return [v] * self.K
        out = []
        save = self.memo
        try:
            for k in range(self.K):
                self.k = k
                self.memo = self.kmemo(k)
                try:
                    out.append(self.num(x, env))
                except Poison:
                    out.append(math.nan)
        finally:
            self.k = 0
            self.memo = save
        return out

    def kmemo(self, k):
        m = getattr(self, '_km', None)
        if m is None:
            m = self._km = {}
        return m.setdefault(k, {})

    def cond(self, x, env):
        v = self.ev(x, env)
        if isinstance(v, bool):
            if self.seen is not None:
                self.seen.add((x.id, v))
            return v
        if isinstance(v, Ref):
            return self.boolean(v.p)
        if isinstance(v, (int, Fraction, float)):
            return v != 0
        raise Cannot('condition expected')

    def _ev(self, x, env):
        o = x.op
        m = getattr(self, 'o_' + o, None)
        if m is None:
            raise Cannot('operator %s' % o)
        return m(x, env)

    # numbers
    def o_poly(self, x, env):
        if len(x.args) == 1:
            m, c = x.args[0]
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                return self.ev(m[0][0], env)
        acc = Fraction(0)
        for m, c in x.args:
            r = Fraction(c) if not isinstance(c, float) else c
            for a, e in m:
                v = self.num(a, env)
                try:
                    r = r * (v ** e if e != 1 else v)
                except (ZeroDivisionError, OverflowError):
                    return math.nan
            acc = acc + r
        if isinstance(acc, Fraction) and acc.denominator.bit_length() > 400:
            acc = float(acc)
        return acc

    def o_inf(self, x, env):
        return math.inf

    def o_pi(self, x, env):
        return math.pi

    def o_inv(self, x, env):
        v = self.num(x.args[0], env)
        if v == 0:
            return math.nan
        return 1 / v

    def o_sym(self, x, env):
        return self.number((x.args[0],), x.args[1])

    def o_bnd(self, x, env):
        return env[x]

    o_bv = o_bnd
    o_phi = o_bnd
    o_bph = o_bnd

    def o_sqrt(self, x, env):
        v = self.num(x.args[0], env)
        if v < 0:
            if v > -1e-9:
                return 0.0
            return math.nan
        return math.sqrt(v)

    def f1(self, f, x, env):
        v = self.num(x.args[0], env)
        try:
            return f(v)
        except (ValueError, OverflowError):
            return math.nan

    def o_cos(self, x, env):
        return self.f1(math.cos, x, env)

    def o_sin(self, x, env):
        return self.f1(math.sin, x, env)

    def o_tan(self, x, env):
        return self.f1(math.tan, x, env)

    def o_exp(self, x, env):
        return self.f1(math.exp, x, env)

    def o_log(self, x, env):
        return self.f1(math.log, x, env)

    def o_acos(self, x, env):
        return self.f1(math.acos, x, env)

    def o_asin(self, x, env):
        return self.f1(math.asin, x, env)

    def o_atan(self, x, env):
        return self.f1(math.atan, x, env)

    def o_atan2(self, x, env):
        return math.atan2(self.num(x.args[0], env), self.num(x.args[1], env))

    def o_abs(self, x, env):
        return abs(self.num(x.args[0], env))

    def o_sign(self, x, env):
        v = self.num(x.args[0], env)
        return Fraction((v > 0) - (v < 0))

    def snap(self, v):
        if isinstance(v, float) and math.isfinite(v) and abs(v - round(v)) < 1e-9:
            return Fraction(round(v))
        return v

    def o_floor(self, x, env):
        v = self.snap(self.num(x.args[0], env))
        return Fraction(math.floor(v)) if math.isfinite(v) else v

    def o_ceil(self, x, env):
        v = self.snap(self.num(x.args[0], env))
        return Fraction(math.ceil(v)) if math.isfinite(v) else v

    def o_trunc(self, x, env):
        v = self.snap(self.num(x.args[0], env))
        return Fraction(math.trunc(v)) if math.isfinite(v) else v

    def o_round(self, x, env):
        v = self.num(x.args[0], env)
        if not math.isfinite(v):
            return v
        return Fraction(math.floor(abs(v) + Fraction(1, 2)) * (1 if v >= 0 else -1))

    def o_pow(self, x, env):
        a, b = self.num(x.args[0], env), self.num(x.args[1], env)
        try:
            r = float(a) ** float(b)
            return r if isinstance(r, float) else math.nan
        except (ValueError, OverflowError, ZeroDivisionError):
            return math.nan

    def o_idiv(self, x, env):
        a, b = self.idx(x.args[0], env), self.idx(x.args[1], env)
        if b == 0:
            raise Poison('division by zero')
        q = abs(a) // abs(b)
        return Fraction(q if (a < 0) == (b < 0) else -q)

    def o_imod(self, x, env):
        a, b = self.idx(x.args[0], env), self.idx(x.args[1], env)
        if b == 0:
            raise Poison('division by zero')
        r = abs(a) % abs(b)
        return Fraction(r if a >= 0 else -r)

    def o_wrap(self, x, env):
        return Fraction(self.idx(x.args[1], env) % (1 << int(t.const_of(x.args[0]))))

    # Losing digits and leaving the range of a small integer happen only to large or
    # long numbers; structures are small, so both are interpreted on their scale.
    def o_narrow(self, x, env):
        v = self.idx(x.args[1], env)
        m = 2
        return Fraction(v % m) if t.const_of(x.args[0]) > 0 else Fraction((v + m) % (2 * m) - m)

    def o_fl32(self, x, env):
        v = self.num(x.args[0], env)
        if isinstance(v, float) and not math.isfinite(v) or v == 0 or t.in_float(Fraction(v)) and isinstance(v, Fraction):
            return v
        e = math.floor(math.log2(abs(float(v))))
        q = Fraction(2) ** (e - 10)
        return round(Fraction(v) / q) * q

    def o_min(self, x, env):
        return min(self.num(a, env) for a in x.args)

    def o_max(self, x, env):
        return max(self.num(a, env) for a in x.args)

    def o_paren(self, x, env):
        return self.ev(x.args[0], env)

    def o_len(self, x, env):
        v = self.ev(x.args[0], env)
        return Fraction(len(self.aslist(v)))

    def o_sum(self, x, env):
        h, cnt, body = x.args
        b = t.mk('bnd', h)
        acc = Fraction(0)
        for i in range(self.count(cnt, env)):
            acc += self.num(body, dict(env, **{}) if False else self.bind(env, b, i))
        return acc

    def bind(self, env, b, i):
        e = dict(env)
        e[b] = Fraction(i) if isinstance(i, int) else i
        return e

    def count(self, cnt, env):
        n = self.idx(cnt, env)
        if n == math.inf or n > 5000:
            raise (Poison if self.until is None else Slow)('a loop without end')
        return max(0, int(n))

    def o_first(self, x, env):
        h, cnt, body = x.args
        b = t.mk('bnd', h)
        n = self.idx(cnt, env)
        if n == math.inf:
            n = 5000
            for i in range(n):
                if self.cond(body, self.bind(env, b, i)):
                    return Fraction(i)
            raise (Poison if self.until is None else Slow)('a loop without end')
        n = max(0, n)
        for i in range(n):
            if self.cond(body, self.bind(env, b, i)):
                return Fraction(i)
        return Fraction(n)

    def o_none(self, x, env):
        h, cnt, body = x.args
        b = t.mk('bnd', h)
        for i in range(self.count(cnt, env)):
            if self.cond(body, self.bind(env, b, i)):
                return False
        return True

    def red(self, x, env, f):
        h, cnt, init = x.args[:3]
        b = t.mk('bnd', h)
        acc = self.num(init, env)
        for i in range(self.count(cnt, env)):
            e = self.bind(env, b, i)
            for g in x.args[3:]:
                if self.cond(g.args[0], e):
                    acc = f(acc, self.num(g.args[1], e))
        return acc

    def o_minred(self, x, env):
        return self.red(x, env, min)

    def o_maxred(self, x, env):
        return self.red(x, env, max)

    def foldstate(self, x, env):
        h, cnt, inits, bodies, kinds, sel = x.args
        n = self.count(cnt, env)
        key = ('fold', h, cnt.id, tuple(i.id for i in inits), tuple(b.id for b in bodies)) + \
            tuple(self.ekey(env[v]) for v in sorted(x.fv, key=lambda z: z.id))
        r = self.memo.get(key)
        if r is not None:
            return r
        b = t.mk('bnd', h)
        st = [self.lazy(i, env) for i in inits]
        phs = [t.mk('bph', h, kd, j) for j, kd in enumerate(kinds[1])]
        for i in range(n):
            e = self.bind(env, b, i)
            for p, v in zip(phs, st):
                e[p] = v
            st = [self.lazy(z, e) for z in bodies]
        self.memo[key] = st
        return st

    def lazy(self, x, env):
        try:
            return self.ev(x, env)
        except Poison:
            return UNDEF

    def o_fold(self, x, env):
        v = self.foldstate(x, env)[x.args[5]]
        return v

    def o_bfold(self, x, env):
        return self.ev(x.args[0], env)

    # booleans
    def o_true(self, x, env):
        return True

    def o_false(self, x, env):
        return False

    def small(self, v):
        return isinstance(v, float) and abs(v) < 1e-9

    def o_le0(self, x, env):
        v = self.num(x.args[0], env)
        return v <= 0 or self.small(v)

    def o_lt0(self, x, env):
        v = self.num(x.args[0], env)
        return v < 0 and not self.small(v)

    def o_eq0(self, x, env):
        v = self.num(x.args[0], env)
        return v == 0 or self.small(v)

    def o_not(self, x, env):
        return not self.cond(x.args[0], env)

    def o_and(self, x, env):
        return all(self.cond(a, env) for a in x.args)

    def o_or(self, x, env):
        return any(self.cond(a, env) for a in x.args)

    def o_ueq(self, x, env):
        a, b = [self.ev(z, env) for z in x.args]
        if same(self, a, b):
            return True
        return False

    def o_isalt(self, x, env):
        v = self.ev(x.args[0], env)
        if isinstance(v, Alt):
            return v.i == x.args[1]
        if isinstance(v, Ref):
            return self.alt(v.p) == x.args[1]
        raise Cannot('alternative of %r' % (v,))

    def o_bobj(self, x, env):
        v = self.objval(x.args + (None,), env)
        if isinstance(v, bool):
            return v
        if isinstance(v, Ref):
            return self.boolean(v.p)
        raise Cannot('boolean object')

    # objects
    def o_obj(self, x, env):
        kind = x.args[-1]
        v = self.objval(x.args, env)
        if isinstance(v, Ref) and kind in NUMK:
            n = self.number(v.p, kind)
            return var(v.p, n) if kind == 'real' and not isinstance(n, float) else n
        return v

    def objval(self, a, env):
        if a[0] == 'sym':
            if a[1] == '?undef':
                return UNDEF
            return Ref((a[1],))
        b = self.ev(a[1], env)
        if a[0] == 'fld':
            return self.field(b, a[2])
        if a[0] == 'get':
            i = self.idx(a[2], env)
            return self.item(b, i)
        raise Cannot('object %s' % (a[0],))

    def field(self, b, n):
        if isinstance(b, Ref):
            return Ref(b.p + (n,))
        if isinstance(b, Rec):
            return b.field(n)
        if isinstance(b, Alt) and n == 'alt%d' % b.i:
            return b.v
        if b is UNDEF:
            raise Poison('undefined object')
        raise Cannot('field %s of %r' % (n, b))

    def item(self, b, i):
        if isinstance(b, Ref):
            if not 0 <= i < self.length(b.p):
                raise Poison('index %s of %s outside 0..%d' % (i, pstr(b.p), self.length(b.p)))
            return Ref(b.p + (i,))
        if isinstance(b, list):
            if not 0 <= i < len(b):
                raise Poison('index %s outside 0..%d' % (i, len(b)))
            return b[i]
        if b is UNDEF:
            raise Poison('undefined sequence')
        raise Cannot('item of %r' % (b,))

    def o_seqobj(self, x, env):
        return self.ev(x.args[0], env)

    def o_payload(self, x, env):
        raise Cannot('payload')

    def o_uf(self, x, env):
        name, kind = x.args[0], x.args[1]
        if name == 'now':
            # a clock: never goes back, read once per solver iteration
            k = [self.num(a, env) for a in x.args[2:] if isinstance(a, t.T)]
            return self.clock(int(k[0]) + 1 if k else 0)
        if name == 'aload':
            # a flag read: may change between solver iterations
            k = [self.num(a, env) for a in x.args[3:4]]
            return Fraction(self.rnd('aload', x.args[2].args[0], int(k[0]) if k else -1).choice([0, 0, 0, 1]))
        key = ('uf', name) + tuple(hkey(self.ev(a, env)) if isinstance(a, t.T) else a for a in x.args[2:])
        if kind in NUMK:
            return self.number(key, kind)
        return Ref(key)

    def clock(self, i):
        e, i = divmod(i, 10000)         # see models.RUN
        v = Fraction(1000 * e)
        for j in range(10000 * e, 10000 * e + i):
            v += Fraction(self.rnd('clock', j).choice([0, 1, 2, 3, 4, 6, 9]), 180)
        return v + self.rnd('clock0').randint(0, 5)

    def dvtok(self, a, env):
        """Identity of a decision variable atom."""
        if a.op == 'poly':
            s = t.single_atom(a)
            if s is None:
                raise Cannot('value of a compound expression')
            a = s
        if a.op == 'dv':
            tok = ('dv', a.args[0]) + tuple(self.idx(z, env) for z in a.args[1:])
            return self.role.get(tok, tok)
        if a.op == 'obj':
            v = self.objval(a.args, env)
            if isinstance(v, Ref):
                return v.p
            if isinstance(v, Var):
                return v.tok
            if v is UNDEF:
                raise Poison('undefined variable')
            raise Cannot('variable %r' % (v,))
        if a.op == 'ite':
            return self.dvtok(a.args[1] if self.cond(a.args[0], env) else a.args[2], env)
        v = self.ev(a, env)
        if isinstance(v, Var):
            return v.tok
        if isinstance(v, Ref):
            return v.p
        if v is UNDEF:
            raise Poison('undefined variable')
        raise Cannot('variable %s' % a.op)

    def o_dv(self, x, env):
        tok = self.dvtok(x, env)
        return var(tok, self.number(tok, 'real'))

    def o_val(self, x, env):
        ph = x.args[1]
        k = self.num(ph, env) if isinstance(ph, t.T) else ph
        return self.number(('val', self.dvtok(x.args[0], env), hkey(k)), 'real')

    def o_valof(self, x, env):
        tok = self.dvtok(x.args[0], env)
        log = self.ev(x.args[1], env)
        for e in reversed(log):
            if isinstance(e, Ev):
                if e.name == 'setvalue' and e.args[0] == tok:
                    return e.args[1]
                if e.name == 'solved':
                    return self.number(('val', tok, 'final%s' % (e.args[0] if e.args else '')), 'real')
                if e.name == 'iter':
                    return self.number(('val', tok, hkey(e.args[0])), 'real')
        return self.number(('val', tok, 'unset'), 'real')

    # sequences
    def aslist(self, v):
        if isinstance(v, list):
            return v
        if isinstance(v, Ref):
            return [Ref(v.p + (i,)) for i in range(self.length(v.p))]
        if v is UNDEF:
            raise Poison('undefined sequence')
        raise Cannot('sequence expected, got %r' % (v,))

    def o_seq(self, x, env):
        out = []
        for g in x.args:
            out.extend(self.seg(g, env))
        return out

    def seg(self, g, env):
        o = g.op
        if o == 'elem':
            return [self.lazy(g.args[0], env)]
        if o == 'opq':
            return self.aslist(self.ev(g.args[0], env))
        if o == 'if':
            return self.aslist(self.ev(g.args[1], env)) if self.cond(g.args[0], env) else []
        if o == 'sub':
            return self.aslist(self.ev(g.args[0], env))
        if o == 'for':
            h, cnt, body = g.args
            b = t.mk('bnd', h)
            out = []
            for i in range(self.count(cnt, env)):
                out.extend(self.aslist(self.ev(body, self.bind(env, b, i))))
            return out
        raise Cannot('segment %s' % o)

    def o_upd(self, x, env):
        s = list(self.aslist(self.ev(x.args[0], env)))
        i = self.idx(x.args[1], env)
        if not 0 <= i < len(s):
            raise Poison('write to index %s outside 0..%d' % (i, len(s)))
        s[i] = self.lazy(x.args[2], env)
        return s

    def o_updfor(self, x, env):
        h, base, cnt, idx, val = x.args
        s = list(self.aslist(self.ev(base, env)))
        b = t.mk('bnd', h)
        for i in range(self.count(cnt, env)):
            e = self.bind(env, b, i)
            j = self.idx(idx, e)
            if not 0 <= j < len(s):
                raise Poison('write to index %s outside 0..%d' % (j, len(s)))
            s[j] = self.lazy(val, e)
        return s

    def o_ite(self, x, env):
        return self.ev(x.args[1] if self.cond(x.args[0], env) else x.args[2], env)

    def o_rec(self, x, env):
        return Rec(x.args[0], x.args[1], [self.lazy(a, env) for a in x.args[2:]])

    def o_alt(self, x, env):
        return Alt(x.args[0], self.ev(x.args[1], env))

    def o_null(self, x, env):
        return 'null'

    def o_void(self, x, env):
        return 'void'

    def o_str(self, x, env):
        return ('str', x.args[0])

    def o_ref(self, x, env):
        return ('ref',) + tuple(a if isinstance(a, (str, int)) else str(a) for a in x.args)

    def o_fnref(self, x, env):
        return ('fn', x.args[1])

    def o_mat(self, x, env):
        return [self.lazy(a, env) for a in x.args[2:]]

    def o_rel(self, x, env):
        return Rel(x.args[0], self.expr(x.args[1], env))

    def o_ev(self, x, env):
        name = x.args[0]
        if name == 'setvalue':
            return Ev(name, x.args[1], [self.dvtok(x.args[2], env), self.lazy(x.args[3], env)])
        if name == 'decl':
            return Ev(name, x.args[1], [self.dvtok(x.args[2], env)])
        out = []
        for a in x.args[2:]:
            if isinstance(a, t.T):
                if a.op == 'poly' and self.hasvar(a):
                    out.append(Poly(self.expr(a, env)))
                elif a.op == 'rec' and self.hasvar(a):
                    out.append(self.evrec(a, env))
                else:
                    out.append(self.lazy(a, env))
            else:
                out.append(a)
        return Ev(name, x.args[1], out)

    def evrec(self, a, env):
        vs = []
        for z in a.args[2:]:
            if z.op == 'poly' and self.hasvar(z):
                vs.append(Poly(self.expr(z, env)))
            elif z.op == 'rec':
                vs.append(self.evrec(z, env))
            else:
                vs.append(self.lazy(z, env))
        return Rec(a.args[0], a.args[1], vs)


class Tokens(Model):
    """Evaluates a column of solution values to the variables it reads."""

    def __init__(self, M):
        Model.__init__(self, M.seed, fix=M.fix, flen=M.flen, falt=M.falt, vars=(), nalt=M.nalt, K=1,
                       maxlen=M.maxlen, consts=M.consts)
        self.lens = M.lens
        self.nums = M.nums
        self.M = M
        self.until = M.until

    def number(self, path, kind):
        return self.M.number(path, kind) if kind == 'nat' else Model.number(self, path, kind)

    def length(self, path):
        return self.M.length(path)

    def o_val(self, x, env):
        return var(self.dvtok(x.args[0], env), 0)

    o_valof = o_val

    def leaves(self, x):
        out = []

        def go(v, path):
            if isinstance(v, list):
                for i, z in enumerate(v):
                    go(z, path + (i,))
            elif isinstance(v, Var):
                out.append((path, v.tok))
        go(self.ev(x), ())
        return out


def hkey(v):
    if isinstance(v, Fraction):
        return v
    if isinstance(v, bool) or isinstance(v, (int, str)):
        return v
    if isinstance(v, float):
        return ('f', '%.9g' % v)
    if isinstance(v, Ref):
        return ('R',) + v.p
    if isinstance(v, (list,)):
        return ('L',) + tuple(hkey(z) for z in v)
    if isinstance(v, tuple):
        return tuple(hkey(z) for z in v)
    if isinstance(v, Rec):
        return ('C', v.names) + tuple(hkey(z) for z in v.vals)
    if isinstance(v, Alt):
        return ('A', v.i, hkey(v.v))
    if isinstance(v, Ev):
        return ('E', v.name, v.loc) + tuple(hkey(z) for z in v.args)
    if isinstance(v, (Poly,)):
        return ('P',) + tuple(hkey(z) for z in v.vals)
    if isinstance(v, Rel):
        return ('Q', v.op) + tuple(hkey(z) for z in v.vals)
    if v is UNDEF:
        return ('U',)
    raise Cannot('key of %r' % (v,))


# ---------------------------------------------------------------- comparison
def close(a, b):
    if a is b:
        return True
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a == b
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))


def same(M, a, b, path=''):
    return diff(M, a, b, path) is None


def isnum(v):
    return isinstance(v, (int, Fraction, float)) and not isinstance(v, bool)


def diff(M, a, b, path='', unordered=()):
    """None when the interpreted values agree, else (path, a, b).  `unordered`
    names fields holding sequences whose order carries no meaning.  Where b, the
    reference, is undefined nothing is required."""
    if b is UNDEF:
        return None
    if isinstance(a, Ref) and isinstance(b, Ref):
        return None if a.p == b.p else (path, a, b)
    if isinstance(a, Ref) or isinstance(b, Ref):
        r, o = (a, b) if isinstance(a, Ref) else (b, a)
        if isnum(o):
            kind = None
            v = None
            for kd in ('nat', 'int', 'real'):
                if (r.p, kd) in M.nums:
                    v = M.nums[(r.p, kd)]
                    break
            if v is None:
                v = M.number(r.p, 'real')
            return None if close(v, o) else (path, a, b)
        if isinstance(o, bool):
            return None if M.boolean(r.p) == o else (path, a, b)
        if isinstance(o, Rec):
            for n, v in zip(o.names, o.vals):
                w = Ref(r.p + (n,))
                d = diff(M, *((w, v) if a is r else (v, w)), path + '.' + str(n), unordered)
                if d:
                    return d
            return None
        if isinstance(o, list):
            l = M.aslist(r)
            return diff(M, l, o, path, unordered) if a is r else diff(M, o, l, path, unordered)
        if isinstance(o, Alt):
            if M.alt(r.p) != o.i:
                return (path, a, b)
            w = Ref(r.p + ('alt%d' % o.i,))
            return diff(M, *((w, o.v) if a is r else (o.v, w)), path, unordered)
        return (path, a, b)
    if isinstance(a, bool) or isinstance(b, bool):
        return None if a == b else (path, a, b)
    if isnum(a) and isnum(b):
        return None if close(a, b) else (path, a, b)
    if isinstance(a, Rec) and isinstance(b, Rec):
        if a.names != b.names:
            if set(a.names) != set(b.names):
                # closures and other unnamed tuples: positional
                return (path, a, b)
        for n in a.names:
            d = diff(M, a.field(n), b.field(n), path + '.' + str(n), unordered)
            if d:
                w = reversed_edge(a)
                if w is not None and all(diff(M, w.field(m), b.field(m), '', unordered) is None for m in a.names):
                    return None
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return (path, 'a sequence of %d' % len(a), 'a sequence of %d' % len(b))
        last = path.rsplit('.', 1)[-1].split('[')[0]
        if last in unordered:
            rest = list(b)
            for x in a:
                for i, y in enumerate(rest):
                    if diff(M, x, y, '', unordered) is None:
                        del rest[i]
                        break
                else:
                    return (path, x, rest[0] if rest else None)
            return None
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(M, x, y, '%s[%d]' % (path, i), unordered)
            if d:
                return d
        return None
    if isinstance(a, Alt) and isinstance(b, Alt):
        if a.i != b.i:
            return (path, a, b)
        return diff(M, a.v, b.v, path, unordered)
    if isinstance(a, Poly) or isinstance(b, Poly):
        av = a.vals if isinstance(a, Poly) else [a] * len(b.vals) if isnum(a) else None
        bv = b.vals if isinstance(b, Poly) else [b] * len(a.vals) if isnum(b) else None
        if av is None or bv is None or not all(close(x, y) for x, y in zip(av, bv)):
            return (path, a, b)
        return None
    if isinstance(a, Rel) and isinstance(b, Rel):
        return None if samerel(a, b) else (path, a, b)
    if isinstance(a, Ev) and isinstance(b, Ev):
        if a.name != b.name:
            return (path, a, b)
        return diff(M, a.args, b.args, path, unordered)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return None if a == b else (path, a, b)
    if a is UNDEF and b is UNDEF:
        return None
    if isinstance(a, str) and isinstance(b, str):
        return None if a == b else (path, a, b)
    return (path, a, b)


def reversed_edge(r):
    """A line segment given from its other end is the same (C05: the distance to
    it does not depend on the direction)."""
    ends = [i for i, n in enumerate(r.names) if str(n).endswith(('LineStart', 'LineEnd'))]
    if len(ends) != 2:
        return None
    v = list(r.vals)
    v[ends[0]], v[ends[1]] = v[ends[1]], v[ends[0]]
    return Rec(r.name, r.names, v)


def samerel(a, b):
    """The same set of assignments satisfies both relations."""
    if a.op != b.op:
        return False
    if all(close(x, y) for x, y in zip(a.vals, b.vals)):
        return True
    if a.op == '==' and any(x != x for x in map(float, a.vals + b.vals)):
        if [x != x for x in map(float, a.vals)] != [x != x for x in map(float, b.vals)]:
            return False
        z = [(x, y) for x, y in zip(a.vals, b.vals) if float(x) == float(x)]
        a, b = Rel(a.op, [x for x, y in z]), Rel(b.op, [y for x, y in z])
    k = None
    for x, y in zip(a.vals, b.vals):
        x, y = float(x), float(y)
        if x != x or y != y or math.isinf(x) or math.isinf(y):
            continue
        if k is None:
            if abs(x) > 1e-9 and abs(y) > 1e-9:
                k = y / x
    if k is not None and (a.op == '==' or k > 0):
        if all(close(float(x) * k, y) for x, y in zip(a.vals, b.vals)):
            return True
    sa = [sgn(x) for x in a.vals]
    sb = [sgn(x) for x in b.vals]
    # another way to write the same inequality
    return len(sa) >= 12 and a.op == '>=' and [s >= 0 for s in sa] == [s >= 0 for s in sb]


def sgn(x):
    x = float(x)
    if x != x:
        return -9
    return (x > 1e-9) - (x < -1e-9)


def match_events(M, impl, spec, unordered=(), once=()):
    """Multiset comparison of events: (missing spec events, unexpected impl events).
    Events named in `once` mean the same however often they happen."""
    rest = list(impl)
    missing = []
    for s in spec:
        hit = False
        if s.name in once:
            keep = []
            for e in rest:
                if e.name == s.name and diff(M, e, s, '', unordered) is None:
                    hit = True
                else:
                    keep.append(e)
            if not hit:
                hit = any(e is not s and e.name == s.name and diff(M, e, s, '', unordered) is None
                          for e in impl)
            rest = keep
        else:
            for i, e in enumerate(rest):
                if diff(M, e, s, '', unordered) is None:
                    del rest[i]
                    hit = True
                    break
        if not hit:
            missing.append(s)
    return missing, rest
