"""Equality of two summaries by cases.

Where two terms differ in form, the conditions they branch on are tried both ways
(a case that contradicts the facts is empty), and the terms are compared in each
case after everything the case decides has been resolved.  Loops are compared body
by body under the range of their index, a loop whose body branches on its own index
is cut into the ranges on which it does not, and sequences built by updates are
compared element by element at an index that stands for every position."""
import prover
import refute
import terms as t

DEPTH = 10
WORK = 4000


class Budget(Exception):
    pass


class Ctx:
    def __init__(self, floor, work):
        self.floor = floor
        self.left = work

    def tick(self):
        self.left -= 1
        if self.left < 0:
            raise Budget


def same(a, b, facts, floor=None, work=WORK):
    """a == b whenever the facts hold."""
    return run(lambda cx: eq(a, b, tuple(facts), cx, DEPTH), floor, work)


def same_events(la, lb, facts, floor=None, work=WORK):
    """The two lists of single-event segments are equal as multisets."""
    return run(lambda cx: events(la, lb, tuple(facts), cx, DEPTH), floor, work)


def run(f, floor, work):
    prover.strong(floor or (lambda a: None))
    try:
        return f(Ctx(floor, work))
    except (Budget, refute.TooHard, RecursionError, TypeError, ValueError, KeyError):
        return False
    finally:
        prover.strong(None)


def norm(x, facts, cx):
    cx.tick()
    for i in range(4):
        y = prover.norm(x, facts)
        if y is x:
            return y
        x = y
    return x


def absurd(facts, cx):
    cx.tick()
    return refute.holds_never(facts, cx.floor)


# ------------------------------------------------------------------ terms
def eq(a, b, facts, cx, depth):
    a, b = norm(a, facts, cx), norm(b, facts, cx)
    if a is b:
        return True
    if t.is_num(a) and t.is_num(b) and norm(t.eq0(t.sub(a, b)), facts, cx) is t.TRUE:
        return True
    if depth <= 0:
        return False
    c = pick((a, b), facts)
    if c is not None:
        for s in (c, t.not_(c)):
            fs = facts + (s,)
            if not absurd(fs, cx) and not eq(a, b, fs, cx, depth - 1):
                return False
        return True
    return descend(a, b, facts, cx, depth)


def bound(c):
    return any(x.op in ('bnd', 'bph') for x in c.fv)


def pick(xs, facts):
    """A condition the terms branch on that mentions no bound variable: outermost first."""
    seen = set()
    known = {f.id for f in facts} | {t.not_(f).id for f in facts}
    level = list(xs)
    while level:
        nxt = []
        for x in level:
            if x.id in seen:
                continue
            seen.add(x.id)
            c = None
            if x.op == 'ite' or x.op == 'if':
                c = x.args[0]
            elif x.op in ('max', 'min') and len(x.args) == 2:
                c = t.le0(t.sub(x.args[0], x.args[1]))
            elif x.op == 'wrap' and t.is_int(x.args[1]):
                c = t.le0(t.neg(x.args[1]))
            elif x.op == 'for' and not t.nonneg(x.args[1]):
                c = t.le0(x.args[1])
            if c is not None:
                c = simple(c)
                if c is not None and not bound(c) and c.id not in known:
                    return c
            nxt.extend(t.subterms(x))
        level = nxt
    return None


def simple(c):
    """A comparison inside the condition."""
    st = [c]
    while st:
        x = st.pop()
        if x is t.TRUE or x is t.FALSE:
            continue
        if x.op in ('and', 'or'):
            st.extend(x.args)
        elif x.op == 'not':
            st.append(x.args[0])
        elif not bound(x):
            return x
    return None


def inrange(v, cnt):
    return (t.le0(t.neg(t.atom(v))), t.lt0(t.sub(t.atom(v), cnt)))


def descend(a, b, facts, cx, depth):
    cx.tick()
    if t.is_seq(a) and t.is_seq(b):
        return sequences(a, b, facts, cx, depth)
    if a.op != b.op:
        return False
    if a.op == 'poly':
        return polys(a, b, facts, cx, depth)
    if a.op in ('for', 'sum', 'none', 'first'):
        return binder(a, b, facts, cx, depth)
    if a.op in t.BINDERS or a.op in t.VARLIKE:
        return False
    return args(a, b, facts, cx, depth)


def args(a, b, facts, cx, depth):
    if len(a.args) != len(b.args):
        return False
    for x, y in zip(a.args, b.args):
        if isinstance(x, t.T) and isinstance(y, t.T):
            if x is not y and not eq(x, y, facts, cx, depth - 1):
                return False
        elif x != y:
            return False
    return True


def binder(a, b, facts, cx, depth):
    if not eq(a.args[1], b.args[1], facts, cx, depth - 1):
        return False
    v, x = t.open_(a, 2)
    y = t.inst(b, 2, t.atom(v))
    return eq(x, y, facts + inrange(v, a.args[1]), cx, depth - 1)


def polys(a, b, facts, cx, depth):
    da, db = dict(a.args), dict(b.args)
    la = [(m, c) for m, c in a.args if db.get(m) != c]
    lb = [(m, c) for m, c in b.args if da.get(m) != c]
    if len(la) != len(lb) or len(la) > 6:
        return False
    used = set()
    for m, c in la:
        for j, (n, d) in enumerate(lb):
            if j not in used and c == d and monos(m, n, facts, cx, depth):
                used.add(j)
                break
        else:
            return False
    return True


def monos(m, n, facts, cx, depth):
    pa = [ae for ae in m if ae not in n]
    pb = [ae for ae in n if ae not in m]
    if len(pa) != len(pb) or len(pa) > 3:
        return False
    for x, e in pa:
        for i, (y, f) in enumerate(pb):
            if e == f and x.op == y.op and descend(x, y, facts, cx, depth - 1):
                del pb[i]
                break
        else:
            return False
    return True


def sequences(a, b, facts, cx, depth):
    if a.op == 'seq' and b.op == 'seq':
        xs, ys = cut(a, facts, cx), cut(b, facts, cx)
        if len(xs) == len(ys) and all(
                x is y or x.op == y.op and (binder(x, y, facts, cx, depth) if x.op == 'for' else
                                            args(x, y, facts, cx, depth)) for x, y in zip(xs, ys)):
            return True
    old = t.Facts.cur
    t.Facts.cur = facts
    try:
        n, m = t.length(a), t.length(b)
        if not eq(n, m, facts, cx, depth - 1):
            return False
        k = t.fresh_bv()
        fs = facts + inrange(k, n)
        t.Facts.cur = fs
        x, y = t.get(a, t.atom(k)), t.get(b, t.atom(k))
    finally:
        t.Facts.cur = old
    if whole(x) or whole(y):
        return False
    return eq(x, y, fs, cx, depth - 1)


def whole(x):
    """The element could not be told apart from its sequence."""
    return x.op == 'obj' and x.args[0] == 'get' and x.args[1].op == 'seqobj'


# ------------------------------------------------------- cutting loop ranges
def cut(s, facts, cx):
    """The segments of a sequence, loops cut where their bodies branch on the index."""
    out = []
    for g in s.args:
        out.extend(cut_for(g, facts, cx, 3) if g.op == 'for' else [g])
    return out


def cut_for(g, facts, cx, depth):
    v, body = t.open_(g, 2)
    cnt = g.args[1]
    if depth > 0:
        at = threshold(v, body, cnt, facts, cx)
        if at is not None:
            cx.tick()
            lo = norm(t.forseq(at, v, body), facts, cx)
            w = t.fresh_bv()
            hi = norm(t.forseq(t.sub(cnt, at), w, t.subst(body, {v: t.add(t.atom(w), at)})), facts, cx)
            out = []
            for s in (lo, hi):
                for h in (s.args if s.op == 'seq' else [s]):
                    out.extend(cut_for(h, facts, cx, depth - 1) if h.op == 'for' else [h])
            return out
    return [g]


def threshold(v, body, cnt, facts, cx):
    """T with 0 <= T <= cnt such that a condition of the body changes between T-1 and T."""
    seen = set()
    st = [body]
    while st:
        x = st.pop()
        if x.id in seen or v not in x.fv:
            continue
        seen.add(x.id)
        if x.op in ('le0', 'eq0') and not bound(x):
            p = x.args[0]
            d = dict(p.args)
            k = d.get(((v, 1),))
            rest = t.sub(p, t.mul(t.num(k), t.atom(v))) if k in (1, -1) else None
            if rest is not None and v not in rest.fv and t.is_int(p):
                if x.op == 'le0':
                    ts = [t.sub(t.num(1), rest)] if k == 1 else [rest]
                else:
                    z = t.neg(rest) if k == 1 else rest
                    ts = [z, t.add(z, t.num(1))]
                for T in ts:
                    T = norm(T, facts, cx)
                    if prover.simp(t.le0(t.sub(t.num(1), T)), facts) is t.TRUE and \
                            prover.simp(t.le0(t.add(t.sub(T, cnt), t.num(1))), facts) is t.TRUE:
                        return T
        st.extend(t.subterms(x))
    return None


# ------------------------------------------------------------------ events
def flatten(s, facts, cx, out, path=()):
    """Single events of a segment: (index ranges, guards, event), loops cut."""
    for g in (s.args if s.op == 'seq' else [s]):
        cx.tick()
        if g.op == 'elem':
            out.append((path, g.args[0]))
        elif g.op == 'sub':
            flatten(g.args[0], facts, cx, out, path)
        elif g.op == 'if':
            flatten(g.args[1], facts, cx, out, path + (('if', g.args[0]),))
        elif g.op == 'for':
            for h in cut_for(g, facts, cx, 3):
                if h.op != 'for':
                    flatten(h, facts, cx, out, path)
                    continue
                v, b = t.open_(h, 2)
                fs = facts + inrange(v, h.args[1])
                flatten(norm(b, fs, cx), fs, cx, out, path + (('for', v, h.args[1]),))
        else:
            raise Budget


def events(la, lb, facts, cx, depth):
    """Multiset equality of two lists of segments."""
    cx.tick()
    la = [y for y in (norm(x, facts, cx) for x in la) if y is not t.EMPTY]
    lb = [y for y in (norm(x, facts, cx) for x in lb) if y is not t.EMPTY]
    for x in list(la):
        if x in lb:
            la.remove(x)
            lb.remove(x)
    la = [x for x in la if not refute.impossible(x, facts, cx.floor)]
    lb = [x for x in lb if not refute.impossible(x, facts, cx.floor)]
    if not la and not lb:
        return True
    if depth <= 0:
        return False
    c = pick(la + lb, facts)
    if c is not None:
        for s in (c, t.not_(c)):
            fs = facts + (s,)
            if not absurd(fs, cx) and not events(la, lb, fs, cx, depth - 1):
                return False
        return True
    if not la or not lb:
        return False
    # one common outer loop: compare what happens at each of its indices
    heads = [head(x) for x in la + lb]
    if all(h is not None for h in heads):
        cnts = {h.args[1].id for h in heads}
        if len(cnts) == 1:
            v = t.fresh_bv()
            fs = facts + inrange(v, heads[0].args[1])
            op = lambda xs: sum((single(t.inst(head(x), 2, t.atom(v))) for x in xs), [])
            if events(op(la), op(lb), fs, cx, depth - 1):
                return True
    fa, fb = [], []
    for x in la:
        flatten(x, facts, cx, fa)
    for x in lb:
        flatten(x, facts, cx, fb)
    if len(fa) != len(fb):
        return False
    for pa, ea in fa:
        for j, (pb, eb) in enumerate(fb):
            if match(pa, ea, pb, eb, facts, cx, depth - 1):
                del fb[j]
                break
        else:
            return False
    return True


def head(x):
    while x.op == 'seq' and len(x.args) == 1:
        x = x.args[0]
    return x if x.op == 'for' else None


def single(s):
    return [t.seq(g) for g in s.args] if s.op == 'seq' else [s]


def match(pa, ea, pb, eb, facts, cx, depth):
    """The same event over the same index ranges, loops in any order."""
    if ea.op != 'ev' or eb.op != 'ev' or ea.args[0] != eb.args[0] or len(pa) != len(pb):
        return False
    return assign(list(pa), list(pb), {}, ea, eb, facts, cx, depth)


def assign(pa, pb, m, ea, eb, facts, cx, depth):
    cx.tick()
    if not pa:
        return args(strip_loc(ea), strip_loc(t.subst(eb, m)), facts, cx, depth)
    x = pa[0]
    for j, y in enumerate(pb):
        if x[0] != y[0]:
            continue
        if x[0] == 'for':
            if not eq(x[2], t.subst(y[2], m), facts, cx, 2):
                continue
            m2 = dict(m)
            m2[y[1]] = t.atom(x[1])
            fs = facts + inrange(x[1], x[2])
        else:
            if t.subst(y[1], m) is not x[1]:
                continue
            m2, fs = m, facts + (x[1],)
        if assign(pa[1:], pb[:j] + pb[j + 1:], m2, ea, eb, fs, cx, depth):
            return True
    return False


def strip_loc(e):
    return t.mk('ev', e.args[0], '', *e.args[2:])
