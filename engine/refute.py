"""Shows that an event cannot happen: the conditions on the way to it - loop
ranges, guards and the facts that hold on entry - have no solution.

Atoms are treated as unknowns.  max, min, conditional values and unsigned
wrap-around are split into cases, sums over prefixes of one list are compared
through the non-negativity of their terms, and what is left is a system of linear
inequalities, refuted by Fourier-Motzkin elimination.  Incomplete and sound (an
unsigned difference is taken to be above -2^64, as differences of lengths are)."""
from fractions import Fraction
import terms as t

CASES = 400
ROWS = 400


class TooHard(Exception):
    pass


def impossible(x, facts, floor=None):
    """No execution satisfying the facts reaches the event x."""
    try:
        return walk(x, list(facts), floor or (lambda a: None))
    except TooHard:
        return False


def walk(x, cons, floor):
    if x.op == 'seq':
        return all(walk(y, cons, floor) for y in x.args)
    if x.op == 'sub':
        return walk(x.args[0], cons, floor)
    if x.op == 'for':
        v, b = t.open_(x, 2)
        return walk(b, cons + [t.le0(t.neg(t.atom(v))), t.lt0(t.sub(t.atom(v), x.args[1]))], floor)
    if x.op == 'if':
        return walk(x.args[1], cons + [x.args[0]], floor)
    if x.op == 'elem':
        return unsat(cons, floor)
    return False


def holds_never(cons, floor=None):
    try:
        return unsat(cons, floor or (lambda a: None))
    except TooHard:
        return False


def unsat(cons, floor=lambda a: None):
    budget = [CASES]
    return split(list(cons), [], {}, set(), floor, budget)


def split(todo, rows, sub, seen, floor, budget):
    """True when no case of the constraints has a solution.  todo: conditions to
    take apart; rows: polynomials >= 0; sub: atom -> polynomial it equals in this
    case; seen: conditions decided."""
    budget[0] -= 1
    if budget[0] < 0:
        raise TooHard
    todo = list(todo)
    rows = list(rows)
    seen = set(seen)
    pending = []
    while todo:
        c = todo.pop()
        if c is t.FALSE:
            return True
        if c is t.TRUE or c.id in seen:
            continue
        if t.not_(c).id in seen:
            return True
        seen.add(c.id)
        o = c.op
        if o == 'and':
            todo.extend(c.args)
        elif o == 'or':
            pending.append(list(c.args))
        elif o == 'le0':
            rows.append(t.neg(c.args[0]))
        elif o == 'lt0':
            p = t.neg(c.args[0])
            rows.append(t.sub(p, t.num(1)) if t.is_int(p) else p)
        elif o == 'eq0':
            rows.append(c.args[0])
            rows.append(t.neg(c.args[0]))
        elif o == 'not' and c.args[0].op == 'eq0' and t.is_int(c.args[0].args[0]):
            p = c.args[0].args[0]
            pending.append([t.le0(t.add(t.num(1), p)), t.le0(t.sub(t.num(1), p))])
        # anything else carries no numeric information
    if pending:
        alts = pending.pop()
        rest = [t.or_(*a) for a in pending]
        return all(split(rest + [a], rows, sub, seen, floor, budget) for a in alts)
    # cases of a piecewise atom
    for p in rows:
        for a in atoms_of(p):
            cs = cases(a)
            if cs is not None:
                rows2 = lambda v: [replace(q, a, v) for q in rows]
                return all(split(cs_, rows2(v), sub, seen, floor, budget) for cs_, v in cs)
    return infeasible(rows + lemmas(rows, floor))


def atoms_of(p):
    return [a for m, c in p.args for a, e in m]


def cases(a):
    """[(conditions, value)] that cover every value of the atom, or None."""
    o = a.op
    if o in ('max', 'min') and len(a.args) == 2 and all(y.op == 'poly' for y in a.args):
        x, y = a.args
        d = t.sub(x, y) if o == 'max' else t.sub(y, x)
        return [([t.le0(t.neg(d))], x), ([t.le0(d)], y)]
    if o == 'ite' and all(y.op == 'poly' for y in a.args[1:]):
        c, x, y = a.args
        return [([c], x), ([t.not_(c)], y)]
    if o == 'wrap' and a.args[1].op == 'poly' and t.is_int(a.args[1]):
        bits = t.const_of(a.args[0])
        p = a.args[1]
        if bits:
            return [([t.le0(t.neg(p))], p),
                    ([t.lt0(p)], t.add(p, t.num(1 << int(bits))))]
    return None


def replace(q, a, v):
    acc = t.num(0)
    hit = False
    for m, c in q.args:
        e = dict(m).get(a)
        if e is None:
            acc = t.add(acc, t._rawpoly({m: c}))
        else:
            hit = True
            if e < 0:
                raise TooHard
            rest = tuple(ae for ae in m if ae[0] is not a)
            acc = t.add(acc, t.mul(t._rawpoly({rest: c}), t.powi(v, e)))
    return acc if hit else q


def lemmas(rows, floor):
    """What is known of the atoms: signs, floors, and prefix sums of one list."""
    ats = {}
    for p in rows:
        for a in atoms_of(p):
            ats[a.id] = a
    out = []
    for a in ats.values():
        f = floor(a)
        if f is not None:
            out.append(t.sub(t.atom(a), t.num(f)))
        elif t.atom_nonneg(a):
            out.append(t.atom(a))
        if a.op == 'idiv' and all(t.nonneg(z) and t.is_int(z) for z in a.args) and \
                infeasible(rows + [t.neg(a.args[1])] + floors(a.args[1], floor)):
            n, m = a.args                                  # m * (n / m) <= n < m * (n / m + 1)
            r = t.sub(n, t.mul(m, t.atom(a)))
            out.extend((r, t.sub(t.sub(m, t.num(1)), r)))
        if a.op == 'first':
            out.append(t.sub(t.pos(a.args[1]), t.atom(a)))
    sums = [a for a in ats.values() if a.op == 'sum']
    for a in sums:
        for b in sums:
            if a is b:
                continue
            # a = sum(i < n: f), b = sum(i < k: f) with the same f >= 0
            va, fa = t.open_(a, 2)
            vb, fb = t.open_(b, 2)
            if t.subst(fb, {vb: t.atom(va)}) is not fa or not t.nonneg(fa):
                continue
            n, k = a.args[1], b.args[1]
            d = t.sub(n, k)
            if infeasible(rows + out + [t.sub(t.num(-1), d)]):        # k <= n
                out.append(t.sub(t.atom(a), t.atom(b)))
                if infeasible(rows + out + [t.neg(d)]):               # k < n
                    out.append(t.sub(t.sub(t.atom(a), t.atom(b)), t.subst(fa, {va: k})))
    return out


def floors(p, floor):
    return [t.sub(t.atom(a), t.num(floor(a))) for a in atoms_of(p) if floor(a) is not None]


def infeasible(polys):
    """No values of the monomials make every polynomial >= 0."""
    rows = []
    for p in polys:
        r = {m: Fraction(c) for m, c in p.args if m != ()}
        k = Fraction(dict(p.args).get((), 0))
        if not r:
            if k < 0:
                return True
            continue
        rows.append((r, k))
    rows = dedupe(rows)
    while True:
        count = {}
        for r, k in rows:
            for m, c in r.items():
                u, d = count.get(m, (0, 0))
                count[m] = (u + 1, d) if c > 0 else (u, d + 1)
        if not count:
            return False
        m = min(count, key=lambda z: count[z][0] * count[z][1])
        up = [(r, k) for r, k in rows if r.get(m, 0) > 0]
        dn = [(r, k) for r, k in rows if r.get(m, 0) < 0]
        rows = [(r, k) for r, k in rows if m not in r]
        for r1, k1 in up:
            for r2, k2 in dn:
                f1, f2 = -r2[m], r1[m]
                s = {}
                for r, f in ((r1, f1), (r2, f2)):
                    for z, c in r.items():
                        if z != m:
                            s[z] = s.get(z, 0) + c * f
                s = {z: c for z, c in s.items() if c}
                k = k1 * f1 + k2 * f2
                if not s:
                    if k < 0:
                        return True
                else:
                    rows.append((s, k))
        rows = dedupe(rows)
        if len(rows) > ROWS:
            raise TooHard


def dedupe(rows):
    """Rows scaled to a common form; of parallel ones the strongest."""
    best = {}
    for r, k in rows:
        lead = abs(r[min(r, key=lambda m: tuple((a.id, e) for a, e in m))])
        key = tuple(sorted(((tuple((a.id, e) for a, e in m), c / lead) for m, c in r.items())))
        k = k / lead
        if key not in best or best[key][1] > k:
            best[key] = ({m: c / lead for m, c in r.items()}, k)
    return list(best.values())
