"""Functions kept opaque so that a caller can be decided separately from its
callee (each is decided by its own property)."""
import terms as t
from terms import mk
import interp as ip


def constraint_alts(P):
    """{class name: index} of the constraint variant's alternatives."""
    best = {}
    for ty in P.types:
        if ty.get('tn') == 'std::variant' and not ty.get('ref'):
            al = [P.types[a['t']] for a in ty['targs'] if 't' in a]
            if al and all((a.get('rec') or '').startswith('trajopt::') for a in al):
                d = {a['s']: i for i, a in enumerate(al)}
                if len(d) > len(best):
                    best = d
    return best


def alt_owner(I, r, i):
    """The variant object of which r is the i-th alternative."""
    if r.op == 'ref' and len(r.args) > 1 and isinstance(r.args[-1], t.T) and r.args[-1].op == 'alt':
        return I.read(mk('ref', *r.args[:-1]))
    return mk('alt', i, I.read(r))


def apply_handler(alts):
    def h(I, fn, obj, args, x, F):
        cls = fn.get('cls')
        if cls is None or cls < 0 or I.ty(cls)['s'] not in alts or obj is None:
            return NotImplemented
        this = I.rv(obj, F) if x.get('arrow') else I.lv(obj, F)
        vals = [I.read(I.lv(a, F)) if not a['e'] == 'x' else None for a in args[1:]]
        I.event('apply', x.get('l'), alt_owner(I, this, alts[I.ty(cls)['s']]), *vals)
        return ip.VOID
    return h


def opaque_value(name, seen=None):
    """The call returns a fresh named object that depends on nothing else."""
    def h(I, fn, obj, args, x, F):
        if obj is not None:
            I.lv(obj, F)
        for a in args:
            I.ev(a, F)
        I.opaque_seen.add(name)
        return I.sym(name, x['t'])
    return h


def capture(name, which, of):
    """spec::name(obj): the arguments with which the member function `of` of obj
    calls the free function `which` (argument 0 unless given)."""
    def h(I, fn, obj, args, x, F):
        r = I.lv(args[0], F)
        ds = [d for d in I.P.by_qn.get(of, []) if d.get('body') is not None or d.get('stmts') is not None or True]
        if not ds:
            raise ip.Unsupported('%s is gone' % of)
        got = []

        def cap(I, fn2, obj2, args2, x2, F2):
            vals = []
            d = I.P.functions.get(fn2['key'])
            for i, a in enumerate(args2):
                v = I.rv(a, F2)
                if v.op == 'ref':
                    v = I.read(v)
                vals.append(v)
            got.append(vals)
            return I.sym(name + '.value', x2['t'])
        saved = dict(I.opaque)
        I.opaque = dict(I.opaque)
        I.opaque[which] = cap
        try:
            I.call_def(ds[0], [], r)
        finally:
            I.opaque = saved
        if len(got) != 1:
            raise ip.Unsupported('%s does not call %s once' % (of, which))
        return got[0][0]
    return h


GUESS = {'spec::guess_points': capture('guess', 'trajopt::GenerateLinearInitialGuess',
                                       'trajopt::SwervePathBuilder::CalculateInitialGuess')}


def record(name):
    """The call becomes an event: its receiver's identity and its arguments' values."""
    def h(I, fn, obj, args, x, F):
        vals = []
        if obj is not None:
            I.rv(obj, F) if x.get('arrow') else I.lv(obj, F)
        for a in args:
            v = I.rv(a, F)
            if v.op == 'ref' or ip.is_refish(v):
                v = I.read(v)
            vals.append(v)
        I.event(name, x.get('l'), *vals)
        return ip.VOID
    return h


def even_guess(I, fn, obj, args, x, F):
    """An initial guess of any shape whose time steps are all the same (C12)."""
    if obj is not None:
        I.rv(obj, F) if x.get('arrow') else I.lv(obj, F)
    g = I.sym('guess', x['t'])
    if g.op != 'rec':
        g = I.expand(x['t'], g)
    i = g.args[1].index('dt')
    v = t.fresh_bv()
    double = next(k for k, y in enumerate(I.P.types) if y.get('s') == 'double')
    step = I.sym('step', double)
    col = g.args[2 + g.args[1].index('x')]
    dt = t.forseq(t.length(col), v, t.seq(t.elem(step)))
    return mk('rec', g.args[0], g.args[1], *[dt if j == i else y for j, y in enumerate(g.args[2:])])


def no_solve(I, fn, obj, args, x, F):
    """A solver that stops where it starts."""
    I.lv(obj, F)
    for a in args:
        I.ev(a, F)
    return I.sym('status', x['t'])


def solved(I, fn, obj, args, x, F):
    """A solver that succeeds."""
    I.lv(obj, F)
    for a in args:
        I.ev(a, F)
    I.event('solved', x.get('l'))
    ok = t.num(0)
    v = I.sym('status', x['t'])
    fs = I.fields(x['t'])
    return t.mk('rec', I.ty(x['t'])['s'], tuple(n for n, _, _ in fs),
                *[ok if n == 'exitCondition' else I.proj(v, n) for n, _, _ in fs])


def unset_is_zero(x, memo=None):
    """Variables start at zero."""
    if memo is None:
        memo = {}
    r = memo.get(x.id)
    if r is None:
        go = lambda y: unset_is_zero(y, memo)
        if x.op == 'val' and x.args[1] == 'unset':
            r = t.num(0)
        elif x.op == 'poly':
            r = t.num(0)
            for mo, c in x.args:
                p = t.num(c)
                for a, e in mo:
                    b = go(a)
                    p = t.mul(p, t.powi(b if b.op == 'poly' else t.atom(b), e))
                r = t.add(r, p)
        elif not any(isinstance(a, (t.T, tuple)) for a in x.args):
            r = x
        else:
            args = [go(a) if isinstance(a, t.T) else
                    tuple(go(b) if isinstance(b, t.T) else b for b in a) if isinstance(a, tuple) else a
                    for a in x.args]
            r = x if all(a is b for a, b in zip(args, x.args)) else t.rebuild(x.op, args)
        memo[x.id] = r
    return r


def nothing(I, fn, obj, args, x, F):
    """A call whose effect is decided elsewhere."""
    I.lv(obj, F)
    for a in args:
        I.ev(a, F)
    return ip.VOID


def inner(I, fn, obj, args, x, F):
    """spec::inner(s): the core path builder the binding object s keeps."""
    r = I.lv(args[0], F)
    fs = I.fields(args[0]['t']) or []
    own = [n for n, tid, f in fs if I.ty(tid).get('rec') == 'trajopt::SwervePathBuilder' and not I.ty(tid).get('ref')]
    if len(own) != 1:
        raise ip.Unsupported('the binding object does not keep one path builder')
    return I.sub_ref(r, own[0])
