"""Abstract evaluation of the typed syntax tree into value-flow summaries.

Every function is turned into gated values and an effect log covering all of
its paths at once: branches are merged with gates, loops are replaced by
closed forms of their recurrences (or by a 'fold' node where no closed form is
found).  No path is enumerated and no input is ever chosen."""
from fractions import Fraction
import re

import terms as t
from terms import (mk, num, atom, add, sub, mul, neg, seq, elem, opq, cat, ite, and_, or_, not_,
                   le0, lt0, eq0, TRUE, FALSE, EMPTY)


class Unsupported(Exception):
    def __init__(self, what, loc=None):
        Exception.__init__(self, what)
        self.what = what
        self.loc = loc

    def __str__(self):
        return '%s%s' % (self.what, ' at %s:%s' % tuple(self.loc) if self.loc else '')


LOG = 0
UNDEF = mk('obj', 'sym', '?undef', None)
NULL = mk('null')
VOID = mk('void')

SEQ_TN = {'std::vector', 'rust::Vec', 'rust::cxxbridge1::Vec', 'std::array', 'std::initializer_list',
          'std::span', 'std::deque'}
VARIABLE = 'sleipnir::Variable'


class Flow:
    """Where control can go after a statement: kind -> (condition, cells, value)."""
    __slots__ = ('k',)

    def __init__(self, k=None):
        self.k = k or {}


class Frame:
    def __init__(self, fn, this=None, closure=None):
        self.fn = fn
        self.this = this
        self.env = {}
        self.closure = closure
        self.autos = []          # objects that die with the frame


def tup(x):
    return tuple(x) if isinstance(x, list) else x


PI_F = 3.141592653589793


def const_real(d, src=None):
    if d != d:
        raise Unsupported('NaN constant')
    if d in (float('inf'), float('-inf')):
        return t.INF if d > 0 else neg(t.INF)
    if d != 0:
        for k in (1, 2, Fraction(1, 2), 4, Fraction(1, 4), Fraction(1, 3), Fraction(2, 3), Fraction(1, 6),
                  Fraction(3, 2), Fraction(1, 180), -1, -2, Fraction(-1, 2)):
            if abs(d - PI_F * float(k)) <= 4e-16 * abs(d):
                return mul(num(k), t.PI)
        if abs(d - 180 / PI_F) < 1e-13:
            return mul(num(180), t.inv(t.PI))
    if src is not None:
        return num(src)
    # shortest decimal
    return num(Fraction(repr(d)))


class Interp:
    def __init__(self, P, opaque=None, inline_limit=120):
        self.P = P
        self.cells = {LOG: EMPTY}
        self.ncell = 1
        self.ctype = {}
        self.facts = ()
        t.Facts.cur = ()
        self.binders = []
        self.callstack = []
        self.pending = []
        self.bounds = False          # record accesses to elements that may not exist
        self.accesses = 0
        self.opaque = opaque or {}
        self.lambdas = {}
        self.sites = {}
        self.globals = {}
        self.exp_memo = {}
        self.limit = inline_limit
        self.fold_used = []
        self.funcs_seen = {}
        self.calls_seen = 0
        self.loops_seen = {}
        self.reads_unset = []
        self.opaque_seen = set()
        self.dead = {}           # automatic objects of returned functions
        self.standins = {}       # cells that stand for the target of a moving pointer -> whether there is one
        self.dangling = {}       # those used all the same: (object, owner) -> user
        import models
        self.M = models.Models(self)

    # ------------------------------------------------------------ types
    def ty(self, tid):
        if tid is None or tid < 0:
            return {'k': 'void', 's': 'void'}
        return self.P.types[tid]

    def is_ref(self, tid):
        return bool(self.ty(tid).get('ref'))

    def tn(self, tid):
        return self.ty(tid).get('tn')

    def record(self, tid):
        ty = self.ty(tid)
        if ty.get('k') != 'rec':
            return None
        return self.P.records.get(ty['rec'])

    def elem_tid(self, tid):
        ty = self.ty(tid)
        if ty.get('k') == 'array':
            return ty['to']
        ta = ty.get('targs')
        if ta and 't' in ta[0]:
            return ta[0]['t']
        return None

    def num_kind(self, tid):
        ty = self.ty(tid)
        k = ty.get('k')
        if k == 'int':
            return 'nat' if ty.get('u') else 'int'
        if k == 'enum':
            return 'int'
        if k == 'float':
            return 'real'
        if k == 'bool':
            return 'bool'
        if ty.get('tn') == VARIABLE:
            return 'real'
        if ty.get('tn') in ('std::chrono::duration', 'std::chrono::time_point'):
            return 'real'
        return 'obj'

    def fields(self, tid):
        r = self.record(tid)
        if r is None:
            return None
        if r.get('repo') or self.tn(tid) in ('sleipnir::SolverStatus', 'sleipnir::SolverConfig',
                                             'sleipnir::SolverIterationInfo'):
            fs = [(f['n'] or '#%d' % i, f['t'], f) for i, f in enumerate(r.get('fields') or [])]
            for b in r.get('bases') or []:
                bf = self.fields(b)
                if bf:
                    fs = bf + fs
            return fs
        return None

    def expand(self, tid, o):
        """Typed value of an opaque object."""
        k = (tid, o.id)
        r = self.exp_memo.get(k)
        if r is None:
            r = self._expand(tid, o)
            self.exp_memo[k] = r
        return r

    def _expand(self, tid, o):
        if o.op not in ('obj', 'phi', 'bph', 'fold', 'uf', 'payload', 'seqobj'):
            return o
        ty = self.ty(tid)
        nk = self.num_kind(tid)
        if nk != 'obj':
            if o.op == 'obj':
                if nk == 'bool':
                    return mk('bobj', *o.args[:-1])
                return atom(mk('obj', *o.args[:-1], nk))
            if nk == 'bool':
                return o
            if o.op == 'uf':
                return atom(mk('uf', o.args[0], nk, *o.args[2:]))
            return atom(o)
        if ty.get('tn') in SEQ_TN:
            return seq(opq(o))
        fs = self.fields(tid)
        if fs is not None:
            if not fs:
                return mk('rec', ty['s'], ())
            return mk('rec', ty['s'], tuple(n for n, _, _ in fs),
                      *[self.expand(ft, t.ofld(o, n)) for n, ft, _ in fs])
        return o

    def sym(self, name, tid):
        return self.expand(tid, t.osym(name))

    # ------------------------------------------------------------ store
    def new_cell(self, v, tid=None):
        c = self.ncell
        self.ncell += 1
        self.cells[c] = v
        if tid is not None:
            self.ctype[c] = tid
        return mk('ref', c)

    def proj(self, v, p):
        if isinstance(p, str):
            if v.op == 'rec':
                try:
                    return v.args[2 + v.args[1].index(p)]
                except ValueError:
                    raise Unsupported('no field %s in %s' % (p, v.args[0]))
            if v.op == 'ite':
                return ite(v.args[0], self.proj(v.args[1], p), self.proj(v.args[2], p))
            if v.op == 'obj':
                return t.ofld(v, p)
            raise Unsupported('field %s of %s' % (p, v.op))
        if p.op == 'ix':
            tid = p.args[1]
            if v.op in ('obj', 'phi'):
                return self.expand(tid, t.oget(v, p.args[0]))
            return t.get(v, p.args[0], lambda o: self.expand(tid, o))
        if p.op == 'alt':
            return self.M.alt_payload(v, p.args[0], p.args[1])
        raise Unsupported('path %s' % p.op)

    def per_target(self, r, f):
        c = self.decide(r.args[0])
        if c is TRUE:
            return f(r.args[1])
        if c is FALSE:
            return f(r.args[2])
        with self.with_facts(c):
            a = f(r.args[1])
        with self.with_facts(not_(c)):
            b = f(r.args[2])
        return ite(c, a, b)

    def nonnull(self, v):
        if v is NULL:
            return FALSE
        if v.op == 'ite':
            return ite(v.args[0], self.nonnull(v.args[1]), self.nonnull(v.args[2]))
        if v.op == 'ref' and v.args[0] in self.standins:
            return self.standins[v.args[0]]
        return TRUE

    def pointer_eq(self, a, b):
        if a.op == 'ite':
            return ite(a.args[0], self.pointer_eq(a.args[1], b), self.pointer_eq(a.args[2], b))
        if b.op == 'ite':
            return self.pointer_eq(b, a)
        if a is NULL:
            return not_(self.nonnull(b))
        if b is NULL:
            return not_(self.nonnull(a))
        if a is b:
            return TRUE
        if a.op == b.op == 'ref' and a.args[0] != b.args[0] and not {a.args[0], b.args[0]} & set(self.standins):
            return FALSE
        if a.op == b.op == 'ref' and a.args[0] == b.args[0]:
            # places in one object: the same one when the same members and indices lead there
            same = TRUE
            for p, q in zip(a.args[1:], b.args[1:]):
                po, qo = getattr(p, 'op', 'fld'), getattr(q, 'op', 'fld')
                if po != qo:
                    break
                if po == 'ix':
                    same = and_(same, eq0(sub(p.args[0], q.args[0])))
                elif p != q:
                    return FALSE
            else:
                if len(a.args) == len(b.args):
                    return same
            if same is FALSE:
                return FALSE
        raise Unsupported('comparison of pointers')

    def read(self, r):
        if r.op == 'ite':
            return self.per_target(r, self.read)
        if r is NULL:
            return UNDEF
        if r.op != 'ref':
            raise Unsupported('read through %s' % t.show(r))
        v = self.cells[r.args[0]]
        if r.args[0] in self.dead:
            self.dangling.setdefault(self.dead[r.args[0]], self.callstack[-1] if self.callstack else None)
        for p in r.args[1:]:
            v = self.proj(v, p)
        return v

    def setpath(self, v, path, nv):
        if not path:
            return nv
        p = path[0]
        if isinstance(p, str):
            if v.op == 'ite':
                return ite(v.args[0], self.setpath(v.args[1], path, nv), self.setpath(v.args[2], path, nv))
            if v.op != 'rec':
                raise Unsupported('write to field %s of %s' % (p, v.op))
            i = 2 + v.args[1].index(p)
            return mk('rec', *v.args[:i], self.setpath(v.args[i], path[1:], nv), *v.args[i + 1:])
        if p.op == 'ix':
            if len(path) > 1:
                nv = self.setpath(self.proj(v, p), path[1:], nv)
            return t.update(v, p.args[0], nv)
        raise Unsupported('write through %s' % p.op)

    def write(self, r, v):
        if r.op == 'ite' and self.decide(r.args[0]) in (TRUE, FALSE):
            self.write(r.args[1 if self.decide(r.args[0]) is TRUE else 2], v)
            return
        if r.op == 'ite':
            old = self.read(r.args[1])
            self.write(r.args[1], ite(r.args[0], v, old))
            old = self.read(r.args[2])
            self.write(r.args[2], ite(r.args[0], old, v))
            return
        if r.op != 'ref':
            raise Unsupported('write through %s' % t.show(r))
        c = r.args[0]
        if c in self.dead:
            self.dangling.setdefault(self.dead[c], self.callstack[-1] if self.callstack else None)
        self.cells[c] = self.setpath(self.cells[c], r.args[1:], v)

    def sub_ref(self, r, p):
        if r.op == 'ite':
            return self.per_target(r, lambda z: self.sub_ref(z, p))
        if r is NULL:
            return NULL
        if r.op != 'ref':
            raise Unsupported('member of %s' % t.show(r))
        return mk('ref', *r.args, p)

    def event(self, name, loc, *args):
        e = mk('ev', name, self.locstr(loc), *args)
        self.cells[LOG] = cat(self.cells[LOG], seq(elem(e)))

    def gated(self, name, loc, c, *args):
        e = mk('ev', name, self.locstr(loc), *args)
        self.cells[LOG] = cat(self.cells[LOG], t.ifseg(c, seq(elem(e))))

    def locstr(self, loc):
        if not loc:
            return '?'
        f = loc[0]
        for pre in ('/repo/', self.P_repo()):
            if f.startswith(pre):
                f = f[len(pre):]
        return '%s:%s' % (f, loc[1])

    def P_repo(self):
        import extract
        return extract.REPO + '/'

    # facts ------------------------------------------------------------
    def with_facts(self, *fs):
        return _Facts(self, fs)

    def decide(self, c):
        return t.decide(c)

    # ------------------------------------------------------------ flows
    def merge_cells(self, c, a, b):
        """cells that are a when c holds, else b."""
        if a is b:
            return a
        out = {}
        for k, v in a.items():
            w = b.get(k)
            if w is None or w is v:
                out[k] = v
            else:
                try:
                    with self.with_facts():
                        out[k] = ite(c, v, w)
                except TypeError as e:
                    raise Unsupported('merge: %s' % e)
        for k, v in b.items():
            if k not in out:
                out[k] = v
        return out

    def merge_flow(self, c, f, g):
        """f under c, g under not c."""
        out = {}
        for k in set(f.k) | set(g.k):
            if k in f.k and k in g.k:
                cf, sf, vf = f.k[k]
                cg, sg, vg = g.k[k]
                cond = or_(and_(c, cf), and_(not_(c), cg))
                if vf is None or vg is None:
                    v = vf if vf is not None else vg
                else:
                    v = ite(c, vf, vg) if vf is not vg else vf
                out[k] = (cond, self.merge_cells(c, sf, sg), v)
            elif k in f.k:
                cf, sf, vf = f.k[k]
                out[k] = (and_(c, cf), sf, vf)
            else:
                cg, sg, vg = g.k[k]
                out[k] = (and_(not_(c), cg), sg, vg)
        return Flow({k: v for k, v in out.items() if v[0] is not FALSE})

    def join(self, early, late):
        """early: flows already left; late: flows of what follows (exclusive)."""
        out = dict(early.k)
        for k, (c2, s2, v2) in late.k.items():
            if k in out:
                c1, s1, v1 = out[k]
                v = v1 if v2 is None or v1 is v2 else (v2 if v1 is None else ite(c1, v1, v2))
                out[k] = (or_(c1, c2), self.merge_cells(c1, s1, s2), v)
            else:
                out[k] = (c2, s2, v2)
        return Flow(out)

    def take_pending(self, flow):
        """Exceptions thrown inside an expression leave the statement."""
        if not self.pending:
            return flow
        ps, self.pending = self.pending, []
        for c, cells, v in ps:
            th = Flow({'t': (c, cells, v)})
            out = {}
            for k, (c2, s2, v2) in flow.k.items():
                out[k] = (and_(c2, not_(c)), s2, v2)
            flow = self.join(th, Flow(out))
        return flow

    # ------------------------------------------------------------ statements
    def exec(self, s, F):
        """Executes from self.cells; returns the flow (self.cells is then stale)."""
        if s is None:
            return Flow({'n': (TRUE, self.cells, None)})
        k = s['s']
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported('statement %s %s' % (k, s.get('cls', '')), s.get('l'))
        try:
            fl = m(s, F)
        except Unsupported as e:
            if e.loc is None:
                e.loc = s.get('l')
            raise
        return self.take_pending(fl)

    def normal(self):
        return Flow({'n': (TRUE, self.cells, None)})

    def s_block(self, s, F):
        return self.exec_list(s['b'], F)

    def exec_list(self, stmts, F):
        done = Flow()
        cond = TRUE
        saved = self.facts
        try:
            for st in stmts:
                if st is None:
                    continue
                fl = self.exec(st, F)
                if cond is not TRUE:
                    fl = Flow({k: (and_(cond, c), x, v) for k, (c, x, v) in fl.k.items()})
                n = fl.k.pop('n', None)
                done = self.join(done, fl)
                if n is None or n[0] is FALSE:
                    return done
                if n[0] is not cond:
                    self.set_facts(self.facts + (n[0],))
                cond = n[0]
                self.cells = n[1]
            out = Flow(dict(done.k))
            out.k['n'] = (cond, self.cells, None)
            return out
        finally:
            self.set_facts(saved)

    def set_facts(self, f):
        self.facts = f
        t.Facts.cur = f

    def s_null(self, s, F):
        return self.normal()

    def s_expr(self, s, F):
        x = s['x']
        if x and x['e'] == 'throw':
            v = self.rv(x['sub'], F) if x.get('sub') else VOID
            return Flow({'t': (TRUE, self.cells, v)})
        self.cells = dict(self.cells)
        self.ev(x, F)
        return self.normal()

    def s_return(self, s, F):
        v = VOID
        self.cells = dict(self.cells)
        if s['x'] is not None:
            if self.is_ref(F.fn['rt']):
                v = self.ev(s['x'], F)
            else:
                v = self.rv(s['x'], F)
        return Flow({'r': (TRUE, self.cells, v)})

    def s_break(self, s, F):
        return Flow({'b': (TRUE, self.cells, None)})

    def s_continue(self, s, F):
        return Flow({'c': (TRUE, self.cells, None)})

    def s_decl(self, s, F):
        self.cells = dict(self.cells)
        for d in s['d']:
            self.decl(d, F)
        return self.normal()

    def decl(self, d, F):
        vid = tup(d['id'])
        tid = d['t']
        if d.get('static'):
            F.env[vid] = self.global_ref(d['gid'], tid)
            return
        x = d.get('init')
        if self.is_ref(tid):
            r = self.ev(x, F)
            if r.op not in ('ref', 'ite'):
                r = self.new_cell(r, tid)
            F.env[vid] = r
        else:
            r = self.new_cell(UNDEF, tid)
            F.env[vid] = r
            F.autos.append((r.args[0], (d.get('n') or 'a local object', F.fn['qn'])))
            if x is None:
                self.cells[r.args[0]] = self.default_value(tid, undef=True)
            else:
                self.init_into(r, x, F, tid)
        if d.get('bindings'):
            self.bind(d, F, r)

    def init_into(self, r, x, F, tid=None):
        """Initialise the storage r from the expression x (with copy elision)."""
        y = self.peel(x)
        if y['e'] == 'ctor' and not (y.get('copy') or y.get('move')):
            if self.ctor_def(y) is not None:
                self.run_ctor(y, F, r)
                return
        v = self.rv(x, F)
        if tid is not None:
            v = self.coerce(v, tid)
        self.write(r, v)

    def coerce(self, v, tid):
        """An opaque value entering storage of a known type."""
        if v.op == 'obj' and v is not UNDEF:
            return self.expand(tid, v)
        return v

    def peel(self, x):
        while x['e'] in ('temp',) or (x['e'] == 'cast' and x['ck'] in ('NoOp', 'ConstructorConversion') and
                                      not x.get('vc')):
            x = x['sub']
        return x

    def bind(self, d, F, r):
        src = d.get('init')
        tid = self.under(d['t'])
        ty = self.ty(tid)
        fs = self.fields(tid)
        bs = d['bindings']
        if bs and 'hold' in bs[0]:
            # tuple-like: get<i>
            for i, b in enumerate(bs):
                F.env[tup(b['id'])] = self.M.tuple_get_binding(r, tid, i, b, F)
            return
        if fs is not None and len(fs) == len(bs):
            for (n, ft, _), b in zip(fs, bs):
                F.env[tup(b['id'])] = self.sub_ref(r, n)
            return
        if ty.get('k') == 'array' or ty.get('tn') == 'std::array':
            for i, b in enumerate(bs):
                F.env[tup(b['id'])] = self.sub_ref(r, mk('ix', num(i), self.elem_tid(tid)))
            return
        raise Unsupported('structured binding of %s' % ty.get('s'))

    def under(self, tid):
        """Type id with references stripped (the table keys types structurally)."""
        ty = self.ty(tid)
        return tid

    def s_if(self, s, F):
        self.cells = dict(self.cells)
        if s.get('init'):
            fl = self.exec(s['init'], F)
            self.cells = dict(fl.k['n'][1])
        if s.get('cv'):
            self.decl(s['cv'], F)
        c = self.decide(self.truth(self.rv(s['c'], F)))
        return self.branch(c, lambda: self.exec(s['a'], F), lambda: self.exec(s['b'], F))

    def branch(self, c, fa, fb):
        base = self.cells
        if c is TRUE:
            return fa()
        if c is FALSE:
            return fb()
        self.cells = dict(base)
        with self.with_facts(c):
            f = fa()
        self.cells = dict(base)
        with self.with_facts(not_(c)):
            g = fb()
        return self.merge_flow(c, f, g)

    def s_switch(self, s, F):
        self.cells = dict(self.cells)
        if s.get('init'):
            fl = self.exec(s['init'], F)
            self.cells = dict(fl.k['n'][1])
        if s.get('cv'):
            self.decl(s['cv'], F)
        v = self.rv(s['c'], F)
        flat = []
        labels = []

        def add_stmt(st):
            if st is None:
                return
            if st['s'] == 'case':
                labels.append((self.rv(st['v'], F), len(flat)))
                add_stmt(st['b'])
            elif st['s'] == 'default':
                labels.append((None, len(flat)))
                add_stmt(st['b'])
            else:
                flat.append(st)
        for st in (s['b']['b'] if s['b']['s'] == 'block' else [s['b']]):
            add_stmt(st)
        default = [p for c, p in labels if c is None]

        def run(p):
            return lambda: self.exec_list(flat[p:], F)

        def chain(ls):
            if not ls:
                return run(default[0])() if default else self.normal()
            c, p = ls[0]
            return self.branch(self.decide(eq0(sub(v, c))), run(p), lambda: chain(ls[1:]))
        fl = chain([l for l in labels if l[0] is not None])
        return self.break_to_normal(fl)

    def break_to_normal(self, fl):
        b = fl.k.pop('b', None)
        if b is None:
            return fl
        return self.join(Flow({'n': b}), fl) if 'n' in fl.k else Flow(dict(fl.k, n=b))

    def s_try(self, s, F):
        fl = self.exec(s['b'], F)
        th = fl.k.pop('t', None)
        if th is None or not s['h']:
            return fl
        h = s['h'][0]
        self.cells = dict(th[1])
        if h.get('v'):
            F.env[tup(h['v']['id'])] = self.new_cell(th[2] or UNDEF)
        with self.with_facts(th[0]):
            g = self.exec(h['b'], F)
        g = Flow({k: (and_(th[0], c), x, v) for k, (c, x, v) in g.k.items()})
        return self.join(g, fl)

    # ------------------------------------------------------------ loops
    def s_for(self, s, F):
        self.cells = dict(self.cells)
        if s.get('init'):
            fl = self.exec(s['init'], F)
            self.cells = dict(fl.k['n'][1])

        def cond():
            if s.get('cv'):
                self.decl(s['cv'], F)
            if s['c'] is None:
                return TRUE
            return self.truth(self.rv(s['c'], F))
        inc = (lambda: self.ev(s['inc'], F)) if s.get('inc') else None
        return self.loop(s, cond, lambda k: self.exec(s['b'], F), inc)

    def s_while(self, s, F):
        def cond():
            if s.get('cv'):
                self.decl(s['cv'], F)
            return self.truth(self.rv(s['c'], F))
        return self.loop(s, cond, lambda k: self.exec(s['b'], F), None)

    def s_do(self, s, F):
        # do B while (C)  ==  run B once, then while (C) B; breaks of the first copy leave
        once = self.exec(s['b'], F)
        brk = once.k.pop('b', None)
        c = once.k.pop('c', None)
        if c is not None:
            once = self.join(Flow({'n': c}), once)
        n = once.k.pop('n', None)
        out = once
        if n is not None:
            self.cells = dict(n[1])
            with self.with_facts(n[0]):
                fl = self.s_while(s, F)
            fl = Flow({k: (and_(n[0], c2), x, v) for k, (c2, x, v) in fl.k.items()})
            out = self.join(out, fl)
        if brk is not None:
            out = self.join(Flow({'n': brk}), out)
        return out

    def s_range(self, s, F):
        self.cells = dict(self.cells)
        if s.get('init'):
            fl = self.exec(s['init'], F)
            self.cells = dict(fl.k['n'][1])
        r = self.ev(s['r'], F)
        cnt, at = self.M.range_of(r, s['r']['t'])
        d = s['v']

        def body(k):
            e = at(k)          # a reference or a value
            x = d.get('init')
            if self.is_ref(d['t']):
                if e.op not in ('ref', 'ite') or (e.op == 'ite' and e.args[1].op not in ('ref', 'ite')):
                    e = self.new_cell(e, d['t'])
                cell = e
            else:
                v = self.read(e) if e.op == 'ref' else e
                v = self.M.convert_init(v, d['t'], x)
                cell = self.new_cell(v, d['t'])
            F.env[tup(d['id'])] = cell
            if d.get('bindings'):
                self.bind(d, F, cell)
            return self.exec(s['b'], F)
        tail = self.known_tail(r)
        if tail:
            base, npend = self.cells, len(self.pending)
            head = sub(cnt, num(tail))
            fl = self.loop(s, None, body, None, count=head)
            if set(fl.k) == {'n'} and fl.k['n'][0] is TRUE:
                self.cells = fl.k['n'][1]
                rest = self.unroll(None, lambda k: body(add(head, k)), None, num(tail))
                if rest is not None:
                    return rest
            self.cells = base
            del self.pending[npend:]
        return self.loop(s, None, body, None, count=cnt)

    def known_tail(self, r):
        """How many single elements follow the parts of unknown length."""
        v = self.read(r) if r.op == 'ref' else r
        if v.op != 'seq' or not v.args or v.args[0].op == 'elem':
            return 0
        n = 0
        for g in reversed(v.args):
            if g.op != 'elem' or n == 4:
                break
            n += 1
        return n

    def count_loop(self, count, body, node=None):
        """Library loops: body(k) mutates self.cells; no early exit."""
        def b(k):
            body(k)
            return self.normal()
        fl = self.loop(node or {'l': None}, None, b, None, count=count)
        self.cells = fl.k['n'][1]

    def iterate(self, cond, body, inc, k, count):
        """One symbolic iteration from self.cells."""
        self.cells = dict(self.cells)
        facts = []
        if count is not None:
            facts.append(lt0(sub(k, count)))
            C = TRUE
        else:
            C = self.decide(cond()) if cond else TRUE
        after_cond = self.cells
        self.cells = dict(self.cells)
        if C is FALSE:
            return C, after_cond, Flow()
        with self.with_facts(*([C] if C is not TRUE else []) + facts):
            fl = body(k)
            c = fl.k.pop('c', None)
            if c is not None:
                fl = self.join(Flow({'n': c}), fl)
            n = fl.k.get('n')
            if n is not None and inc is not None:
                self.cells = dict(n[1])
                with self.with_facts(n[0]):
                    inc()
                fl.k['n'] = (n[0], self.cells, None)
        return C, after_cond, fl

    def loop(self, node, cond, body, inc, count=None):
        self.loops_seen[self.locstr(node.get('l'))] = True
        base = self.cells
        # concrete short trip counts are unrolled
        r = self.unroll(cond, body, inc, count)
        if r is not None:
            return r
        self.cells = base
        return self.general_loop(node, cond, body, inc, count)

    def unroll(self, cond, body, inc, count):
        done = Flow()
        cnd = TRUE
        saved = self.facts
        if count is not None:
            c = t.const_of(count)
            if c is None or c > 12:
                return None
        try:
            for i in range(14):
                if count is not None:
                    if i >= c:
                        break
                else:
                    if i == 13:
                        return None
                    probe = dict(self.cells)
                    self.cells = dict(probe)
                    C = self.decide(cond()) if cond else TRUE
                    self.cells = probe
                    if C is FALSE:
                        break
                    if C is not TRUE or cond is None:
                        return None
                self.binders.append(num(i))
                try:
                    C, ac, fl = self.iterate(cond, body, inc, num(i), None if count is not None else None)
                finally:
                    self.binders.pop()
                if cnd is not TRUE:
                    fl = Flow({k: (and_(cnd, c0), x, v) for k, (c0, x, v) in fl.k.items()})
                n = fl.k.pop('n', None)
                b = fl.k.pop('b', None)
                if b is not None:
                    fl.k['B'] = b
                done = self.join(done, fl)
                if n is None or n[0] is FALSE:
                    cnd = FALSE
                    break
                if n[0] is not cnd:
                    self.set_facts(self.facts + (n[0],))
                cnd = n[0]
                self.cells = n[1]
            out = Flow(dict(done.k))
            b = out.k.pop('B', None)
            if cnd is not FALSE:
                n = (cnd, self.cells, None)
                if b is not None:
                    out = self.join(Flow({'n': b}), Flow(dict(out.k, n=n)))
                else:
                    out.k['n'] = n
            elif b is not None:
                out.k['n'] = b
            return out
        finally:
            self.set_facts(saved)

    # leaves -----------------------------------------------------------
    def leaves(self, c, v, path, tid, out):
        if v.op == 'rec':
            names = v.args[1]
            fts = {}
            if tid is not None:
                fs = self.fields(tid)
                if fs:
                    fts = {n: ft for n, ft, _ in fs}
            for n, x in zip(names, v.args[2:]):
                self.leaves(c, x, path + (n,), fts.get(n), out)
        else:
            out.append(((c, path), v, tid))

    def changed(self, a, b):
        out = []
        for c, v in a.items():
            w = b.get(c)
            if w is None or w is v:
                continue
            self.diff(c, v, w, (), self.ctype.get(c), out)
        return out

    def diff(self, c, v, w, path, tid, out):
        if v is w:
            return
        if v.op == 'rec' and w.op == 'rec' and v.args[:2] == w.args[:2]:
            fts = {}
            if tid is not None:
                fs = self.fields(tid)
                if fs:
                    fts = {n: ft for n, ft, _ in fs}
            for n, x, y in zip(v.args[1], v.args[2:], w.args[2:]):
                self.diff(c, x, y, path + (n,), fts.get(n), out)
            return
        if v.op == 'seq' and w.op == 'seq' and len(v.args) == len(w.args) and v.args and c != LOG and \
                all(g is h or g.op == h.op == 'elem' for g, h in zip(v.args, w.args)):
            et = self.elem_tid(tid) if tid is not None else None
            at = num(0)
            for g, h in zip(v.args, w.args):
                if g is not h:
                    self.diff(c, g.args[0], h.args[0], path + (mk('ix', at, -1 if et is None else et),), et, out)
                at = add(at, t.seglen(g))
            return
        out.append(((c, path), v, tid))

    def leaf_get(self, cells, leaf):
        v = cells[leaf[0]]
        for p in leaf[1]:
            v = self.proj(v, p)
        return v

    def leaf_set(self, cells, leaf, x):
        cells[leaf[0]] = self.setpath(cells[leaf[0]], leaf[1], x)

    def phi_for(self, v, tid, base=None):
        """(placeholder, value form) for a leaf with current value v."""
        if v.op == 'poly':
            kd = self.num_kind(tid) if tid is not None else None
            if kd in (None, 'obj', 'bool'):
                kd = 'int' if t.is_int(v) else 'real'
                if tid is None:
                    kd = 'real'
            p = t.fresh_phi(kd)
            return p, atom(p)
        if t.is_bool(v):
            p = t.fresh_phi('bool')
            return p, p
        if t.is_seq(v):
            p = t.fresh_phi('obj')
            return p, seq(opq(p))
        p = t.fresh_phi('obj')
        if tid is not None and self.ty(tid)['k'] == 'ptr' and 'to' in self.ty(tid) and base is not None and \
                (v is UNDEF or v is NULL or is_refish(v)):
            # a pointer that moves: a stand-in for what it points to, until its target is known
            to = self.ty(tid)['to']
            base_cell = self.ncell
            self.ncell += 1
            base[base_cell] = self.expand(to, p)
            self.ctype[base_cell] = to
            self.standins[base_cell] = t.mk('buf', 'nonnull', p)
            return p, mk('ref', base_cell)
        if tid is not None and v is not UNDEF:
            return p, self.expand(tid, p) if self.num_kind(tid) == 'obj' else p
        if v is UNDEF and tid is not None and self.num_kind(tid) != 'obj':
            kd = self.num_kind(tid)
            p = t.fresh_phi(kd)
            return p, (p if kd == 'bool' else atom(p))
        return p, p

    def general_loop(self, node, cond, body, inc, count):
        base = self.cells
        k = t.fresh_bv()
        ka = atom(k)
        phis = {}      # leaf -> (phi, value form, init, tid)
        solved = {}    # leaf -> value at iteration k (function of k)
        resized = set()
        saved_facts = self.facts
        self.binders.append(ka)
        res = None
        try:
            for rnd in range(40):
                entry = dict(base)
                for leaf, (p, form, init, tid) in phis.items():
                    self.leaf_set(entry, leaf, solved.get(leaf, form))
                self.cells = dict(entry)
                C, after_cond, fl = self.iterate(cond, body, inc, ka, count)
                n = fl.k.get('n')
                new = []
                if n is not None:
                    for leaf, v, tid in self.changed(entry, n[1]):
                        if leaf not in phis:
                            new.append((leaf, v, tid))
                    for leaf, v, tid in self.changed(entry, after_cond):
                        if leaf not in phis and all(leaf != x[0] for x in new):
                            new.append((leaf, v, tid))
                if new:
                    for leaf, v, tid in new:
                        if leaf[0] in self.standins:
                            raise Unsupported('write through a pointer that moves', node.get('l'))
                        # a leaf may be refined by an already tracked prefix
                        for q in [q for q in phis if q[0] == leaf[0] and q[1][:len(leaf[1])] == leaf[1]]:
                            # the shape changes after all: track the whole instead of its parts
                            del phis[q]
                            solved.pop(q, None)
                            v = self.leaf_get(base, leaf)
                            solved.clear()
                        p, form = self.phi_for(v, tid, base)
                        phis[leaf] = (p, form, v, tid)
                        if leaf[0] != LOG and leaf not in resized and t.is_seq(v) and t.is_seq(form) and \
                                t.length(self.leaf_get(n[1], leaf)) is t.length(v):
                            # a guess, checked below: its elements change, not their number
                            t.LEN_OVERRIDE[p] = t.length(v)
                    continue
                if n is None:
                    break
                wrong = [leaf for leaf, (p, form, init, tid) in phis.items() if p in t.LEN_OVERRIDE and
                         t.length(self.leaf_get(n[1], leaf)) is not t.LEN_OVERRIDE[p]]
                if wrong:
                    for leaf in wrong:
                        resized.add(leaf)
                        p, form, init, tid = phis[leaf]
                        p, form = self.phi_for(init, tid, base)
                        phis[leaf] = (p, form, init, tid)
                    solved.clear()
                    continue
                unsolved = {ph[0] for leaf, ph in phis.items() if leaf not in solved}
                progress = False
                for leaf, (p, form, init, tid) in phis.items():
                    if leaf in solved:
                        continue
                    nxt = self.leaf_get(n[1], leaf)
                    s = self.solve(p, form, nxt, init, k, ka, unsolved, leaf)
                    if s is not None:
                        solved[leaf] = s
                        progress = True
                        # one structural leaf at a time keeps the facts precise
                if not progress:
                    part = self.closed_part(phis, solved, n[1])
                    if part is None:
                        break
                    self.fold_leaves(node, part, phis, solved, n[1], k, ka)
            else:
                raise Unsupported('loop did not stabilise', node.get('l'))
        finally:
            self.binders.pop()
            self.set_facts(saved_facts)
        # whatever is left becomes a joint fold
        hard = [leaf for leaf in phis if leaf not in solved]
        sub_ = {}
        if hard and fl.k.get('n') is not None:
            sub_ = self.fold_leaves(node, hard, phis, solved, fl.k['n'][1], k, ka)
        S = (lambda x: t.subst(x, sub_)) if sub_ else (lambda x: x)

        def subcells(cells):
            if not sub_:
                return cells
            return {c: S(v) for c, v in cells.items()}
        C = S(C)
        # early exits
        stops = {kk: (S(c0), subcells(x), S(v) if v is not None else None)
                 for kk, (c0, x, v) in fl.k.items() if kk != 'n'}
        n0, extra = self.trip_count(C, k, count)
        stopc = or_(not_(extra), *[c0 for c0, _, _ in stops.values()]) if True else FALSE
        if extra is TRUE:
            stopc = or_(*[c0 for c0, _, _ in stops.values()]) if stops else FALSE
        if stopc is FALSE:
            m = t.pos(n0) if n0 is not t.INF else n0
            if n0 is t.INF:
                raise Unsupported('loop without an exit', node.get('l'))
            m = self.simplify(m)
        else:
            m = t.first_(n0 if n0 is t.INF else t.pos(n0), k, stopc)
        # state when the loop ends normally: entry state of iteration m, after the condition
        fin = dict(base)
        for leaf in phis:
            v = solved[leaf]
            fin_v = self.at_end(v, k, m, phis[leaf][2])
            self.leaf_set(fin, leaf, fin_v)
        if cond is not None and self.cond_effects(entry, after_cond):
            # side effects of the last evaluation of the condition
            self.cells = dict(fin)
            cond()
            fin = self.cells
        out = Flow()
        if not stops:
            out.k['n'] = (TRUE, fin, None)
            return out
        M = {k: m}
        if extra is TRUE:
            ended = t.none_(t.pos(n0) if n0 is not t.INF else n0, k, stopc)
        else:
            body_stop = or_(*[c0 for c0, _, _ in stops.values()])
            ended = t.none_(t.pos(n0) if n0 is not t.INF else n0, k,
                            and_(body_stop, extra)) if False else not_(
                and_(lt0(sub(m, n0)) if n0 is not t.INF else TRUE, t.subst(and_(extra, body_stop), M)))
        flow = Flow({'n': (ended, fin, None)})
        stopped = not_(ended)
        for kk in ('b', 'r', 't'):
            if kk not in stops:
                continue
            c0, cells, v = stops[kk]
            others = [stops[q][0] for q in stops if q != kk]
            cm = and_(stopped, t.subst(c0, M)) if others else stopped
            cells2 = {}
            for c, x in cells.items():
                if c in base:
                    cells2[c] = t.subst(x, M) if k in x.fv else x
            flow_k = (cm, cells2, t.subst(v, M) if v is not None else None)
            key = 'n' if kk == 'b' else kk
            flow = self.join(Flow({key: flow_k}), flow)
        return flow

    def closed_part(self, phis, solved, cells):
        """A proper, self-contained part of the unsolved state (without the log)."""
        hard = [l for l in phis if l not in solved]
        owner = {phis[l][0]: l for l in hard}
        deps = {l: {owner[p] for p in self.leaf_get(cells, l).fv if p in owner} for l in hard}
        best = None
        for l in hard:
            if l[0] == LOG:
                continue
            s = {l}
            st = [l]
            while st:
                for d in deps[st.pop()]:
                    if d not in s:
                        s.add(d)
                        st.append(d)
            if len(s) < len(hard) and all(x[0] != LOG for x in s) and (best is None or len(s) < len(best)):
                best = s
        return None if best is None else [l for l in hard if l in best]

    def fold_leaves(self, node, hard, phis, solved, cells, k, ka):
        """State without a closed form becomes a joint fold."""
        sub_ = {}
        if any(phis[l][1].op == 'ref' for l in hard):
            raise Unsupported('a pointer whose target has no closed form', node.get('l'))
        self.fold_used.append((self.locstr(node.get('l')), [(l[0], l[1]) for l in hard]))
        ps = [phis[l][0] for l in hard]
        inits = [phis[l][2] for l in hard]
        nx = [self.leaf_get(cells, l) for l in hard]
        for i, l in enumerate(hard):
            if inits[i].op != 'poly' and phis[l][0].args[1] in ('real', 'nat', 'int'):
                inits[i] = num(0) if inits[i] is UNDEF else inits[i]
        j = t.fresh_bv()
        nxj = [t.subst(x, {k: atom(j)}) for x in nx]
        for i, l in enumerate(hard):
            f = t.fold_(ka, j, list(inits), ps, nxj, i)
            p, form, init, tid = phis[l]
            sub_[p] = f
            if p.args[1] == 'obj':
                f2 = seq(opq(f)) if t.is_seq(init) and not t.is_seq(f) else f
                if not t.is_seq(init) and form is not p and f.op in ('fold', 'obj'):
                    f2 = self.expand(tid, f)
                solved[l] = f2
            else:
                solved[l] = f
        return sub_

    def at_end(self, v, k, m, init):
        if k not in v.fv:
            return v
        return t.subst(v, {k: m})

    def cond_effects(self, a, b):
        return any(b.get(c) is not v for c, v in a.items())

    def simplify(self, m):
        a = t.single_atom(m)
        if a is not None and a.op == 'max' and len(a.args) == 2:
            z = [x for x in a.args if t.const_of(x) == 0]
            o = [x for x in a.args if t.const_of(x) != 0]
            if z and o and self.decide(le0(neg(o[0]))) is TRUE:
                return o[0]
        return m

    def trip_count(self, C, k, count):
        """(n, extra): C(k) == (k < n) and extra(k)."""
        n = t.INF if count is None else count
        if C is TRUE:
            return n, TRUE
        parts = C.args if C.op == 'and' else (C,)
        extra = []
        for c in parts:
            b = self.bound(c, k)
            if b is None:
                extra.append(c)
            elif n is t.INF:
                n = b
            else:
                n = t.minmax('min', [n, b])
        return n, and_(*extra)

    def bound(self, c, k):
        if k not in c.fv:
            return None
        if c.op in ('le0', 'lt0'):
            p = c.args[0]
            a, rest = self.linear(p, k)
            if a is None or a <= 0:
                return None
            b = neg(rest)
            if c.op == 'le0':
                # a*k <= b
                if a == 1 and t.is_int(b):
                    return add(b, num(1))
                return add(t.fn('floor', mul(b, num(Fraction(1) / a))), num(1))
            return t.fn('ceil', mul(b, num(Fraction(1) / a)))
        if c.op == 'not' and c.args[0].op == 'eq0':
            p = c.args[0].args[0]
            a, rest = self.linear(p, k)
            if a in (1, -1):
                b = neg(rest) if a == 1 else rest
                if t.nonneg(b) or self.decide(le0(neg(b))) is TRUE:
                    return b
        return None

    def linear(self, p, k):
        a = None
        rest = {}
        for m, c in p.args:
            if m == ((k, 1),):
                a = Fraction(c)
            elif any(k in x.fv for x, e in m):
                return None, None
            else:
                rest[m] = c
        if a is None:
            return None, None
        return a, t._rawpoly(rest)

    # recurrences ----------------------------------------------------------
    def solve(self, p, form, nxt, init, k, ka, unsolved, leaf):
        others = unsolved - {p}
        if self.standins and self.points_to_standin(nxt, form):
            return init if nxt is form else None
        if not nxt.fv.isdisjoint(others):
            # only the effect log may mention placeholders that are solved later
            return None
        isnum = nxt.op == 'poly' and form.op == 'poly'
        if p not in nxt.fv:
            if nxt is init:
                return init
            # last value
            prev = t.subst(nxt, {k: sub(ka, num(1))}) if k in nxt.fv else nxt
            if init is UNDEF:
                return prev
            return ite(le0(ka), init, prev)
        if nxt is form:
            return init
        if isnum:
            if init.op != 'poly':
                return None
            d = pull_sub(nxt, p)
            if d is not None and p not in d.fv:
                j = t.fresh_bv()
                return add(init, t.sum_(ka, j, t.subst(d, {k: atom(j)})))
            a = t.single_atom(nxt)
            if a is not None and a.op in ('narrow', 'fl32'):
                # what is lost on the way is lost in the end (modulo a power of two; digits)
                r = self.solve(p, form, a.args[-1], init, k, ka, unsolved, leaf)
                if r is not None:
                    return t.fn(a.op, *(a.args[:-1] + (r,)))
            w = self.unwrap_sum(nxt, p)
            mm = as_minmax(nxt, p)
            if mm is not None:
                op, items = mm
                if all(p not in g.fv and p not in e.fv for g, e in items):
                    j = t.fresh_bv()
                    mj = {k: atom(j)}
                    return t.minred(op + 'red', ka, j, init,
                                    [(t.subst(g, mj), t.subst(e, mj)) for g, e in items])
            return None
        if t.is_seq(form) and t.is_seq(nxt):
            return self.solve_seq(p, form, nxt, init, k, ka, leaf)
        return None

    def points_to_standin(self, x, form):
        seen = set()
        st = [x]
        while st:
            y = st.pop()
            if y.id in seen:
                continue
            seen.add(y.id)
            if y.op == 'ref' and y.args[0] in self.standins:
                return True
            st.extend(t.subterms(y))
        return False

    def unwrap_sum(self, nxt, p):
        return None

    def solve_seq(self, p, form, nxt, init, k, ka, leaf):
        if nxt.op == 'seq' and len(nxt.args) == 1 and nxt.args[0].op == 'sub':
            nxt = nxt.args[0].args[0]
        o = opq(p)
        if nxt.op == 'seq':
            # append
            if nxt.args and nxt.args[0] is o:
                rest = mk('seq', *nxt.args[1:])
                rest = self.resolve_lens(rest, p, init, k, ka)
                if rest is None:
                    return None
                if p in rest.fv:
                    rest = self.M.resolve_vals(rest, p, k, ka, init)
                    if rest is None or p in rest.fv:
                        return None
                j = t.fresh_bv()
                return cat(init, t.forseq(ka, j, t.subst(rest, {k: atom(j)})))
            # all branches keep the old sequence and append conditionally
            g = gated_append(nxt, o)
            if g is not None:
                rest = self.resolve_lens(g, p, init, k, ka)
                if rest is not None and p not in rest.fv:
                    j = t.fresh_bv()
                    return cat(init, t.forseq(ka, j, t.subst(rest, {k: atom(j)})))
            u = gated_update(nxt, o)
            if u is not None:
                return self.solve_upd(p, u, init, k, ka)
            return None
        if nxt.op == 'upd':
            # chain of updates at one index expression
            idx = nxt.args[1]
            base = nxt.args[0]
            if base.op == 'seq' and base.args == (o,):
                return self.solve_upd(p, [(TRUE, idx, nxt.args[2])], init, k, ka)
        return None

    def resolve_lens(self, rest, p, init, k, ka):
        """Replace |state| by its closed form."""
        if p not in rest.fv:
            return rest
        L = t.olen(p)
        la = t.single_atom(L)
        if la is None or not t.mentions(rest, la):
            return rest
        inc = t.length(rest)
        if p in inc.fv:
            return rest
        j = t.fresh_bv()
        v = add(t.length(init), t.sum_(ka, j, t.subst(inc, {k: atom(j)})))
        return replace_term(rest, la, v)

    def solve_upd(self, p, ups, init, k, ka):
        if len(ups) != 1:
            return None
        g, idx, val = ups[0]
        raw = mk('obj', 'get', p, idx, None)
        if p in idx.fv or p in g.fv:
            return None
        if k in idx.fv:
            a, rest = self.linear(idx, k)
            if a not in (1, -1):
                return None
            # injective index: the element still has its initial value
            v = replace_get(val, p, idx, lambda kind: t.get(
                init, idx, lambda o: t.as_kind(o, kind), kind))
            if v is None or p in v.fv:
                return None
            if g is not TRUE:
                old = self.get_like(init, idx, val)
                if old is None:
                    return None
                v = ite(g, v, old)
            j = t.fresh_bv()
            mj = {k: atom(j)}
            return t.updfor(init, ka, j, t.subst(idx, mj), t.subst(v, mj))
        if g is not TRUE:
            return None
        # one fixed element: a recurrence on that element
        return self.solve_elem(p, idx, val, init, k, ka)

    def get_like(self, s, idx, val):
        """s[idx] typed like val."""
        def w(o):
            return self.type_like(o, val)
        return t.get(s, idx, w)

    def type_like(self, o, val):
        if o.op != 'obj':
            return o
        if val.op == 'poly':
            return atom(mk('obj', *o.args[:-1], 'nat' if t.is_int(val) and t.nonneg(val) else
                           'int' if t.is_int(val) else 'real'))
        if t.is_bool(val):
            return mk('bobj', *o.args[:-1])
        if t.is_seq(val):
            return seq(opq(o))
        if val.op == 'rec':
            return mk('rec', val.args[0], val.args[1],
                      *[self.type_like(t.ofld(o, n), x) for n, x in zip(val.args[1], val.args[2:])])
        return o

    def solve_elem(self, p, idx, val, init, k, ka):
        old = self.get_like(init, idx, val)
        cur = self.get_like(seq(opq(p)), idx, val)
        r = self.solve_part(p, idx, val, cur, old, k, ka)
        if r is None:
            return None
        nk = t.update(init, idx, r)
        if t.subst(r, {k: num(0)}) is old and self.decide(le0(neg(idx))) is TRUE and \
                self.decide(lt0(sub(idx, t.length(init)))) is TRUE:
            return nk
        return ite(le0(ka), init, nk)

    def solve_part(self, p, idx, val, cur, old, k, ka):
        if val is cur:
            return old
        if val.op == 'rec' and cur.op == 'rec' and old.op == 'rec' and val.args[1] == cur.args[1] == old.args[1]:
            out = []
            for v, c, o in zip(val.args[2:], cur.args[2:], old.args[2:]):
                r = self.solve_part(p, idx, v, c, o, k, ka)
                if r is None:
                    return None
                out.append(r)
            return mk('rec', val.args[0], val.args[1], *out)
        raw = t.raw_of(cur)
        if raw is None:
            return None
        q = t.fresh_phi(self.kind_like(val))
        qform = seq(opq(q)) if t.is_seq(val) else (atom(q) if val.op == 'poly' else q)
        v2 = replace_raw(val, raw, q)
        if p in v2.fv:
            return None
        return self.solve(q, qform, v2, old, k, ka, {q}, None)

    def kind_like(self, v):
        if v.op == 'poly':
            return 'int' if t.is_int(v) else 'real'
        if t.is_bool(v):
            return 'bool'
        return 'obj'

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        if v.op == 'poly':
            return not_(eq0(v))
        if v.op == 'obj':
            return mk('bobj', *v.args[:-1])
        return v

    def is_bit(self, v):
        """Whether v is a truth value, or the number 0 or 1."""
        if v.op != 'poly':
            return v.op not in ('obj', 'ref', 'null', 'rec', 'str', 'seq', 'mat')
        c = t.const_of(v)
        if c is not None:
            return c in (0, 1)
        m = t.single_atom(v)
        return m is not None and m.op == 'ite' and all(self.is_bit(y) for y in m.args[1:])

    def boolnum(self, b):
        if b.op == 'poly':
            return b
        return ite(b, num(1), num(0))

    def rv(self, x, F):
        v = self.ev(x, F)
        if x.get('vc'):
            if v.op == 'ref':
                return self.read(v)
            if v.op == 'ite' and is_refish(v):
                return self.read(v)
        return v

    def lv(self, x, F):
        """A reference to the object x denotes (a fresh temporary for values)."""
        v = self.ev(x, F)
        if v.op == 'ref' or is_refish(v):
            return v
        return self.new_cell(v, x.get('t'))

    def ev(self, x, F):
        m = getattr(self, 'e_' + x['e'], None)
        if m is None:
            raise Unsupported('expression %s %s' % (x['e'], x.get('cls', '')), x.get('l'))
        try:
            return m(x, F)
        except Unsupported as e:
            if e.loc is None:
                e.loc = x.get('l')
            raise
        except TypeError as e:
            u = Unsupported('value of unexpected shape (%s)' % e, x.get('l'))
            raise u from e

    def e_int(self, x, F):
        return num(int(x['v']))

    def e_bool(self, x, F):
        return t.bconst(x['v'])

    def e_str(self, x, F):
        return mk('str', x['v'])

    def e_nullptr(self, x, F):
        return NULL

    def e_float(self, x, F):
        s = x['src'].replace("'", '').rstrip('fFlL')
        try:
            v = Fraction(s)
        except (ValueError, ZeroDivisionError):
            v = None
        d = float(x['d'])
        return const_real(d, v)

    def e_zero(self, x, F):
        return self.default_value(x['t'])

    def e_this(self, x, F):
        if F.closure is not None and 'this' in F.closure:
            return F.closure['this']
        return F.this

    def e_temp(self, x, F):
        sub_ = x['sub']
        if sub_.get('vc'):
            return self.ev(sub_, F)
        y = self.peel(sub_)
        r = self.new_cell(UNDEF, x['t'])
        if y['e'] == 'ctor' and not (y.get('copy') or y.get('move')) and self.ctor_def(y) is not None:
            self.run_ctor(y, F, r)
        else:
            v = self.rv(sub_, F)
            self.cells[r.args[0]] = v
        return r

    def e_ref(self, x, F):
        dk = x['dk']
        if dk == 'enumc':
            return num(int(x['v']))
        if dk == 'fn':
            return mk('fnref', x['fn']['key'], x['fn']['qn'])
        if dk == 'global':
            if 'cv' in x and self.num_kind(x['t']) != 'obj':
                v = num(int(x['cv']))
                return t.bconst(int(x['cv'])) if self.ty(x['t'])['k'] == 'bool' else v
            if 'cvd' in x:
                return const_real(float(x['cvd']))
            return self.global_ref(x['gid'], x['t'])
        if dk == 'field':
            return mk('memptr', x['n'])
        if dk == 'other':
            raise Unsupported('name %s' % x['n'], x.get('l'))
        vid = tup(x['id'])
        if F.closure is not None and vid in F.closure:
            return F.closure[vid]
        r = F.env.get(vid)
        if r is None:
            raise Unsupported('unbound name %s' % x['n'], x.get('l'))
        return r

    def global_ref(self, gid, tid):
        r = self.globals.get(gid)
        if r is None:
            s = self.P.statics.get(gid)
            c = self.ncell
            self.ncell += 1
            r = mk('ref', c)
            self.globals[gid] = r
            self.ctype[c] = tid
            v = None
            if s is not None and (s.get('const') or s.get('constexpr')) and s.get('init') is not None:
                try:
                    v = self.rv(s['init'], Frame({'rt': -1}))
                except Unsupported:
                    v = None
            if v is None:
                v = self.expand(tid, t.osym('static ' + (s['qn'] if s else gid)))
            self.gvals = getattr(self, 'gvals', {})
            self.gvals[c] = v
        c = r.args[0]
        if c not in self.cells:
            self.cells[c] = self.gvals[c]
        return r

    def e_member(self, x, F):
        if x['dk'] == 'var':
            return self.global_ref(x['gid'], x['t'])
        if x['dk'] != 'field':
            raise Unsupported('member %s' % x['n'])
        n = x['n']
        if x.get('std') == 'pair':
            n = {'first': 'm0', 'second': 'm1'}.get(n, n)
        b = self.ev(x['base'], F)
        if b.op == 'ref' or is_refish(b):
            return self.sub_ref(b, n)
        return self.proj(b, n)

    def e_sub(self, x, F):
        b = self.ev(x['base'], F)
        i = self.rv(x['idx'], F)
        if b.op == 'ref':
            return self.sub_ref(b, mk('ix', i, x['t']))
        if b.op == 'rec' and b.args[0] == '$it':
            return self.M.it_ref(self.M.it_add(b, i))
        raise Unsupported('subscript of %s' % b.op)

    def e_cast(self, x, F):
        ck = x['ck']
        s = x['sub']
        if ck == 'LValueToRValue':
            return self.rv(s, F)
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'ConstructorConversion',
                  'UserDefinedConversion', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'Dependent',
                  'BuiltinFnToFnPtr', 'BitCast', 'LValueBitCast', 'AtomicToNonAtomic', 'NonAtomicToAtomic'):
            if x.get('vc'):
                return self.ev(s, F)
            return self.rv(s, F) if not s.get('vc') or ck not in ('FunctionToPointerDecay',
                                                                   'ArrayToPointerDecay') else self.ev(s, F)
        if ck == 'ToVoid':
            self.ev(s, F)
            return VOID
        v = self.rv(s, F)
        if ck == 'IntegralCast':
            return self.int_cast(self.boolnum(v), x['t'], s.get('t'))
        if ck in ('IntegralToFloating',):
            return self.float_cast(self.boolnum(v), x['t'])
        if ck == 'FloatingCast':
            return self.float_cast(v, x['t'])
        if ck == 'FloatingToIntegral':
            return self.int_cast(t.fn('trunc', v), x['t'])
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            return self.truth(v)
        if ck == 'PointerToBoolean':
            return self.nonnull(v)
        if ck == 'NullToPointer':
            return NULL
        if ck == 'BooleanToSignedIntegral':
            return self.boolnum(v)
        raise Unsupported('cast %s' % ck)

    def float_cast(self, v, tid):
        """Arithmetic is over the reals, except that less than double loses digits."""
        ty = self.ty(tid)
        if ty['k'] == 'float' and ty.get('w', 64) < 64 and v.op == 'poly':
            return t.fn('fl32', v)
        return v

    def int_cast(self, v, tid, src=None):
        ty = self.ty(tid)
        if ty['k'] == 'int' and (ty.get('w', 64) < 32 or self.whole(v, src, ty)) and v.op == 'poly' and \
                not self.fits(src, ty):
            v = self.unnarrow(self.unwrap(v))
            if t.const_of(v) is None:
                return t.fn('narrow', num(ty['w'] if ty.get('u') else -ty['w']), v)
        if ty['k'] in ('int', 'enum'):
            if ty.get('u'):
                return self.wrap(ty['w'], v)
            v = self.unwrap(v)
            c = t.const_of(v)
            w = ty.get('w')
            if c is not None and w and c == int(c) and not -(1 << (w - 1)) <= c < (1 << (w - 1)):
                c = int(c) & ((1 << w) - 1)
                return num(c - (1 << w) if c >> (w - 1) else c)
            return v
        return v

    def whole(self, v, src, ty):
        """Counts and indices fit in 32 bits; a signed 64-bit input may be anything."""
        if src is None or ty.get('w', 64) >= 64:
            return False
        st = self.ty(src)
        a = t.single_atom(v)
        return st['k'] == 'int' and st.get('w') == 64 and not st.get('u') and a is not None and a.op == 'obj'

    def fits(self, src, ty):
        """Does the type hold every value of the source type?"""
        if src is None:
            return False
        st = self.ty(src)
        if st['k'] not in ('int', 'enum'):
            return st['k'] == 'bool'
        w, v = st.get('w', 64), ty['w']
        return w < v or w == v and bool(st.get('u')) == bool(ty.get('u')) or st['k'] == 'enum' and w <= v

    def unnarrow(self, v):
        a = t.single_atom(v)
        if a is not None and a.op == 'narrow':
            return a.args[1]
        return v

    def unwrap(self, v):
        a = t.single_atom(v)
        if a is not None and a.op == 'wrap':
            return a.args[1]
        # a linear combination of wrapped values is exact modulo 2^w
        if v.op == 'poly' and any(len(m) == 1 and m[0][0].op == 'wrap' and m[0][1] == 1 for m, c in v.args):
            r = num(0)
            for m, c in v.args:
                if len(m) == 1 and m[0][0].op == 'wrap' and m[0][1] == 1:
                    r = add(r, mul(num(c), m[0][0].args[1]))
                else:
                    r = add(r, t._rawpoly({m: c}))
            return r
        return v

    def wrap(self, w, v):
        v = self.unwrap(v)
        if t.nonneg(v) or self.decide(le0(neg(v))) is TRUE:
            return v
        return t.fn('wrap', num(w), v)

    def arith(self, op, a, b, tid):
        ty = self.ty(tid)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if a.op == 'obj' or b.op == 'obj' or a.op in ('ref', 'null', 'str') or b.op in ('ref', 'null'):
                if a is b:
                    return t.bconst(op in ('==', '<=', '>='))
                if a.op in ('ref', 'null') and b.op in ('ref', 'null'):
                    return t.bconst(op == '!=')
                if op == '==':
                    return mk('ueq', *sorted((a, b), key=lambda z: z.id))
                if op == '!=':
                    return not_(mk('ueq', *sorted((a, b), key=lambda z: z.id)))
            if t.is_bool(a) and t.is_bool(b):
                e = or_(and_(a, b), and_(not_(a), not_(b)))
                if op == '==':
                    return e
                if op == '!=':
                    return not_(e)
            a, b = self.boolnum(a), self.boolnum(b)
            if op == '==':
                return eq0(sub(a, b))
            if op == '!=':
                return not_(eq0(sub(a, b)))
            if op == '<':
                return lt0(sub(a, b))
            if op == '<=':
                return le0(sub(a, b))
            if op == '>':
                return lt0(sub(b, a))
            return le0(sub(b, a))
        if t.is_bool(a) and t.is_bool(b) and op in ('&', '|', '^'):
            if op == '&':
                return and_(a, b)
            if op == '|':
                return or_(a, b)
            return or_(and_(a, not_(b)), and_(b, not_(a)))
        if a.op == 'rec' and a.args[0] == '$it':
            return self.M.it_arith(op, a, b)
        if t.is_bool(a):
            a = self.boolnum(a)
        if t.is_bool(b):
            b = self.boolnum(b)
        isint = ty['k'] == 'int'
        if op == '+':
            r = add(a, b)
        elif op == '-':
            r = sub(a, b)
        elif op == '*':
            r = mul(a, b)
        elif op == '/':
            if isint:
                r = t.fn('idiv', a, b)
            else:
                r = t.div(a, b)
        elif op == '%':
            r = t.fn('imod', a, b)
        elif op == '<<' and t.const_of(b) is not None:
            r = mul(a, num(1 << int(t.const_of(b))))
        elif op == '>>' and t.const_of(b) is not None:
            r = t.fn('idiv', a, num(1 << int(t.const_of(b))))
        elif op in ('&', '|', '^') and self.is_bit(a) and self.is_bit(b):
            p, q = self.truth(a), self.truth(b)
            r = and_(p, q) if op == '&' else or_(p, q) if op == '|' else or_(and_(p, not_(q)), and_(not_(p), q))
            return r if ty['k'] == 'bool' else self.boolnum(r)
        else:
            raise Unsupported('operator %s' % op)
        if isint and ty.get('u') and op in ('+', '-', '*'):
            return self.wrap(ty['w'], r)
        return r if isint else self.float_cast(r, tid)

    def e_bin(self, x, F):
        op = x['op']
        if op == ',':
            self.ev(x['a'], F)
            return self.ev(x['b'], F)
        if op in ('&&', '||'):
            a = self.decide(self.truth(self.rv(x['a'], F)))
            if op == '&&':
                if a is FALSE:
                    return FALSE
                b = self.fork(a, lambda: self.truth(self.rv(x['b'], F)), lambda: FALSE)
                return b
            if a is TRUE:
                return TRUE
            return self.fork(a, lambda: TRUE, lambda: self.truth(self.rv(x['b'], F)))
        a = self.rv(x['a'], F)
        b = self.rv(x['b'], F)
        tid = x['t']
        if op in ('+', '-') and (a.op == 'rec' or b.op == 'rec'):
            return self.M.it_arith(op, a, b)
        if a.op == 'rec' and a.args[0] == '$it':
            return self.M.it_cmp(op, a, b)
        if op in ('==', '!=') and (a is NULL or is_refish(a)) and (b is NULL or is_refish(b)):
            e = self.pointer_eq(a, b)
            return e if op == '==' else not_(e)
        return self.arith(op, a, b, tid)

    def fork(self, c, fa, fb):
        """Value of a conditional expression (either side may have effects)."""
        if c is TRUE:
            return fa()
        if c is FALSE:
            return fb()
        base = self.cells
        self.cells = dict(base)
        with self.with_facts(c):
            a = fa()
            ca = self.cells
        self.cells = dict(base)
        with self.with_facts(not_(c)):
            b = fb()
            cb = self.cells
        self.cells = self.merge_cells(c, ca, cb)
        return ite(c, a, b)

    def e_un(self, x, F):
        op = x['op']
        s = x['sub']
        if op in ('++', '--'):
            r = self.lv(s, F)
            old = self.read(r)
            new = self.arith('+' if op == '++' else '-', old, num(1), s['t'])
            if self.ty(s['t'])['k'] == 'int' and self.ty(s['t']).get('w', 64) < 32:
                new = self.int_cast(new, s['t'])
            self.write(r, new)
            if x.get('post'):
                return old
            return r
        if op == '&':
            if s['e'] == 'ref' and s['dk'] in ('field', 'fn'):
                return self.e_ref(s, F)
            return self.lv(s, F)
        if op == '*':
            v = self.rv(s, F)
            if v.op == 'rec' and v.args[0] == '$it':
                return self.M.it_ref(v)
            return v
        v = self.rv(s, F)
        if op == '-':
            r = neg(self.boolnum(v))
            ty = self.ty(x['t'])
            if ty['k'] == 'int' and ty.get('u'):
                return self.wrap(ty['w'], r)
            return r
        if op == '+':
            return self.boolnum(v)
        if op == '!':
            return not_(self.truth(v))
        if op == '__extension__':
            return v
        raise Unsupported('unary %s' % op)

    def e_assign(self, x, F):
        v = self.rv(x['b'], F)
        r = self.lv(x['a'], F)
        self.write(r, v)
        return r

    def e_cassign(self, x, F):
        b = self.rv(x['b'], F)
        r = self.lv(x['a'], F)
        v = self.arith(x['op'], self.read(r), b, x['ct'])
        ty = self.ty(x['t'])
        cty = self.ty(x['ct'])
        if ty['k'] == 'int' and cty['k'] == 'float':
            v = self.int_cast(t.fn('trunc', v), x['t'])
        elif ty['k'] == 'int':
            v = self.int_cast(v, x['t'], x['ct'])
        elif ty['k'] == 'float':
            v = self.float_cast(v, x['t'])
        elif ty['k'] == 'bool':
            v = self.truth(v)
        self.write(r, v)
        return r

    def e_cond(self, x, F):
        c = self.decide(self.truth(self.rv(x['c'], F)))
        if x.get('vc'):
            return self.fork(c, lambda: self.ev(x['a'], F), lambda: self.ev(x['b'], F))
        return self.fork(c, lambda: self.rv(x['a'], F), lambda: self.rv(x['b'], F))

    def e_throw(self, x, F):
        v = self.rv(x['sub'], F) if x.get('sub') else VOID
        self.pending.append((TRUE, self.cells, v))
        return UNDEF

    def e_new(self, x, F):
        r = self.new_cell(UNDEF, x['at'])
        if x.get('init'):
            self.init_into(r, x['init'], F)
        else:
            self.cells[r.args[0]] = self.default_value(x['at'])
        return r

    def e_delete(self, x, F):
        r = self.rv(x['sub'], F) if x.get('sub') else None
        d = self.P.functions.get(self.callstack[-1]) if self.callstack else None
        # only the specification says so for certain: elsewhere it may happen on some paths only
        if r is not None and r.op == 'ref' and len(r.args) == 1 and d and d.get('loc') and 'impl::' in d['qn']:
            self.dead[r.args[0]] = ('an object', d['qn'])
        return VOID

    def e_stdinit(self, x, F):
        return self.rv(x['sub'], F)

    def e_init(self, x, F):
        ty = self.ty(x['t'])
        inits = x['inits']
        k = ty['k']
        if k == 'rec':
            fs = self.fields(x['t'])
            if fs is None:
                if ty.get('tn') in SEQ_TN:
                    if len(inits) == 1 and inits[0]['e'] == 'init':
                        return self.rv(inits[0], F)
                    return seq(*[elem(self.rv(i, F)) for i in inits])
                raise Unsupported('list initialisation of %s' % ty['s'])
            vals = []
            for i, (n, ft, fd) in enumerate(fs):
                if i < len(inits):
                    if self.is_ref(ft):
                        vals.append(self.lv(inits[i], F))
                    else:
                        vals.append(self.rv(inits[i], F))
                else:
                    vals.append(self.default_field(fd))
            return mk('rec', ty['s'], tuple(n for n, _, _ in fs), *vals)
        if k == 'array':
            vs = [self.rv(i, F) for i in inits]
            n = ty.get('n', len(vs))
            while len(vs) < n and n <= 64:
                vs.append(self.default_value(ty['to']))
            return seq(*[elem(v) for v in vs])
        if not inits:
            return self.default_value(x['t'])
        return self.rv(inits[0], F)

    def default_field(self, fd):
        if fd.get('init') is not None:
            return self.rv(fd['init'], Frame({'rt': -1}))
        return self.default_value(fd['t'])

    def default_value(self, tid, undef=False):
        ty = self.ty(tid)
        k = ty['k']
        if k in ('int', 'float', 'enum'):
            return UNDEF if undef else num(0)
        if k == 'bool':
            return UNDEF if undef else FALSE
        if k == 'ptr':
            return NULL
        if k == 'array':
            return seq(*[elem(self.default_value(ty['to'], undef)) for _ in range(ty['n'])])
        tn = ty.get('tn')
        if tn == 'std::array':
            n = int(ty['targs'][1]['v'])
            return seq(*[elem(self.default_value(ty['targs'][0]['t'], undef)) for _ in range(n)])
        if tn in SEQ_TN:
            return EMPTY
        if tn == VARIABLE:
            return num(0)
        d = self.M.default_lib(tid)
        if d is not None:
            return d
        fs = self.fields(tid)
        if fs is not None:
            c = self.find_ctor(tid, [])
            if c is not None and (c.get('inits') or not (c.get('defaulted') or c.get('implicit'))):
                r = self.new_cell(UNDEF, tid)
                self.call_ctor(c, [], r, tid)
                return self.read(r)
            return mk('rec', ty['s'], tuple(n for n, _, _ in fs),
                      *[self.default_field(fd) for n, ft, fd in fs])
        return UNDEF

    # ------------------------------------------------------------ constructors
    def ctor_def(self, x):
        """The repository definition of the constructor x calls, if it has a body to run."""
        fn = x['fn']
        d = self.P.functions.get(fn['key'])
        if d is None:
            return None
        if d.get('defaulted') and not d.get('inits'):
            return None
        return d

    def e_ctor(self, x, F):
        fn = x['fn']
        args = x['args']
        tid = x['t']
        ty = self.ty(tid)
        tn = ty.get('tn')
        if (x.get('copy') or x.get('move')) and args:
            d = self.ctor_def(x)
            if d is None or d.get('defaulted') or d.get('implicit'):
                src = self.ev(args[0], F)
                if src.op == 'ref' or is_refish(src):
                    v = self.read(src)
                    if x.get('move') and src.op == 'ref':
                        mv = self.moved(v, tid)
                        if mv is not v:
                            self.write(src, mv)
                    return v
                return src
        d = self.ctor_def(x)
        if d is not None and not (d.get('defaulted') and x.get('default')):
            r = self.new_cell(UNDEF, tid)
            self.run_ctor(x, F, r)
            return self.read(r)
        if x.get('default') and not args:
            return self.default_value(tid)
        return self.M.ctor(x, F)

    def moved(self, v, tid=None):
        """What a moved-from object is left holding."""
        if t.is_seq(v):
            return EMPTY
        if v.op == 'rec' and isinstance(v.args[0], str) and v.args[0] != '$it':
            return mk('rec', *v.args[:2], *[self.moved(z) for z in v.args[2:]])
        return v

    def run_ctor(self, x, F, r):
        d = self.ctor_def(x)
        args = self.bind_args(d, x['args'], F)
        self.call_ctor(d, args, r, x.get('t'), x.get('l'))

    def call_ctor(self, d, args, r, tid, loc=None):
        tid = d['cls'] if tid is None else tid
        cls = d['cls']
        fs = self.fields(cls)
        if fs is None:
            raise Unsupported('constructor of %s' % self.ty(cls)['s'])
        ty = self.ty(cls)
        self.write(r, mk('rec', ty['s'], tuple(n for n, _, _ in fs), *[UNDEF for _ in fs]))
        G = Frame(d, this=r)
        self.enter(d, G, args)
        try:
            seen = set()
            for i in d.get('inits') or []:
                if 'f' in i:
                    fr = self.sub_ref(r, i['f'])
                    seen.add(i['f'])
                    if self.is_ref(i['ft']):
                        self.write(fr, self.lv(i['x'], G))
                    else:
                        self.init_into(fr, i['x'], G, i['ft'])
                elif i.get('deleg'):
                    self.init_into(r, i['x'], G)
                    seen = set(n for n, _, _ in fs)
                else:
                    v = self.rv(i['x'], G)
                    if v.op == 'rec':
                        for n, z in zip(v.args[1], v.args[2:]):
                            self.write(self.sub_ref(r, n), z)
                            seen.add(n)
            for n, ft, fd in fs:
                if n not in seen and self.read(self.sub_ref(r, n)) is UNDEF:
                    self.write(self.sub_ref(r, n), self.default_field(fd))
            self.finish_body(d, G)
        finally:
            self.leave(G)

    def e_inhctor(self, x, F):
        raise Unsupported('inherited constructor')

    def convertible(self, at, pt, v):
        """Rough overload ranking of an argument type against a parameter type."""
        a, p = self.ty(at), self.ty(pt)
        if a['s'] == p['s']:
            return 3
        if a['k'] in ('int', 'float', 'enum', 'bool') and p['k'] in ('int', 'float', 'bool'):
            return 2
        if p.get('tn') == VARIABLE and a['k'] in ('int', 'float', 'bool'):
            return 1
        if p['k'] == 'rec' and a['k'] == 'rec' and p.get('tn') == a.get('tn'):
            return 1
        if p['k'] == 'rec' and a['k'] in ('int', 'float') and self.fields(pt) is not None:
            return 1 if self.find_ctor(pt, [at]) is not None else 0
        if a['k'] == 'rec' and p['k'] == 'rec' and self.fields(pt) is not None:
            return 1 if self.find_ctor(pt, [at]) is not None else 0
        if p['k'] == 'other' or a['k'] == 'other':
            return 1
        if p['k'] == 'rec' and p.get('tn') in ('std::function', 'std::variant', 'std::optional'):
            return 1
        return 0

    def find_ctor(self, tid, arg_tids):
        r = self.record(tid)
        if r is None:
            return None
        qn = r['qn']
        name = qn.split('::')[-1]
        s = self.ty(tid)['s']
        best, bs = None, -1
        for cand in self.ctors_of(s):
            ps = cand['params']
            if len(ps) != len(arg_tids):
                continue
            if len(ps) == 1 and self.ty(ps[0]['t'])['s'] == s:
                continue
            sc = 0
            for p, a in zip(ps, arg_tids):
                c = self.convertible(a, p['t'], None)
                if c == 0:
                    sc = -1
                    break
                sc += c
            if sc > bs and sc >= 0:
                best, bs = cand, sc
        return best

    def ctors_of(self, s):
        m = getattr(self.P, '_ctors', None)
        if m is None:
            m = {}
            for f in self.P.functions.values():
                if f.get('ctor'):
                    m.setdefault(self.ty(f['cls'])['s'], []).append(f)
            self.P._ctors = m
        return m.get(s, [])

    def construct(self, tid, args, arg_tids=None, loc=None):
        """Value of type tid built from argument values/references."""
        ty = self.ty(tid)
        arg_tids = arg_tids or []
        s = ty['s']
        vals = args
        if len(args) == 1 and arg_tids and self.ty(arg_tids[0])['s'] == s:
            v = args[0]
            if v.op == 'ref' or is_refish(v):
                w = self.read(v)
                if self.ty(arg_tids[0]).get('ref') == 2 and v.op == 'ref':
                    mv = self.moved(w)
                    if mv is not w:
                        self.write(v, mv)
                return w
            return v
        nk = self.num_kind(tid)
        rd = lambda v: self.read(v) if (v.op == 'ref' or is_refish(v)) else v
        if nk != 'obj':
            if not args:
                return self.default_value(tid)
            v = rd(args[0])
            if arg_tids and ty['k'] == 'int':
                if self.ty(arg_tids[0])['k'] == 'float':
                    v = t.fn('trunc', v)
                v = self.int_cast(self.boolnum(v), tid, arg_tids[0])
            elif ty['k'] == 'float':
                v = self.float_cast(self.boolnum(v), tid)
            return v
        fs = self.fields(tid)
        if fs is not None:
            c = self.find_ctor(tid, arg_tids)
            if c is not None and not (c.get('defaulted') and not c.get('params')):
                r = self.new_cell(UNDEF, tid)
                bound = []
                for p, a, at in zip(c['params'], args, arg_tids):
                    if self.is_ref(p['t']):
                        if not (a.op == 'ref' or is_refish(a)):
                            a = self.new_cell(a, p['t'])
                        if self.ty(at)['s'] != self.ty(p['t'])['s']:
                            a = self.new_cell(self.construct(p['t'], [a], [at]), p['t'])
                        bound.append(a)
                    else:
                        bound.append(self.construct(p['t'], [a], [at]))
                self.call_ctor(c, bound, r, tid, loc)
                return self.read(r)
            if not args:
                return mk('rec', s, tuple(n for n, _, _ in fs), *[self.default_field(fd) for n, ft, fd in fs])
            rec = self.record(tid)
            if rec.get('agg') and len(args) <= len(fs):
                vs = []
                for i, (n, ft, fd) in enumerate(fs):
                    if i < len(args):
                        vs.append(self.construct(ft, [args[i]], [arg_tids[i]]))
                    else:
                        vs.append(self.default_field(fd))
                return mk('rec', s, tuple(n for n, _, _ in fs), *vs)
            raise Unsupported('no constructor of %s for %d arguments' % (s, len(args)))
        if not args:
            return self.default_value(tid)
        return self.M.construct_lib(tid, args, arg_tids, loc)

    # ------------------------------------------------------------ calls
    def bind_args(self, d, args, F):
        out = []
        for p, a in zip(d['params'], args):
            if self.is_ref(p['t']):
                out.append(self.lv(a, F))
            else:
                out.append(self.rv(a, F))
        return out

    def enter(self, d, G, args):
        if len(self.callstack) > self.limit:
            raise Unsupported('call depth (recursion through %s)' % d['qn'])
        self.callstack.append(d['key'])
        self.calls_seen += 1
        self.funcs_seen[d['key']] = d
        for p, a in zip(d['params'], args):
            if self.is_ref(p['t']):
                if not (a.op == 'ref' or is_refish(a)):
                    a = self.new_cell(a, p['t'])
                G.env[tup(p['id'])] = a
            else:
                if a.op == 'ref' and self.ty(p['t'])['k'] not in ('ptr', 'other') and \
                        self.tn(p['t']) not in ('std::unique_ptr', 'std::shared_ptr'):
                    a = self.read(a)
                r = G.env[tup(p['id'])] = self.new_cell(self.coerce(a, p['t']), p['t'])
                G.autos.append((r.args[0], (p['n'], d['qn'])))

    def leave(self, G):
        self.callstack.pop()
        for c, d in G.autos:
            self.dead[c] = d

    def finish_body(self, d, G):
        """Run the body and return the result value (or reference)."""
        saved_facts = self.facts
        saved_pending, self.pending = self.pending, []
        fl = self.exec(d['body'], G) if d.get('body') else self.normal()
        self.pending = saved_pending
        self.set_facts(saved_facts)
        th = fl.k.pop('t', None)
        n = fl.k.pop('n', None)
        r = fl.k.pop('r', None)
        if n is not None and r is not None:
            v = r[2]
            cells = self.merge_cells(r[0], r[1], n[1])
        elif r is not None:
            v, cells = r[2], r[1]
        elif n is not None:
            v, cells = VOID, n[1]
        else:
            v, cells = UNDEF, self.cells
        self.cells = cells
        if th is not None:
            self.pending.append(th)
        return v

    def call_def(self, d, args, this=None, closure=None, loc=None):
        G = Frame(d, this=this, closure=closure)
        self.enter(d, G, args)
        try:
            return self.finish_body(d, G)
        finally:
            self.leave(G)

    def site(self, x):
        k = (id(x), tuple(self.sitestack()))
        s = self.sites.get(k)
        if s is None:
            s = len(self.sites)
            self.sites[k] = s
            self._keep = getattr(self, '_keep', [])
            self._keep.append(x)
        return s

    def sitestack(self):
        return getattr(self, 'nodestack', ())

    def e_call(self, x, F):
        fn = x.get('fn')
        if fn is None:
            c = self.rv(x['callee'], F)
            return self.call_value(c, x, F)
        return self.dispatch(fn, None, x['args'], x, F)

    def e_opcall(self, x, F):
        fn = x.get('fn')
        if fn is None:
            raise Unsupported('operator call without callee')
        if x.get('ismem'):
            return self.dispatch(fn, x['args'][0], x['args'][1:], x, F)
        return self.dispatch(fn, None, x['args'], x, F)

    def e_memcall(self, x, F):
        fn = x.get('fn')
        if fn is None:
            raise Unsupported('member pointer call')
        return self.dispatch(fn, x['obj'], x['args'], x, F)

    def dispatch(self, fn, obj, args, x, F):
        st = getattr(self, 'nodestack', ())
        # opaque by request
        op = self.opaque.get(fn['qn']) or (self.opaque.get('*::' + fn['n']) if '*::' + fn['n'] in
                                            self.opaque else None)
        if op is not None:
            r = op(self, fn, obj, args, x, F)
            if r is not NotImplemented:
                return r
        d = self.P.functions.get(fn['key'])
        cls = fn.get('cls')
        if d is not None and (fn.get('copy_assign') or fn.get('move_assign')) and \
                (d.get('defaulted') or d.get('implicit') or fn.get('defaulted')):
            d = None
        if d is not None and self.ty(cls).get('lambda') if cls is not None and cls >= 0 else False:
            # call of a closure object
            o = self.lv(obj, F)
            return self.call_closure(o, d, [(self.lv(a, F) if self.is_ref(p['t']) else self.rv(a, F))
                                            for p, a in zip(d['params'], args)], x)
        if d is not None:
            this = None
            if obj is not None:
                if x.get('arrow'):
                    this = self.rv(obj, F)
                    if this.op == 'rec':
                        this = self.M.it_ref(this)
                else:
                    this = self.lv(obj, F)
            vals = self.bind_args(d, args, F)
            self.nodestack = st + (id(x),)
            try:
                return self.call_def(d, vals, this, None, x.get('l'))
            finally:
                self.nodestack = st
        if (fn.get('copy_assign') or fn.get('move_assign')) and obj is not None and \
                self.fields(cls) is not None:
            v = self.ev(args[0], F)
            src = v
            if v.op == 'ref' or is_refish(v):
                v = self.read(v)
            r = self.lv(obj, F)
            self.write(r, v)
            if fn.get('move_assign') and src.op == 'ref' and src is not r:
                mv = self.moved(v)
                if mv is not v:
                    self.write(src, mv)
            return r
        self.nodestack = st
        return self.M.call(fn, obj, args, x, F)

    def call_closure(self, o, d, vals, x):
        """o: reference to the closure record."""
        v = self.read(o)
        return self.call_closure_value(o, v, d, vals, x)

    def call_closure_value(self, o, v, d, vals, x):
        if v.op == 'ite':
            raise Unsupported('call of a conditionally chosen closure')
        if v.op != 'rec' or not isinstance(v.args[0], tuple):
            raise Unsupported('call of %s' % v.op)
        lam = self.lambdas[v.args[0][1]]
        cl = {}
        for i, c in enumerate(lam['caps']):
            n = 'c%d' % i
            if c['k'] == 'this':
                cl['this'] = self.proj(v, n)
            elif c['k'] == 'starthis':
                cl['this'] = self.sub_ref(o, n)
            elif c['k'] == 'ref':
                cl[tup(c['id'])] = self.proj(v, n)
            else:
                cl[tup(c['id'])] = self.sub_ref(o, n)
        st = getattr(self, 'nodestack', ())
        self.nodestack = st + (id(x),)
        try:
            return self.call_def(d, vals, None, cl, x.get('l') if isinstance(x, dict) else None)
        finally:
            self.nodestack = st

    def e_lambda(self, x, F):
        lid = self.lambda_id(x)
        vals = []
        for c in x['caps']:
            if c['k'] == 'this':
                vals.append(F.closure['this'] if F.closure and 'this' in F.closure else F.this)
            elif c['k'] == 'starthis':
                vals.append(self.read(F.this))
            elif c['k'] == 'ref':
                vals.append(self.lv(c['init'], F))
            else:
                v = self.rv(c['init'], F)
                vals.append(self.coerce(v, c['t']))
        return mk('rec', ('closure', lid), tuple('c%d' % i for i in range(len(vals))), *vals)

    def lambda_id(self, x):
        k = x['ops'][0]['key'] if x['ops'] else 'lambda@%s' % (x['l'],)
        self.lambdas[k] = x
        return k

    def lambda_op(self, v, arg_tids=None, alt_s=None):
        """The call operator of a closure value to use for the argument types."""
        lam = self.lambdas[v.args[0][1]]
        ops = lam['ops']
        cands = [self.P.functions[o['key']] for o in ops if o['key'] in self.P.functions]
        if not cands:
            raise Unsupported('lambda without an analysed body', lam.get('l'))
        if len(cands) == 1 and not lam.get('generic'):
            return cands[0]
        if arg_tids is not None:
            for c in cands:
                if all(self.ty(p['t'])['s'] == self.ty(a)['s'] for p, a in zip(c['params'], arg_tids)):
                    return c
        if alt_s is not None:
            for c in cands:
                if c['params'] and self.ty(c['params'][0]['t'])['s'] == alt_s:
                    return c
            return None
        if len(cands) == 1:
            return cands[0]
        raise Unsupported('generic lambda call', lam.get('l'))

    def call_value(self, c, x, F):
        """Call through a function value."""
        if c.op == 'fnref':
            d = self.P.functions.get(c.args[0])
            if d is None:
                raise Unsupported('call of %s' % c.args[1])
            return self.call_def(d, self.bind_args(d, x['args'], F))
        raise Unsupported('indirect call')

    def invoke(self, fo, args, arg_tids, node):
        """Call the function object at reference fo with references/values."""
        v = self.read(fo) if fo.op == 'ref' else fo
        if v.op == 'rec' and isinstance(v.args[0], tuple) and v.args[0][0] == 'closure':
            if fo.op != 'ref':
                fo = self.new_cell(v)
            d = self.lambda_op(v, arg_tids)
            bound = []
            for p, a, at in zip(d['params'], args, arg_tids or [None] * len(args)):
                if self.is_ref(p['t']):
                    bound.append(a if a.op == 'ref' or is_refish(a) else self.new_cell(a, p['t']))
                else:
                    w = self.read(a) if a.op == 'ref' else a
                    bound.append(w)
            return self.call_closure(fo, d, bound, node)
        if v.op == 'fnref':
            d = self.P.functions.get(v.args[0])
            if d is not None:
                bound = list(args)
                this = None
                if (d.get('cls') or -1) >= 0 and not d.get('static'):
                    this, bound = bound[0], bound[1:]
                    if not (this.op == 'ref' or is_refish(this)):
                        this = self.new_cell(this, d['cls'])
                for i, p in enumerate(d['params'][:len(bound)]):
                    a = bound[i]
                    if self.is_ref(p['t']):
                        if not (a.op == 'ref' or is_refish(a)):
                            bound[i] = self.new_cell(a, p['t'])
                    elif a.op == 'ref' or is_refish(a):
                        bound[i] = self.read(a)
                return self.call_def(d, bound, this) if this is not None else self.call_def(d, bound)
        if v.op == 'memptr' and len(args) == 1:
            a = args[0]
            if a.op == 'ref' or is_refish(a):
                return self.sub_ref(a, v.args[0])
            return self.proj(a, v.args[0])
        if v.op == 'ite':
            def branch(w):
                c = self.new_cell(w)
                u = self.invoke(c, args, arg_tids, node)
                if self.read(c) is not w:
                    raise Unsupported('one of several function objects changes itself')
                return u
            return self.fork(v.args[0], lambda: branch(v.args[1]), lambda: branch(v.args[2]))
        return self.M.invoke_lib(v, args, arg_tids, node)

    # ------------------------------------------------------------ entry
    def run(self, qn, args=None, facts=(), names=None):
        """Evaluate the function qn on symbolic arguments.
        Returns (value, {param name: final value}, log)."""
        fs = self.P.by_qn.get(qn)
        if not fs:
            raise Unsupported('function %s not found' % qn)
        d = fs[0]
        self.set_facts(tuple(facts))
        refs = {}
        vals = []
        for p in d['params']:
            nm = (names or {}).get(p['n'], p['n'])
            v = (args or {}).get(p['n'])
            if v is None:
                v = self.sym(nm, p['t'])
            if self.is_ref(p['t']):
                r = self.new_cell(v, p['t'])
                refs[p['n']] = r
                vals.append(r)
            else:
                vals.append(v)
        v = self.call_def(d, vals)
        self.throws = self.pending
        self.pending = []
        if v is not None and (v.op == 'ref') and self.is_ref(d['rt']):
            v = self.read(v)
        return v, {n: self.read(r) for n, r in refs.items()}, self.cells[LOG]


class _Facts:
    def __init__(self, I, fs):
        self.I = I
        self.fs = tuple(f for f in fs if f is not TRUE)

    def __enter__(self):
        self.old = self.I.facts
        if self.fs:
            self.I.set_facts(self.old + self.fs)

    def __exit__(self, *a):
        self.I.set_facts(self.old)


def is_refish(v):
    if v.op == 'ref':
        return True
    if v.op == 'ite':
        a, b = v.args[1:]
        return (is_refish(a) or a is NULL) and (is_refish(b) or b is NULL) and not (a is NULL and b is NULL)
    return False


def pull_sub(nxt, p):
    """nxt - p with the subtraction pushed into gates, or None."""
    d = sub(nxt, atom(p))
    if p not in d.fv:
        return d
    a = t.single_atom(nxt)
    if a is not None and a.op == 'ite':
        x = pull_sub(a.args[1], p)
        y = pull_sub(a.args[2], p)
        if x is not None and y is not None and p not in a.args[0].fv:
            return ite(a.args[0], x, y)
    if a is None and nxt.op == 'poly':
        # sum of gates: find one linear gate carrying p
        for m, c in nxt.args:
            if len(m) == 1 and m[0][1] == 1 and c == 1 and p in m[0][0].fv:
                g = m[0][0]
                if g.op == 'ite' and p not in g.args[0].fv:
                    x = pull_sub(g.args[1], p)
                    y = pull_sub(g.args[2], p)
                    if x is not None and y is not None:
                        rest = sub(nxt, atom(g))
                        if p not in rest.fv:
                            return add(ite(g.args[0], x, y), rest)
    if a is not None and a.op == 'wrap':
        return pull_sub(a.args[1], p)
    return None


def as_minmax(nxt, p):
    """nxt as min/max of p and guarded expressions: (op, [(guard, expr)])."""
    a = t.single_atom(nxt)
    if a is None:
        return None
    if a is p:
        return (None, [])
    if a.op in ('min', 'max'):
        items = []
        has = False
        for x in a.args:
            xa = t.single_atom(x)
            if xa is p:
                has = True
            elif p in x.fv:
                r = as_minmax(x, p)
                if r is None or r[0] not in (None, a.op):
                    return None
                items += r[1]
                has = True
            else:
                items.append((TRUE, x))
        return (a.op, items) if has else None
    if a.op == 'ite' and p not in a.args[0].fv:
        x = as_minmax(a.args[1], p)
        y = as_minmax(a.args[2], p)
        if x is None or y is None:
            return None
        if x[0] and y[0] and x[0] != y[0]:
            return None
        c = a.args[0]
        return (x[0] or y[0], [(and_(c, g), e) for g, e in x[1]] + [(and_(not_(c), g), e) for g, e in y[1]])
    return None


def gated_append(s, o):
    """Segments [if c: (o ++ A)], [if !c: (o ++ B)] as o followed by gated appends."""
    segs = s.args
    if len(segs) == 2 and all(g.op == 'if' for g in segs) and segs[1].args[0] is not_(segs[0].args[0]):
        out = EMPTY
        for g in segs:
            b = g.args[1]
            if b.op != 'seq' or not b.args:
                return None
            if b.args[0] is o:
                rest = mk('seq', *b.args[1:])
            else:
                r = gated_append(b, o)
                if r is None:
                    return None
                rest = r
            out = cat(out, t.ifseg(g.args[0], rest))
        return out
    return None


def gated_update(s, o):
    segs = s.args
    if len(segs) == 2 and all(g.op == 'if' for g in segs) and segs[1].args[0] is not_(segs[0].args[0]):
        ups = []
        for g in segs:
            b = g.args[1]
            if b.op == 'seq' and len(b.args) == 1 and b.args[0] is o:
                continue
            if b.op == 'seq' and len(b.args) == 1 and b.args[0].op == 'sub':
                b = b.args[0].args[0]
            if b.op == 'upd' and b.args[0].op == 'seq' and b.args[0].args == (o,):
                ups.append((g.args[0], b.args[1], b.args[2]))
            else:
                return None
        if len(ups) == 1:
            return ups
    return None


def replace_term(x, old, new, memo=None):
    """x with the atom (or non-numeric term) old replaced."""
    if memo is None:
        memo = {}
    r = memo.get(x.id)
    if r is not None:
        return r
    r = _replace(x, old, new, memo)
    memo[x.id] = r
    return r


def _replace(x, old, new, memo):
    if x is old:
        return new
    if not t.mentions(x, old):
        return x
    if x.op == 'poly':
        acc = num(0)
        for m, c in x.args:
            p = num(c)
            for a, e in m:
                v = replace_term(a, old, new, memo)
                if v.op != 'poly':
                    v = atom(v)
                p = mul(p, t.powi(v, e))
            acc = add(acc, p)
        return acc
    if x.op in t.BINDERS:
        # binder heights may change: open, replace, close
        if x.op in ('sum', 'for', 'none', 'first'):
            v, b = t.open_(x, 2)
            cnt = replace_term(x.args[1], old, new, memo)
            b = replace_term(b, old, new, {})
            return {'sum': t.sum_, 'for': t.forseq, 'none': t.none_, 'first': t.first_}[x.op](cnt, v, b)
        # generic: route through a placeholder substitution
    args = []
    for a in x.args:
        if isinstance(a, t.T):
            args.append(replace_term(a, old, new, memo))
        elif isinstance(a, tuple):
            args.append(tuple(replace_term(b, old, new, memo) if isinstance(b, t.T) else b for b in a))
        else:
            args.append(a)
    if x.op in t.BINDERS:
        return mk(x.op, *args)
    return t.rebuild(x.op, args)


def replace_raw(x, raw, new):
    """Replace the opaque object raw (of any kind) by new."""
    for kind in (None, 'real', 'nat', 'int', 'pos'):
        k = mk('obj', *raw.args[:-1], kind)
        if t.mentions(x, k):
            x = replace_term(x, k, new)
    return x


def replace_get(val, p, idx, f):
    """Replace p[idx] inside val by f(kind)."""
    raw = mk('obj', 'get', p, idx, None)
    for kind in ('real', 'nat', 'int', 'pos', None):
        k = mk('obj', 'get', p, idx, kind)
        if t.mentions(val, k):
            n = f(kind)
            val = replace_term(val, k, n)
    return val
