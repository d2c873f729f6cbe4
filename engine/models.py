"""Meaning of the library functions the repository uses (standard library,
Sleipnir, cxx).  These are the analysis' trusted base; anything not listed
here makes the enclosing query undecided."""
from fractions import Fraction

import terms as t
from terms import (mk, num, atom, add, sub, mul, neg, seq, elem, opq, cat, ite, and_, or_, not_,
                   le0, lt0, eq0, TRUE, FALSE, EMPTY)
import interp as ip
from ranges import Ranges, ALGORITHMS
from interp import (Unsupported, UNDEF, NULL, VOID, LOG, Flow, SEQ_TN, VARIABLE, is_refish, tup)

MATH1 = {'sqrt', 'cos', 'sin', 'tan', 'exp', 'log', 'acos', 'asin', 'atan', 'floor', 'ceil', 'trunc', 'round',
         'cosh', 'sinh', 'tanh', 'log10', 'erf', 'cbrt'}
STRINGY = {'std::basic_string', 'std::basic_string_view', 'rust::String', 'rust::Str',
           'rust::cxxbridge1::String', 'rust::cxxbridge1::Str'}
RUN = 10000     # further runs of the solver count their iterations from multiples of this
PTRS = {'std::unique_ptr', 'std::shared_ptr'}


class Models(Ranges):
    def __init__(self, I):
        self.I = I
        self.nopaque = 0
        self.epoch = 0

    # ------------------------------------------------------------ helpers
    def seq_at(self, r, i, etid):
        return self.I.sub_ref(r, mk('ix', i, etid))

    def inside(self, r, i, x):
        """Obligation: i is an index of the sequence r."""
        I = self.I
        if not I.bounds:
            return
        s = I.read(r)
        if s.op in ('obj', 'phi', 'bph'):
            s = seq(opq(s))
        L = t.length(s)
        c = t.or_(lt0(i), le0(sub(L, i)))
        I.accesses += 1
        c = I.decide(c)
        if c is not FALSE:
            I.gated('outside', x.get('l'), c)

    def it(self, r, i, etid):
        return mk('rec', '$it', ('c', 'i', 't'), r, i, mk('tid', etid))

    def it_ref(self, v):
        if v.op == 'ite':
            return ite(v.args[0], self.it_ref(v.args[1]), self.it_ref(v.args[2]))
        if v.op == 'ref':
            return v
        if v.op != 'rec' or v.args[0] not in ('$it', '$rit'):
            raise Unsupported('dereference of %s' % t.show(v)[:60])
        c, i, ty = v.args[2:]
        if v.args[0] == '$rit':
            i = sub(i, num(1))
        return self.I.sub_ref(c, mk('ix', i, ty.args[0]))

    def it_add(self, v, n):
        if v.op == 'rec' and v.args[0] == '$it':
            return mk('rec', '$it', v.args[1], v.args[2], add(v.args[3], n), v.args[4])
        if v.op == 'rec' and v.args[0] == '$rit':
            return mk('rec', '$rit', v.args[1], v.args[2], sub(v.args[3], n), v.args[4])
        raise Unsupported('iterator arithmetic')

    def it_arith(self, op, a, b):
        I = self.I
        if op == '+':
            if a.op == 'rec':
                return self.it_add(a, b)
            return self.it_add(b, a)
        if op == '-':
            if b.op == 'rec':
                if a.args[2] is not b.args[2]:
                    raise Unsupported('difference of unrelated iterators')
                d = sub(a.args[3], b.args[3])
                return d if a.args[0] == '$it' else neg(d)
            return self.it_add(a, neg(b))
        return self.it_cmp(op, a, b)

    def it_cmp(self, op, a, b):
        if a.op != 'rec' or b.op != 'rec' or a.args[2] is not b.args[2]:
            raise Unsupported('comparison of unrelated iterators')
        d = sub(a.args[3], b.args[3])
        if a.args[0] == '$rit':
            d = neg(d)
        return {'==': lambda: eq0(d), '!=': lambda: not_(eq0(d)), '<': lambda: lt0(d), '<=': lambda: le0(d),
                '>': lambda: lt0(neg(d)), '>=': lambda: le0(neg(d))}[op]()

    def range_of(self, r, tid):
        I = self.I
        if not (r.op == 'ref' or is_refish(r)):
            r = I.new_cell(r, tid)
        cnt, at = self.view(self.view_of(r, tid))
        if cnt is None:
            raise Unsupported('loop over an endless range')
        return cnt, at

    def convert_init(self, v, tid, x):
        """Loop variable by value, possibly of another arithmetic type."""
        I = self.I
        if v.op == 'poly' and I.ty(tid)['k'] in ('int', 'enum'):
            if not t.is_int(v):
                v = t.fn('trunc', v)
            return I.int_cast(v, tid)
        return I.coerce(v, tid)

    def tuple_get_binding(self, r, tid, i, b, F):
        I = self.I
        fs = I.fields(tid)
        v = I.read(r)
        if v.op == 'rec' and v.args[0] in ('$pair',):
            return I.sub_ref(r, 'm%d' % i)
        # user-provided get<i>: evaluate the hidden holding variable's initialiser
        h = b['hold']
        x = h.get('init')
        if x is not None:
            # the initialiser names the decomposed variable itself
            G = F
            val = I.ev(self.subst_self(x, r), F)
            if val.op == 'ref' or is_refish(val):
                return val
            return I.new_cell(val, h['t'])
        raise Unsupported('tuple-like binding')

    def subst_self(self, x, r):
        return x

    def default_lib(self, tid):
        tn = self.I.tn(tid)
        if tn in STRINGY:
            return mk('str', '')
        if tn == 'sleipnir::OptimizationProblem':
            return mk('rec', 'sleipnir::OptimizationProblem', ('cb',), NULL)
        if tn == 'std::function':
            return NULL
        if tn in PTRS:
            return NULL
        if tn == 'std::optional':
            return mk('rec', '$opt', ('has', 'val'), FALSE, UNDEF)
        if tn == 'std::atomic':
            return num(0)
        if tn in ('std::chrono::duration', 'std::chrono::time_point'):
            return num(0)
        if tn == 'sleipnir::VariableMatrix':
            return mk('mat', 0, 0)
        if tn in ('std::pair', 'std::tuple'):
            ta = [a['t'] for a in self.I.ty(tid)['targs'] if 't' in a]
            return mk('rec', '$pair', tuple('m%d' % i for i in range(len(ta))),
                      *[self.I.default_value(a) for a in ta])
        if tn == 'std::variant':
            ta = [a['t'] for a in self.I.ty(tid)['targs'] if 't' in a]
            return mk('alt', 0, self.I.default_value(ta[0]))
        return None

    # ------------------------------------------------------------ construction
    def ctor(self, x, F):
        I = self.I
        args = []
        at = []
        for a in x['args']:
            if a['e'] == 'stdinit':
                args.append(I.rv(a, F))
            else:
                args.append(I.ev(a, F))
            at.append(a['t'])
        pts = x['fn']['pt']
        return self.build(x['t'], args, at, x.get('l'), x, pts)

    def construct_lib(self, tid, args, at, loc):
        return self.build(tid, args, at, loc, None, None)

    def rd(self, v):
        if v.op == 'ref' or is_refish(v):
            return self.I.read(v)
        return v

    def take(self, v, xval):
        """Read through a reference, emptying it when it is moved from."""
        I = self.I
        w = self.rd(v)
        if xval and v.op == 'ref':
            mv = I.moved(w)
            if mv is not w:
                I.write(v, mv)
        return w

    def build(self, tid, args, at, loc, x, pts):
        I = self.I
        ty = I.ty(tid)
        tn = ty.get('tn')
        # trailing defaulted allocator-like arguments
        while args and I.tn(at[-1]) in ('std::allocator', 'std::initializer_list') and I.tn(at[-1]) == \
                'std::allocator':
            args, at = args[:-1], at[:-1]
        if not args:
            return I.default_value(tid)
        s = ty['s']
        if len(args) == 1 and I.ty(at[0])['s'] == s:
            mv = bool(x and x.get('move')) or (x is None and I.ty(at[0]).get('ref') == 2)
            return self.take(args[0], mv)
        if tn == 'std::span':
            a0 = self.rd(args[0])
            if a0.op == 'rec' and a0.args[0] == '$it':
                e = self.rd(args[1])
                j = e.args[3] if e.op == 'rec' else add(a0.args[3], e)
                return self.slice_view(a0.args[2], a0.args[3], j, a0.args[4].args[0])
            return self.view_of(args[0], at[0])
        if tn == 'std::ranges::subrange' and len(args) == 2:
            a0, a1 = self.rd(args[0]), self.rd(args[1])
            if a0.op == 'rec' and a0.args[0] == '$it' and a1.op == 'rec' and a1.args[2] is a0.args[2]:
                return self.slice_view(a0.args[2], a0.args[3], a1.args[3], a0.args[4].args[0])
        if tn in ('std::ranges::ref_view', 'std::ranges::owning_view'):
            return self.view_of(args[0], at[0])
        if tn in SEQ_TN:
            et = I.elem_tid(tid)
            a0 = self.rd(args[0])
            if len(args) == 1 and (t.is_seq(a0) or (I.tn(at[0]) in SEQ_TN)):
                return a0
            if len(args) <= 2 and a0.op == 'poly':
                v = self.rd(args[1]) if len(args) == 2 else I.default_value(et)
                return t.forseq(I.simplify(t.pos(a0)), t.fresh_bv(), seq(elem(I.coerce(v, et))))
            if a0.op == 'rec' and a0.args[0] == '$it':
                return self.slice_its(a0, self.rd(args[1]), et)
            raise Unsupported('constructor of %s' % s)
        if tn == VARIABLE:
            return I.boolnum(self.rd(args[0]))
        if tn == 'std::function' or tn == 'std::move_only_function':
            return self.rd(args[0])
        if tn == 'std::variant':
            alts = [a['t'] for a in ty['targs'] if 't' in a]
            for i, a in enumerate(alts):
                if I.ty(a)['s'] == I.ty(at[0])['s']:
                    return mk('alt', i, self.take(args[0], I.ty(at[0]).get('ref') == 2))
            # converting construction: unique convertible alternative
            c = [i for i, a in enumerate(alts) if I.convertible(at[0], a, None)]
            if len(c) == 1:
                return mk('alt', c[0], I.construct(alts[c[0]], [args[0]], [at[0]]))
            raise Unsupported('conversion to %s' % s)
        if tn == 'std::optional':
            vt = I.elem_tid(tid)
            return mk('rec', '$opt', ('has', 'val'), TRUE, I.construct(vt, args, at))
        if tn and tn.endswith('expected') and tn.endswith('::expected'):
            vt, et = [a['t'] for a in ty['targs']][:2]
            a0 = self.rd(args[0])
            if (I.tn(at[0]) or '').endswith('::unexpected'):
                return mk('rec', '$expected', ('ok', 'val', 'err'), FALSE, UNDEF, I.proj(a0, 'err'))
            if a0.op == 'rec' and a0.args[0] == '$expected':
                return a0
            if (I.tn(at[0]) or '').endswith('unexpect_t'):
                return mk('rec', '$expected', ('ok', 'val', 'err'), FALSE, UNDEF, self.rd(args[1]))
            if (I.tn(at[0]) or '').endswith('in_place_t'):
                return mk('rec', '$expected', ('ok', 'val', 'err'), TRUE,
                          I.construct(vt, args[1:], at[1:]), UNDEF)
            return mk('rec', '$expected', ('ok', 'val', 'err'), TRUE, I.construct(vt, args, at), UNDEF)
        if tn and tn.endswith('::unexpected'):
            return mk('rec', '$unexpected', ('err',), self.rd(args[0]))
        if tn in STRINGY:
            return self.rd(args[0])
        if tn in PTRS:
            return self.rd(args[0])
        if tn in ('std::chrono::duration',):
            per = self.period(tid)
            v = self.rd(args[0])
            if I.tn(at[0]) == 'std::chrono::duration':
                return v
            return mul(v, num(per))
        if tn == 'std::chrono::time_point':
            return self.rd(args[0])
        if tn == 'sleipnir::VariableMatrix':
            return self.matrix(args, at, tid)
        if tn in ('sleipnir::EqualityConstraints', 'sleipnir::InequalityConstraints'):
            a0 = self.rd(args[0])
            return self.flatten_rels(a0)
        if tn == 'std::atomic':
            return self.rd(args[0])
        if tn in ('std::runtime_error', 'std::logic_error', 'std::invalid_argument', 'std::out_of_range'):
            return mk('rec', '$exc', ('what',), self.rd(args[0]))
        if tn in ('std::pair', 'std::tuple'):
            ta = [a['t'] for a in ty['targs'] if 't' in a]
            if len(ta) == len(args):
                return mk('rec', '$pair', tuple('m%d' % i for i in range(len(ta))),
                          *[(a if I.is_ref(u) else I.construct(u, [a], [b])) for u, a, b in zip(ta, args, at)])
        if tn in ('std::reverse_iterator',):
            v = self.rd(args[0])
            return mk('rec', '$rit', v.args[1], *v.args[2:])
        if tn == '__gnu_cxx::__normal_iterator':
            return self.rd(args[0])
        if tn in ('std::move_iterator',):
            return self.rd(args[0])
        if tn == 'std::reference_wrapper':
            return args[0]
        raise Unsupported('constructor of %s' % s, loc)

    def period(self, tid):
        ta = self.I.ty(tid)['targs']
        r = self.I.ty(ta[1]['t'])
        n, d = [int(a['v']) for a in r['targs']]
        return Fraction(n, d)

    def flatten_rels(self, v):
        if t.is_seq(v):
            out = EMPTY
            for g in t.segs_of(v):
                if g.op == 'elem' and t.is_seq(g.args[0]):
                    out = cat(out, self.flatten_rels(g.args[0]))
                elif g.op == 'for':
                    var, b = t.open_(g, 2)
                    out = cat(out, t.forseq(g.args[1], var, self.flatten_rels(b)))
                elif g.op == 'if':
                    out = cat(out, t.ifseg(g.args[0], self.flatten_rels(g.args[1])))
                else:
                    out = cat(out, mk('seq', g))
            return out
        return v

    def matrix(self, args, at, tid):
        I = self.I
        a0 = self.rd(args[0])
        if len(args) == 1 and t.is_seq(a0):
            rows = []
            for g in a0.args:
                if g.op != 'elem' or not t.is_seq(g.args[0]):
                    raise Unsupported('matrix of unknown shape')
                r = g.args[0]
                if any(h.op != 'elem' for h in r.args):
                    raise Unsupported('matrix of unknown shape')
                rows.append([h.args[0] for h in r.args])
            return mk('mat', len(rows), len(rows[0]) if rows else 0, *[x for r in rows for x in r])
        if all(self.rd(a).op == 'poly' for a in args):
            if len(args) == 1 and I.tn(at[0]) == VARIABLE:
                return mk('mat', 1, 1, a0)
            n = t.const_of(a0)
            m = t.const_of(self.rd(args[1])) if len(args) > 1 else 1
            if n is not None and m is not None:
                return mk('mat', int(n), int(m), *[num(0)] * int(n * m))
        raise Unsupported('matrix construction')

    # ------------------------------------------------------------ slices
    def slice_its(self, a, b, et=None):
        I = self.I
        if a.op != 'rec' or b.op != 'rec':
            raise Unsupported('iterator range')
        if a.args[2] is not b.args[2]:
            raise Unsupported('iterator range over two containers')
        et = a.args[4].args[0]
        s = I.read(a.args[2])
        if a.args[0] == '$rit':
            i, j = a.args[3], b.args[3]
            n = I.simplify(t.pos(sub(i, j)))
            v = t.fresh_bv()
            return t.forseq(n, v, seq(elem(t.get(s, sub(sub(i, num(1)), atom(v)), lambda o: I.expand(et, o)))))
        return self.slice(s, a.args[3], b.args[3], et)

    def slice(self, s, i, j, et):
        I = self.I
        if t.const_of(i) == 0 and j is t.length(s):
            return s
        if i is j:
            return EMPTY
        if s.op == 'seq':
            # whole leading/trailing segments
            ci = t.const_of(i)
            if j is t.length(s) and ci is not None:
                r = t.slice_tail(s, i)
                if r is not None:
                    return r
            if t.const_of(i) == 0:
                off = num(0)
                for n, g in enumerate(s.args):
                    if off is j:
                        return mk('seq', *s.args[:n])
                    off = add(off, t.seglen(g))
        n = I.simplify(t.pos(sub(j, i)))
        v = t.fresh_bv()
        return t.forseq(n, v, seq(elem(t.get(s, add(i, atom(v)), lambda o: I.expand(et, o)))))

    # ------------------------------------------------------------ calls
    def call(self, fn, obj, args, x, F):
        I = self.I
        n = fn['n']
        qn = fn['qn']
        cls = fn.get('cls')
        if cls is not None and cls >= 0:
            tn = I.tn(cls) or ''
            r = self.member(tn, n, cls, fn, obj, args, x, F)
            if r is not NotImplemented:
                return r
            raise Unsupported('library call %s::%s' % (tn, n), x.get('l'))
        r = self.free(qn, n, fn, args, x, F)
        if r is NotImplemented:
            raise Unsupported('library call %s' % qn, x.get('l'))
        return r

    def member(self, tn, n, cls, fn, obj, args, x, F):
        I = self.I
        loc = x.get('l')
        if fn.get('static') or obj is None:
            return self.static_member(tn, n, cls, fn, args, x, F)
        if tn in SEQ_TN:
            return self.seq_member(n, cls, fn, obj, args, x, F)
        if tn.startswith('std::ranges::'):
            if n == 'operator()':
                r = self.range_object(tn, fn, args, x, F)
                if r is not NotImplemented:
                    return r
            v = self.rd(I.ev(obj, F))
            if self.is_view(v):
                return self.view_member(n, v, args, F)
        if tn == '__gnu_cxx::__normal_iterator' or tn in ('std::reverse_iterator', 'std::move_iterator'):
            r = I.lv(obj, F)
            v = I.read(r)
            if n == 'operator*':
                return self.it_ref(v)
            if n == 'operator->':
                return self.it_ref(v)
            if n in ('operator++', 'operator--'):
                w = self.it_add(v, num(1 if n == 'operator++' else -1))
                I.write(r, w)
                return r if not args else v
            if n in ('operator+', 'operator-') and args:
                b = I.rv(args[0], F)
                return self.it_arith(n[-1], v, b)
            if n in ('operator+=', 'operator-='):
                b = I.rv(args[0], F)
                I.write(r, self.it_add(v, b if n == 'operator+=' else neg(b)))
                return r
            if n == 'operator[]':
                return self.it_ref(self.it_add(v, I.rv(args[0], F)))
            if n == 'operator=':
                I.write(r, I.rv(args[0], F))
                return r
            if n == 'base':
                return v
        if tn == VARIABLE:
            r = I.lv(obj, F)
            v = I.read(r)
            if n == 'SetValue':
                I.event('setvalue', loc, v, I.boolnum(I.rv(args[0], F)))
                return r
            if n == 'Value':
                return self.value_of(v, I.cells[LOG])
            if n == 'operator=':
                a = I.boolnum(I.rv(args[0], F))
                if I.tn(args[0]['t']) == VARIABLE or x.get('e') == 'opcall' and I.tn(fn['pt'][0]) == VARIABLE:
                    I.write(r, a)
                else:
                    I.write(r, a)
                return r
            if n in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
                b = I.boolnum(I.rv(args[0], F))
                op = n[-2]
                I.write(r, {'+': add, '-': sub, '*': mul, '/': t.div}[op](v, b))
                return r
            if n == 'Update':
                return VOID
        if tn == 'sleipnir::VariableMatrix':
            r = I.lv(obj, F)
            v = I.read(r)
            return self.mat_member(n, r, v, args, x, F)
        if tn == 'sleipnir::OptimizationProblem':
            return self.problem(n, obj, fn, args, x, F)
        if tn in ('std::function', 'std::move_only_function', 'rust::Fn', 'rust::cxxbridge1::Fn'):
            r = I.lv(obj, F)
            if n == 'operator()':
                v = I.read(r)
                vals = [I.ev(a, F) for a in args]
                vals = [w if (w.op == 'ref' or is_refish(w) or True) else w for w in vals]
                return I.invoke(r, vals, [a['t'] for a in args], dict(x, rtid=fn['rt']))
            if n == 'operator bool':
                v = I.read(r)
                return FALSE if v is NULL else TRUE
            if n == 'operator=':
                v = I.rv(args[0], F)
                I.write(r, v)
                return r
        if tn in ('std::atomic', 'std::__atomic_base', 'std::atomic_flag'):
            return self.atomic(n, obj, args, x, F)
        if tn.endswith('::expected') or tn == 'std::optional' or '_Optional' in tn:
            r = I.lv(obj, F)
            v = I.read(r)
            okn = 'ok' if tn.endswith('::expected') else 'has'
            if v.op == 'rec':
                if n in ('has_value', 'operator bool', '_M_is_engaged'):
                    return I.proj(v, okn)
                if n in ('value', 'operator*', 'operator->', '_M_get'):
                    return I.sub_ref(r, 'val')
                if n == 'error':
                    return I.sub_ref(r, 'err')
                if n == 'value_or':
                    return ite(I.proj(v, okn), I.proj(v, 'val'), I.rv(args[0], F))
                if n == 'operator=':
                    a = I.rv(args[0], F)
                    if a.op == 'rec' and a.args[0] in ('$opt', '$expected'):
                        I.write(r, a)
                    elif okn == 'has':
                        I.write(r, mk('rec', '$opt', ('has', 'val'), TRUE, a))
                    return r
                if n == 'reset':
                    I.write(r, mk('rec', '$opt', ('has', 'val'), FALSE, UNDEF))
                    return VOID
        if tn in PTRS:
            r = I.lv(obj, F)
            v = I.read(r)
            if n in ('operator*', 'operator->', 'get'):
                return v
            if n == 'operator bool':
                return FALSE if v is NULL else TRUE
            if n == 'operator=':
                I.write(r, I.rv(args[0], F))
                return r
        if tn == 'std::chrono::duration':
            v = I.rv(obj, F)
            if n == 'count':
                return mul(v, num(1 / self.period(cls)))
            if n == 'operator-' and not args:
                return neg(v)
            if n == 'operator+' and not args:
                return v
            if n in ('operator+=', 'operator-=', 'operator=') and args:
                r = I.lv(obj, F)
                b = I.rv(args[0], F)
                I.write(r, b if n == 'operator=' else (add if n == 'operator+=' else sub)(v, b))
                return r
        if tn == 'std::chrono::time_point':
            if n == 'time_since_epoch':
                return I.rv(obj, F)
            if n in ('operator+=', 'operator-=', 'operator='):
                r = I.lv(obj, F)
                b = I.rv(args[0], F)
                v = I.read(r)
                I.write(r, b if n == 'operator=' else (add if n == 'operator+=' else sub)(v, b))
                return r
        if tn in STRINGY:
            v = I.rv(obj, F)
            if n in ('c_str', 'data', 'str') or n.startswith('operator '):
                return v
            if n in ('size', 'length'):
                return atom(mk('len', mk('obj', 'sym', 'string ' + t.show(v), None)))
            if n == 'empty':
                return t.bconst(v is mk('str', '')) if v.op == 'str' else mk('ueq', v, mk('str', ''))
            if n == 'operator=':
                r = I.lv(obj, F)
                I.write(r, I.rv(args[0], F))
                return r
        if tn in ('std::exception', 'std::runtime_error') and n == 'what':
            return I.proj(I.rv(obj, F), 'what')
        if tn == 'std::variant':
            v = I.rv(obj, F)
            if n == 'index':
                return self.alt_index(v, cls)
            if n == 'operator=':
                r = I.lv(obj, F)
                w = I.ev(args[0], F)
                I.write(r, self.build(cls, [w], [args[0]['t']], loc, None, None))
                return r
            if n == 'emplace':
                pass
        if tn in ('std::reference_wrapper',):
            v = I.rv(obj, F)
            return v
        if tn in ('std::pair', 'std::tuple') and n == 'operator=':
            w = I.ev(args[0], F)
            if w.op == 'ref':
                w = I.read(w)
            r = I.lv(obj, F)
            v = I.read(r)
            if v.op == 'rec' and w.op == 'rec' and len(v.args) == len(w.args) and \
                    any(is_refish(y) for y in v.args[2:] + w.args[2:]):
                vals = [self.rd(y) for y in w.args[2:]]
                for m, old, new in zip(v.args[1], v.args[2:], vals):
                    I.write(old if is_refish(old) else I.sub_ref(r, m), new)
            else:
                I.write(r, w)
            return r
        return NotImplemented

    def static_member(self, tn, n, cls, fn, args, x, F):
        I = self.I
        if n == 'now':
            return atom(mk('uf', 'now', 'real', *self.moment()))
        if tn == 'std::numeric_limits':
            ty = I.ty(I.ty(cls)['targs'][0]['t'])
            if n == 'infinity':
                return t.INF
            if n == 'max' and ty['k'] == 'float':
                return t.sym('max-double', 'pos')
            if n == 'lowest' and ty['k'] == 'float':
                return neg(t.sym('max-double', 'pos'))
            if n == 'epsilon':
                return num(Fraction(1, 2 ** 52))
            if n == 'max' and ty['k'] == 'int':
                return num(2 ** (ty['w'] - (0 if ty.get('u') else 1)) - 1)
            if n == 'min' and ty['k'] == 'int':
                return num(0 if ty.get('u') else -2 ** (ty['w'] - 1))
        if n == 'zero':
            return num(0)
        return NotImplemented

    # ---- sequences ------------------------------------------------------
    def seq_member(self, n, cls, fn, obj, args, x, F):
        I = self.I
        et = I.elem_tid(cls)
        if x.get('arrow'):
            r = I.rv(obj, F)
            if r.op == 'rec':
                r = self.it_ref(r)
        else:
            r = I.lv(obj, F)
        v = I.read(r)
        if self.is_view(v):
            if n == 'operator=':
                I.write(r, self.view_of(I.ev(args[0], F), args[0]['t']))
                return r
            return self.view_member(n, v, args, F)
        if n in ('operator[]', 'at'):
            i = I.boolnum(I.rv(args[0], F))
            self.inside(r, i, x)
            return self.seq_at(r, i, et)
        if n == 'front':
            self.inside(r, num(0), x)
            return self.seq_at(r, num(0), et)
        s = I.read(r)
        if s.op in ('obj', 'phi'):
            s = seq(opq(s))
        L = t.length(s)
        if n == 'back':
            self.inside(r, sub(L, num(1)), x)
            return self.seq_at(r, sub(L, num(1)), et)
        if n in ('size', 'length', 'ssize'):
            return L
        if n == 'empty':
            return le0(L)
        if n in ('begin', 'cbegin', 'data'):
            return self.it(r, num(0), et)
        if n in ('end', 'cend'):
            return self.it(r, L, et)
        if n in ('rbegin', 'crbegin'):
            v = self.it(r, L, et)
            return mk('rec', '$rit', *v.args[1:])
        if n in ('rend', 'crend'):
            v = self.it(r, num(0), et)
            return mk('rec', '$rit', *v.args[1:])
        if n in ('reserve', 'shrink_to_fit'):
            for a in args:
                I.rv(a, F)
            return VOID
        if n == 'capacity':
            return L
        if n == 'push_back':
            a = args[0]
            v = I.ev(a, F)
            w = self.take(v, I.ty(fn['pt'][0]).get('ref') == 2 and a.get('vc') == 'x')
            s = I.read(r)
            if s.op in ('obj', 'phi'):
                s = seq(opq(s))
            I.write(r, cat(s, seq(elem(I.coerce(w, et)))))
            return VOID
        if n == 'emplace_back':
            vals = [I.ev(a, F) for a in args]
            tids = [a['t'] for a in args]
            # static value categories: lvalues copy, xvalues move
            vv = []
            for a, v in zip(args, vals):
                if a.get('vc') == 'l' and (v.op == 'ref' or is_refish(v)):
                    vv.append(v)
                else:
                    vv.append(v)
            w = self.emplace(et, args, vv, tids, x)
            s = I.read(r)
            if s.op in ('obj', 'phi'):
                s = seq(opq(s))
            I.write(r, cat(s, seq(elem(w))))
            return self.seq_at(r, t.length(s), et)
        if n == 'pop_back':
            I.write(r, self.slice(s, num(0), sub(L, num(1)), et))
            return VOID
        if n == 'clear':
            I.write(r, EMPTY)
            return VOID
        if n == 'truncate':
            m = I.rv(args[0], F)
            I.write(r, self.slice(s, num(0), t.minmax('min', [m, L]), et))
            return VOID
        if n == 'resize':
            m = I.rv(args[0], F)
            dv = I.rv(args[1], F) if len(args) > 1 else I.default_value(et)
            s = I.read(r)
            if s.op in ('obj', 'phi'):
                s = seq(opq(s))
            L = t.length(s)
            c = I.decide(le0(sub(L, m)))
            grow = cat(s, t.forseq(I.simplify(t.pos(sub(m, L))), t.fresh_bv(), seq(elem(dv))))
            if c is TRUE:
                I.write(r, grow)
            else:
                I.write(r, ite(c, grow, self.slice(s, num(0), m, et)))
            return VOID
        if n == 'assign':
            vals = [I.rv(a, F) for a in args]
            if vals[0].op == 'rec':
                I.write(r, self.slice_its(vals[0], vals[1]))
            elif len(vals) == 2:
                I.write(r, t.forseq(I.simplify(t.pos(vals[0])), t.fresh_bv(), seq(elem(vals[1]))))
            else:
                I.write(r, vals[0])
            return VOID
        if n == 'operator=':
            v = I.ev(args[0], F)
            w = self.rd(v)
            I.write(r, w)
            if fn.get('move_assign') and v.op == 'ref' and v is not r:
                I.write(v, EMPTY)
            return r
        if n == 'fill':
            v = I.rv(args[0], F)
            I.write(r, t.forseq(L, t.fresh_bv(), seq(elem(v))))
            return VOID
        if n == 'swap':
            o = I.lv(args[0], F)
            a, b = I.read(r), I.read(o)
            I.write(r, b)
            I.write(o, a)
            return VOID
        if n in ('insert', 'emplace'):
            p = I.rv(args[0], F)
            at = p.args[3]
            vals = [I.ev(a, F) for a in args[1:]]
            if n == 'emplace':
                new = seq(elem(self.emplace(et, args[1:], vals, [a['t'] for a in args[1:]], x)))
            elif len(vals) == 1:
                v = self.rd(vals[0])
                if I.tn(args[1]['t']) == 'std::initializer_list':
                    new = v
                else:
                    new = seq(elem(I.coerce(v, et)))
            else:
                v0, v1 = self.rd(vals[0]), self.rd(vals[1])
                if v0.op == 'rec':
                    new = self.slice_its(v0, v1)
                else:
                    new = t.forseq(I.simplify(t.pos(v0)), t.fresh_bv(), seq(elem(v1)))
            s = I.read(r)
            I.write(r, cat(self.slice(s, num(0), at, et), new, self.slice(s, at, t.length(s), et)))
            return self.it(r, at, et)
        if n == 'erase':
            p = I.rv(args[0], F)
            a = p.args[3]
            b = I.rv(args[1], F).args[3] if len(args) > 1 else add(a, num(1))
            s = I.read(r)        # the arguments may have changed it
            if s.op in ('obj', 'phi'):
                s = seq(opq(s))
            I.write(r, cat(self.slice(s, num(0), a, et), self.slice(s, b, t.length(s), et)))
            return self.it(r, a, et)
        if n == 'max_size':
            return num(2 ** 60)
        return NotImplemented

    def emplace(self, et, args, vals, tids, x):
        """Element built in place from forwarded arguments."""
        I = self.I
        fixed = []
        for a, v in zip(args, vals):
            # an lvalue argument is copied, whatever its declared type
            fixed.append(v)
        if len(args) == 1 and I.ty(args[0]['t'])['s'] == I.ty(et)['s']:
            return self.take(vals[0], args[0].get('vc') == 'x' and not args[0]['e'] == 'temp')
        return I.construct(et, fixed, tids, x.get('l'))

    # ---- sleipnir ------------------------------------------------------------
    def lhs_op(self, op, a, b):
        return {'+': add, '-': sub, '*': mul, '/': t.div}[op](a, b)

    def mat_member(self, n, r, v, args, x, F):
        I = self.I
        if v.op != 'mat':
            raise Unsupported('matrix of unknown shape')
        if n in ('operator()', 'operator[]'):
            ix = [t.const_of(I.rv(a, F)) for a in args]
            if any(i is None for i in ix):
                raise Unsupported('matrix index')
            k = int(ix[0]) if len(ix) == 1 else int(ix[0]) * v.args[1] + int(ix[1])
            return v.args[2 + k]
        if n == 'T':
            R, C = v.args[0], v.args[1]
            e = v.args[2:]
            return mk('mat', C, R, *[e[i * C + j] for j in range(C) for i in range(R)])
        if n == 'Rows':
            return num(v.args[0])
        if n == 'Cols':
            return num(v.args[1])
        if n == 'Value':
            ix = [t.const_of(I.rv(a, F)) for a in args]
            k = int(ix[0]) if len(ix) == 1 else int(ix[0]) * v.args[1] + int(ix[1])
            return self.value_of(v.args[2 + k], I.cells[LOG])
        return NotImplemented

    def as_mat(self, v):
        return v if v.op == 'mat' else mk('mat', 1, 1, v)

    def var_op(self, op, vals):
        """Arithmetic and comparison operators on Variable / VariableMatrix."""
        if len(vals) == 1:
            v = vals[0]
            if v.op == 'mat':
                return mk('mat', v.args[0], v.args[1], *[neg(e) if op == '-' else e for e in v.args[2:]])
            return neg(v) if op == '-' else v
        a, b = vals
        if op in ('==', '<', '<=', '>', '>='):
            if a.op == 'mat' or b.op == 'mat':
                if a.op == 'mat' and b.op != 'mat':
                    b = mk('mat', a.args[0], a.args[1], *[b] * (a.args[0] * a.args[1]))
                if b.op == 'mat' and a.op != 'mat':
                    a = mk('mat', b.args[0], b.args[1], *[a] * (b.args[0] * b.args[1]))
                if a.args[:2] != b.args[:2]:
                    raise Unsupported('matrix shapes differ')
                out = []
                for p, q in zip(a.args[2:], b.args[2:]):
                    out.append(elem(self.relation(op, p, q)))
                return seq(*out)
            return seq(elem(self.relation(op, a, b)))
        if a.op == 'mat' or b.op == 'mat':
            if op == '*':
                if a.op != 'mat':
                    return mk('mat', b.args[0], b.args[1], *[mul(a, e) for e in b.args[2:]])
                if b.op != 'mat':
                    return mk('mat', a.args[0], a.args[1], *[mul(b, e) for e in a.args[2:]])
                R, K, C = a.args[0], a.args[1], b.args[1]
                out = []
                for i in range(R):
                    for j in range(C):
                        out.append(t.addn(*[mul(a.args[2 + i * K + k], b.args[2 + k * C + j])
                                            for k in range(K)]))
                return mk('mat', R, C, *out)
            a, b = self.as_mat(a), self.as_mat(b)
            if a.args[:2] != b.args[:2]:
                raise Unsupported('matrix shapes differ')
            return mk('mat', a.args[0], a.args[1],
                      *[self.lhs_op(op, p, q) for p, q in zip(a.args[2:], b.args[2:])])
        return self.lhs_op(op, a, b)

    def relation(self, op, a, b):
        if op == '==':
            return t.rel('==', sub(a, b))
        if op in ('<', '<='):
            return t.rel('>=', sub(b, a))
        return t.rel('>=', sub(a, b))

    def problem(self, n, obj, fn, args, x, F):
        I = self.I
        loc = x.get('l')
        r = I.lv(obj, F)
        if n == 'DecisionVariable':
            site = I.site(x)
            if not args:
                I.event('decl', loc, atom(mk('dv', site, *I.binders)))
                return atom(mk('dv', site, *I.binders))
            dims = [t.const_of(I.rv(a, F)) for a in args]
            if all(d is not None for d in dims):
                R = int(dims[0])
                C = int(dims[1]) if len(dims) > 1 else 1
                out = []
                for i in range(R * C):
                    out.append(atom(mk('dv', site, *I.binders, num(i))))
                return mk('mat', R, C, *out)
            raise Unsupported('decision matrix of symbolic size')
        if n == 'SubjectTo':
            v = self.flatten_rels(I.rv(args[0], F))
            self.subject(v, loc)
            return VOID
        if n in ('Minimize', 'Maximize'):
            v = I.rv(args[0], F)
            I.event('minimize', loc, v if n == 'Minimize' else neg(v))
            return VOID
        if n == 'Callback':
            v = I.rv(args[0], F)
            I.event('callback', loc)
            if I.read(r).op == 'rec':
                I.write(I.sub_ref(r, 'cb'), v)
            return VOID
        if n == 'Solve':
            cfg = I.rv(args[0], F) if args else I.default_value(fn['pt'][0])
            I.event('solve', loc, cfg)
            p = I.read(r)
            cb = I.sub_ref(r, 'cb') if p.op == 'rec' else None
            if cb is not None and I.read(cb) is not NULL:
                e = self.solved_before(I.cells[LOG])
                cnt = t.sym('solver iterations %d' % (e + 1) if e else 'solver iterations', 'nat')

                def body(k):
                    I.event('iter', loc, add(k, num(RUN * e)))
                    st = I.invoke(cb, [mk('obj', 'sym', 'iteration info', None)],
                                  None, dict(x, rtid=None))
                    st = I.truth(st) if st is not VOID else FALSE
                    I.event('poll', loc, st)
                    return I.branch(I.decide(st), lambda: Flow({'b': (TRUE, I.cells, None)}), I.normal)
                was, self.epoch = self.epoch, e
                fl = I.loop(x, None, body, None, count=cnt)
                self.epoch = was
                I.cells = dict(fl.k['n'][1])
            e = self.solved_before(I.cells[LOG])
            I.event('solved', loc, *([num(e)] if e else []))
            return I.expand(fn['rt'], t.osym('status %d' % (e + 1) if e else 'status'))
        return NotImplemented

    def solved_before(self, log):
        """How often the solver ran before, where that is known."""
        n = 0
        for g in t.segs_of(log):
            if g.op == 'elem' and g.args[0].op == 'ev' and g.args[0].args[0] == 'solved':
                n += 1
        return n

    def subject(self, v, loc):
        I = self.I
        ls = I.locstr(loc)

        def conv(s):
            out = EMPTY
            for g in t.segs_of(s):
                if g.op == 'elem':
                    out = cat(out, seq(elem(mk('ev', 'subject', ls, g.args[0]))))
                elif g.op == 'if':
                    out = cat(out, t.ifseg(g.args[0], conv(g.args[1])))
                elif g.op == 'for':
                    var, b = t.open_(g, 2)
                    out = cat(out, t.forseq(g.args[1], var, conv(b)))
                else:
                    out = cat(out, seq(elem(mk('ev', 'subjectall', ls, mk('seq', g)))))
            return out
        if not t.is_seq(v):
            raise Unsupported('constraint of unknown shape')
        I.cells[LOG] = cat(I.cells[LOG], conv(v))

    # values of decision variables ---------------------------------------------
    def value_of(self, p, log):
        if p.op != 'poly':
            raise Unsupported('Value() of %s' % p.op)
        acc = num(0)
        for m, c in p.args:
            r = num(c)
            for a, e in m:
                if a.op in ('dv', 'obj', 'ite', 'phi'):
                    r = mul(r, t.powi(self.lookup(a, log), e))
                elif a.op in ('sin', 'cos', 'sqrt', 'abs', 'atan2', 'inv'):
                    r = mul(r, t.powi(t.rebuild(a.op, [self.value_of(z, log) for z in a.args]), e))
                else:
                    r = mul(r, t._rawpoly({((a, e),): 1}))
            acc = add(acc, r)
        return acc

    def lookup(self, a, log):
        if a.op == 'ite':
            return ite(a.args[0], self.value_of(a.args[1], log), self.value_of(a.args[2], log))
        segs = list(t.segs_of(log))
        while segs:
            g = segs[-1]
            if g.op == 'elem':
                ev = g.args[0]
                if ev.args[0] == 'setvalue':
                    c = same_var(ev.args[2], a)
                    c = self.I.decide(c) if c is not None else None
                    if c is TRUE:
                        return ev.args[3]
                    if c is not FALSE:
                        if c is None:
                            break
                        segs.pop()
                        return ite(c, ev.args[3], self.lookup(a, mk('seq', *segs)))
                elif ev.args[0] == 'iter':
                    return atom(mk('val', a, ev.args[2]))
                elif ev.args[0] == 'solved':
                    return atom(mk('val', a, 'final%s' % (t.show(ev.args[2]) if len(ev.args) > 2 else '')))
                segs.pop()
                continue
            if g.op == 'opq':
                break
            if not touches(g, a):
                segs.pop()
                continue
            if g.op == 'for':
                j = self.find_setter(g, a)
                if j is not None:
                    jj, e = j
                    cnt = g.args[1]
                    inr = and_(le0(neg(jj)), lt0(sub(jj, cnt)))
                    c = self.I.decide(inr)
                    if c is TRUE:
                        return e
                    segs.pop()
                    if c is FALSE:
                        continue
                    with self.I.with_facts(not_(c)):
                        rest = self.lookup(a, mk('seq', *segs))
                    return ite(c, e, rest)
            if g.op == 'if':
                segs.pop()
                rest = mk('seq', *segs)
                b = g.args[1]
                with self.I.with_facts(g.args[0]):
                    yes = self.lookup(a, cat(rest, b if b.op == 'seq' else seq(mk('sub', b))))
                return ite(g.args[0], yes, self.lookup(a, rest))
            break
        rest = mk('seq', *segs)
        if not segs:
            return atom(mk('val', a, 'unset'))
        return atom(mk('valof', a, rest))

    def find_setter(self, g, a):
        """The last setvalue in the body of a for segment that can hit a."""
        v, b = t.open_(g, 2)
        hits = []
        for h in b.args:
            if h.op == 'elem':
                ev = h.args[0]
                if ev.args[0] == 'setvalue':
                    j = unify(ev.args[2], a, v)
                    if j is not None:
                        hits.append((j, t.subst(ev.args[3], {v: j})))
                    elif same_site(ev.args[2], a):
                        return None
            elif touches(h, a):
                return None
        return hits[-1] if hits else None

    def resolve_vals(self, rest, p, k, ka, init):
        """Inside one iteration, reads of values written by earlier iterations."""
        for _ in range(4):
            atoms = [x for x in find_ops(rest, 'valof') if p in x.args[1].fv]
            if not atoms:
                return rest
            progress = False
            for x in atoms:
                if not (x.args[1].op == 'seq' and len(x.args[1].args) == 1 and x.args[1].args[0] is opq(p)):
                    return None
                a = x.args[0]
                # pretend the previous iterations form a for segment
                j = t.fresh_bv()
                body = t.subst(rest, {k: atom(j)})
                hit = None
                for h in body.args:
                    if h.op == 'elem' and h.args[0].args[0] == 'setvalue':
                        jj = unify(h.args[0].args[2], a, j)
                        if jj is not None:
                            hit = (jj, t.subst(h.args[0].args[3], {j: jj}))
                        elif same_site(h.args[0].args[2], a):
                            return None
                    elif touches(h, a):
                        return None
                if hit is None:
                    new = self.lookup(a, init)
                else:
                    jj, e = hit
                    if p in e.fv:
                        continue
                    c = and_(le0(neg(jj)), lt0(sub(jj, ka)))
                    with self.I.with_facts(le0(neg(ka))):
                        c = self.I.decide(c)
                        with self.I.with_facts(not_(c)):
                            base = self.lookup(a, init)
                    new = ite(c, e, base)
                rest = ip.replace_term(rest, x, new)
                progress = True
                break
            if not progress:
                return None
        return None

    def moment(self):
        """Reads of the clock or of a flag within one iteration are taken to see the same."""
        bs = [b for b in self.I.binders if t.const_of(b) is None]
        if bs and self.epoch:
            bs[0] = add(bs[0], num(RUN * self.epoch))
        return bs

    # ---- atomics ----------------------------------------------------------------
    def gname(self, r):
        for g, q in self.I.globals.items():
            if q is r:
                s = self.I.P.statics.get(g)
                return s['qn'] if s else g
        return 'atomic@%s' % t.show(r)

    def atomic(self, n, obj, args, x, F):
        I = self.I
        r = I.lv(obj, F)
        nm = self.gname(r)
        loc = x.get('l')
        if n in ('operator=', 'store'):
            v = I.boolnum(I.rv(args[0], F))
            I.event('astore', loc, mk('str', nm), v)
            return v
        if n == 'load' or n.startswith('operator ') or n == 'test':
            return atom(mk('uf', 'aload', 'int', mk('str', nm), *self.moment()))
        if n in ('exchange', 'fetch_add', 'fetch_or', 'fetch_and', 'fetch_sub', 'operator++', 'operator--',
                 'compare_exchange_strong', 'compare_exchange_weak', 'operator+=', 'operator-=', 'operator|=',
                 'clear', 'test_and_set'):
            vs = [I.rv(a, F) for a in args[:1]] if n in ('exchange', 'fetch_add', 'fetch_or', 'fetch_and',
                                                         'fetch_sub') else []
            I.event('armw', loc, mk('str', nm), mk('str', n), *vs)
            return atom(mk('uf', 'aload', 'int', mk('str', nm), *self.moment()))
        if n == 'is_lock_free':
            return TRUE
        return NotImplemented

    # ---- variants ------------------------------------------------------------------
    def alts(self, tid):
        return [a['t'] for a in self.I.ty(tid)['targs'] if 't' in a]

    def alt_payload(self, v, i, tid):
        if v.op == 'alt':
            return v.args[1] if v.args[0] == i else UNDEF
        if v.op == 'ite':
            a, b = self.alt_payload(v.args[1], i, tid), self.alt_payload(v.args[2], i, tid)
            if a is UNDEF:
                return b
            if b is UNDEF:
                return a
            return ite(v.args[0], a, b)
        return self.I.expand(tid, t.ofld(v, 'alt%d' % i))

    def is_alt(self, v, i):
        if v.op == 'alt':
            return t.bconst(v.args[0] == i)
        if v.op == 'ite':
            return ite(v.args[0], self.is_alt(v.args[1], i), self.is_alt(v.args[2], i))
        return mk('isalt', v, i)

    def alt_index(self, v, tid):
        if v.op == 'alt':
            return num(v.args[0])
        r = num(0)
        for i in range(len(self.alts(tid)) - 1, -1, -1):
            r = ite(self.is_alt(v, i), num(i), r)
        return r

    def visit(self, fn, args, x, F):
        I = self.I
        f = I.ev(args[0], F)
        fv = self.rd(f)
        if f.op != 'ref':
            f = I.new_cell(fv)
        if len(args) != 2:
            raise Unsupported('visit of several variants')
        r = I.lv(args[1], F)
        v = I.read(r)
        vt = args[1]['t']
        alts = self.alts(vt)
        res = [None]

        def run(i):
            def go():
                pr = I.sub_ref(r, mk('alt', i, alts[i])) if v.op != 'alt' else I.new_cell(v.args[1], alts[i])
                if v.op == 'alt':
                    pass
                return self.apply_alt(f, fv, pr, alts[i], x)
            return go

        def chain(i):
            if i == len(alts) - 1:
                return run(i)()
            c = I.decide(self.is_alt(v, i))
            return I.fork(c, run(i), lambda: chain(i + 1))
        if v.op == 'alt':
            return run(v.args[0])()
        return self.visit_all(I, v, alts, run)

    def visit_all(self, I, v, alts, run):
        """One gated branch per alternative (exactly one alternative is active)."""
        base = I.cells
        outs = []
        val = None
        for i in range(len(alts)):
            c = self.is_alt(v, i)
            I.cells = dict(base)
            with I.with_facts(c):
                w = run(i)()
            outs.append((c, I.cells, w))
        # the log grows by each alternative's events under its own gate
        cells = outs[-1][1]
        val = outs[-1][2]
        log0 = base[LOG]
        simple = True
        same = []
        add_ = EMPTY
        for c, cs, w in outs:
            d = log_suffix(log0, cs[LOG])
            if d is None or any(cs.get(k) is not z for k, z in base.items() if k != LOG):
                simple = False
                break
            same.append((c, d))
        if simple:
            # alternatives with the same effect need no gate
            done = []
            for c, d in same:
                if any(d is e for e, _ in done):
                    continue
                cs_ = [c2 for c2, e in same if e is d]
                done.append((d, cs_))
            for d, cs_ in done:
                add_ = cat(add_, d if len(cs_) == len(same) else
                           cat(*[t.ifseg(c, d) for c in cs_]))
        if simple and all(w is VOID for _, _, w in outs):
            I.cells = dict(cells)
            I.cells[LOG] = cat(log0, add_)
            return VOID
        for c, cs, w in reversed(outs[:-1]):
            cells = I.merge_cells(c, cs, cells)
            if w is not val:
                val = ite(c, w, val)
        I.cells = cells
        return val

    def apply_alt(self, f, fv, pr, at, x):
        I = self.I
        if fv.op == 'rec' and isinstance(fv.args[0], tuple):
            d = I.lambda_op(fv, None, I.ty(at)['s'])
            if d is None:
                raise Unsupported('visitor has no case for %s' % I.ty(at)['s'])
            a = pr if I.is_ref(d['params'][0]['t']) else I.read(pr)
            return I.call_closure(f, d, [a], x)
        if fv.op == 'rec' and isinstance(fv.args[0], str):
            # function object with overloads
            for cand in I.P.functions.values():
                if cand['n'] == 'operator()' and cand.get('cls') is not None and \
                        I.ty(cand['cls'])['s'] == fv.args[0] and cand['params'] and \
                        I.ty(cand['params'][0]['t'])['s'] == I.ty(at)['s']:
                    a = pr if I.is_ref(cand['params'][0]['t']) else I.read(pr)
                    return I.call_def(cand, [a], f)
        raise Unsupported('visitor')

    # ---- invoking opaque callables ------------------------------------------------------
    def invoke_lib(self, v, args, arg_tids, node):
        I = self.I
        rt = node.get('rtid')
        if v is NULL:
            raise Unsupported('call of an empty function')
        if any(z.op in ('phi', 'bph') and 'obj' in z.args for z in v.fv):
            raise Unsupported('call through a function object changed by a loop (%s)' % t.show(v), node.get('l'))
        vals = [self.rd(a) for a in args]
        I.event('call', node.get('l'), v, *vals)
        if rt is None or I.ty(rt)['k'] == 'void':
            return VOID
        return I.expand(rt, mk('uf', 'result', 'obj', v, *vals, *I.binders))

    # ---- free functions ----------------------------------------------------------------------
    def free(self, qn, n, fn, args, x, F):
        I = self.I
        loc = x.get('l')
        R = lambda i: I.rv(args[i], F)
        if qn.startswith('operator') or 'operator' in n:
            r = self.free_op(qn, n, fn, args, x, F)
            if r is not NotImplemented:
                return r
        if n in MATH1 and len(args) == 1 and (qn.startswith('std::') or qn == n or
                                              qn.startswith('sleipnir::') or qn == '__builtin_' + n):
            return t.fn(n, I.boolnum(R(0)))
        base = n[len('__builtin_'):] if n.startswith('__builtin_') else n
        if base in MATH1 and len(args) == 1:
            return t.fn(base, I.boolnum(R(0)))
        if base in ('abs', 'fabs') and len(args) == 1:
            return t.absv(I.boolnum(R(0)))
        if base in ('hypot', 'atan2', 'pow', 'fmod', 'copysign', 'remainder', 'fmin', 'fmax', 'lerp', 'fma'):
            vs = [I.boolnum(I.rv(a, F)) for a in args]
            if base == 'fmin':
                return t.minmax('min', vs)
            if base == 'fmax':
                return t.minmax('max', vs)
            if base == 'lerp':
                return add(vs[0], mul(vs[2], sub(vs[1], vs[0])))
            if base == 'fma':
                return add(mul(vs[0], vs[1]), vs[2])
            if base == 'fmod':
                return sub(vs[0], mul(vs[1], t.fn('trunc', t.div(vs[0], vs[1]))))
            if base == 'remainder':
                return sub(vs[0], mul(vs[1], t.fn('round', t.div(vs[0], vs[1]))))
            if base == 'copysign':
                return mul(t.absv(vs[0]), atom(mk('sign', vs[1])) if t.const_of(vs[1]) is None else
                           t.sign(vs[1]))
            return t.fn(base, *vs)
        if base == 'sign' and qn.startswith('sleipnir'):
            return t.sign(R(0))
        if n in ('__builtin_inff', '__builtin_inf', '__builtin_huge_valf', '__builtin_huge_val'):
            return t.INF
        if n in ('isinf',) or base == 'isinf':
            return mk('ueq', *sorted((R(0), t.INF), key=lambda z: z.id))
        if base == 'isnan' and len(args) == 1:
            R(0)
            return FALSE            # real arithmetic
        if base in ('isfinite', 'isnormal') and len(args) == 1:
            v = I.boolnum(R(0))
            e = not_(mk('ueq', *sorted((v, t.INF), key=lambda z: z.id)))
            return e if base == 'isfinite' else t.and_(e, not_(eq0(v)))
        if base == 'signbit' and len(args) == 1:
            return t.lt0(I.boolnum(R(0)))
        if base in ('lround', 'llround', 'rint', 'nearbyint', 'lrint', 'llrint') and len(args) == 1:
            return t.fn('round', I.boolnum(R(0)))
        if base == 'fdim':
            return t.minmax('max', [sub(R(0), R(1)), num(0)])
        if n == 'midpoint' and qn.startswith('std::') and I.ty(args[0]['t'])['k'] == 'float':
            return t.div(add(R(0), R(1)), num(2))
        if n == '__assert_fail':
            I.event('abort', loc)
            return VOID
        if n == '__builtin_unreachable':
            return VOID
        if n in ('move', 'forward', 'as_const', 'move_if_noexcept', 'forward_like', 'ref', 'cref',
                 'addressof', 'launder', '__addressof') and len(args) == 1:
            v = I.ev(args[0], F)
            return v
        if n in ('min', 'max') and qn.startswith('std::'):
            if len(args) == 1:
                s = R(0)
                if s.op == 'seq' and all(g.op == 'elem' for g in s.args):
                    return t.minmax(n, [g.args[0] for g in s.args])
                return NotImplemented
            return t.minmax(n, [I.boolnum(R(0)), I.boolnum(R(1))])
        if n == 'clamp' and len(args) == 3:
            v, lo, hi = R(0), R(1), R(2)
            return t.minmax('min', [t.minmax('max', [v, lo]), hi])
        if n == 'swap' and len(args) == 2:
            a, b = I.lv(args[0], F), I.lv(args[1], F)
            x1, x2 = I.read(a), I.read(b)
            I.write(a, x2)
            I.write(b, x1)
            return VOID
        if n == 'exchange':
            a = I.lv(args[0], F)
            old = I.read(a)
            v = R(1)
            I.write(a, I.coerce(v, args[0]['t']))
            return old
        if n in ('make_unique', 'make_shared'):
            tid = fn['targs'][0]['t']
            vals = [I.ev(a, F) for a in args]
            r = I.new_cell(UNDEF, tid)
            I.write(r, I.construct(tid, vals, [a['t'] for a in args], loc))
            return r
        if n in ('begin', 'cbegin', 'end', 'cend', 'size', 'ssize', 'empty', 'rbegin', 'rend', 'data') and \
                len(args) == 1 and qn.startswith('std::'):
            return self.seq_member(n, args[0]['t'], fn, args[0], [], {}, F)
        if n in ('back_inserter',):
            r = I.lv(args[0], F)
            return mk('rec', '$back', ('c', 't'), r, mk('tid', I.elem_tid(args[0]['t'])))
        if n in ('make_move_iterator',):
            return R(0)
        if n in ('next', 'prev'):
            k = R(1) if len(args) > 1 else num(1)
            return self.it_add(R(0), k if n == 'next' else neg(k))
        if n == 'advance':
            r = I.lv(args[0], F)
            I.write(r, self.it_add(I.read(r), R(1)))
            return VOID
        if n == 'distance':
            return self.it_arith('-', R(1), R(0))
        if n == 'operator|' and 'ranges' in qn:
            return self.pipe(args, x, F)
        if n == 'visit':
            return self.visit(fn, args, x, F)
        if n == 'get' and fn.get('targs'):
            return self.std_get(fn, args, x, F)
        if n in ('holds_alternative', 'get_if') and fn.get('targs'):
            v = R(0)
            vt = args[0]['t']
            if n == 'get_if':
                r, vt = v, I.ty(vt).get('to')
                if r.op != 'ref' or vt is None:
                    return NotImplemented
                v = I.read(r)
            alts = self.alts(vt)
            ta = fn['targs'][0]
            want = I.ty(ta['t'])['s'] if 't' in ta else None
            for i, a in enumerate(alts):
                if (I.ty(a)['s'] == want) if want is not None else i == int(ta['v']):
                    c = self.is_alt(v, i)
                    return c if n != 'get_if' else ite(c, I.sub_ref(r, mk('alt', i, alts[i])), NULL)
            return NotImplemented
        if n == 'apply' and len(args) == 2:
            f = I.lv(args[0], F)
            tp = I.ev(args[1], F)
            r = tp if tp.op == 'ref' else I.new_cell(I.read(tp) if is_refish(tp) else tp, args[1]['t'])
            v = I.read(r)
            if v.op != 'rec':
                return NotImplemented
            ets = [a['t'] for a in I.ty(args[1]['t']).get('targs') or [] if 't' in a]
            if len(ets) != len(v.args[1]):
                return NotImplemented
            vals = [y if is_refish(y) else I.sub_ref(r, m) for m, y in zip(v.args[1], v.args[2:])]
            return I.invoke(f, vals, ets, dict(x, rtid=fn['rt']))
        if n in ('make_pair', 'make_tuple', 'tie', 'forward_as_tuple'):
            vals = []
            for a in args:
                v = I.ev(a, F)
                vals.append(v if n in ('tie', 'forward_as_tuple') else self.rd(v))
            return mk('rec', '$pair', tuple('m%d' % i for i in range(len(vals))), *vals)
        if n == 'ToMessage':
            return mk('uf', 'ToMessage', 'obj', R(0))
        if n in ('duration_cast', 'floor', 'round', 'time_point_cast') and 'chrono' in qn:
            v = R(0)
            tt = fn['targs'][0]['t']
            rep = I.ty(I.ty(tt)['targs'][0]['t'])
            if rep['k'] == 'int':
                per = self.period(tt)
                return mul(num(per), t.fn('trunc', mul(v, num(1 / per))))
            return v
        if n == 'move' and len(args) == 3 or n in ALGORITHMS and qn.startswith('std::'):
            return self.algorithm(n, fn, args, x, F)
        if n == 'to_string':
            return mk('uf', 'to_string', 'obj', R(0))
        return NotImplemented

    def std_get(self, fn, args, x, F):
        I = self.I
        ta = fn['targs'][0]
        v = I.ev(args[0], F)
        tn = I.tn(args[0]['t'])
        if tn == 'std::variant':
            alts = self.alts(args[0]['t'])
            i = int(ta['v']) if 'v' in ta else [I.ty(a)['s'] for a in alts].index(I.ty(ta['t'])['s'])
            if v.op == 'ref':
                w = I.read(v)
                if w.op == 'alt':
                    return w.args[1]
                return I.sub_ref(v, mk('alt', i, alts[i]))
            return self.alt_payload(v, i, alts[i])
        i = int(ta['v'])
        if tn == 'std::array':
            return self.seq_at(v, num(i), I.elem_tid(args[0]['t']))
        if v.op == 'ref':
            w = I.read(I.sub_ref(v, 'm%d' % i))
            return w if w.op == 'ref' else I.sub_ref(v, 'm%d' % i)
        return I.proj(v, 'm%d' % i)

    def free_op(self, qn, n, fn, args, x, F):
        I = self.I
        op = n[len('operator'):]
        tns = [I.tn(a['t']) or '' for a in args]
        if any(tn in (VARIABLE, 'sleipnir::VariableMatrix') for tn in tns):
            vals = []
            for a in args:
                v = I.rv(a, F)
                vals.append(v if v.op == 'mat' else I.boolnum(v))
            return self.var_op(op, vals)
        if any('chrono' in tn for tn in tns):
            vals = []
            for a in args:
                vals.append(I.boolnum(I.rv(a, F)))
            if op in ('+', '-', '*', '/') and len(vals) == 2:
                return self.lhs_op(op, *vals)
            if op in ('==', '!=', '<', '<=', '>', '>='):
                return I.arith(op, vals[0], vals[1], x['t'])
            if op == '<=>':
                return mk('rec', '$cmp', ('d',), sub(vals[0], vals[1]))
            if op == '-' and len(vals) == 1:
                return neg(vals[0])
        if any('ordering' in tn for tn in tns):
            v = I.rv(args[0], F)
            if v.op == 'rec' and v.args[0] == '$cmp':
                d = v.args[2]
                return {'<': lt0(d), '<=': le0(d), '>': lt0(neg(d)), '>=': le0(neg(d)), '==': eq0(d),
                        '!=': not_(eq0(d))}[op]
            v = I.rv(args[1], F)
            if v.op == 'rec' and v.args[0] == '$cmp':
                d = neg(v.args[2])
                return {'<': lt0(d), '<=': le0(d), '>': lt0(neg(d)), '>=': le0(neg(d)), '==': eq0(d),
                        '!=': not_(eq0(d))}[op]
        if any(tn in ('__gnu_cxx::__normal_iterator', 'std::reverse_iterator', 'std::move_iterator')
               for tn in tns):
            vals = [I.rv(a, F) for a in args]
            if op == '<=>':
                return mk('rec', '$cmp', ('d',), self.it_arith('-', *vals))
            return self.it_arith(op, *vals)
        if any(tn in STRINGY for tn in tns):
            vals = [I.rv(a, F) for a in args]
            if op == '==':
                if vals[0] is vals[1]:
                    return TRUE
                return mk('ueq', *sorted(vals, key=lambda z: z.id))
            return mk('uf', 'string' + op, 'obj', *vals)
        if len(args) == 2 and tns[0] in SEQ_TN and op in ('==', '!='):
            a, b = I.rv(args[0], F), I.rv(args[1], F)
            e = TRUE if a is b else mk('ueq', *sorted((a, b), key=lambda z: z.id))
            return e if op == '==' else not_(e)
        if len(args) == 2 and any('unique_ptr' in z or z == 'std::function' for z in tns):
            vals = [I.rv(a, F) for a in args]
            isn = t.bconst(vals[0] is NULL or vals[1] is NULL and vals[0] is NULL)
            return isn if op == '==' else not_(isn)
        return NotImplemented

    # ---- algorithms -----------------------------------------------------------------------
    def src(self, a, b):
        """(count, at(k)) for an iterator range."""
        if a.op != 'rec' or b.op != 'rec' or a.args[2] is not b.args[2]:
            raise Unsupported('iterator range')
        if a.args[0] == '$rit':
            n = sub(a.args[3], b.args[3])
        else:
            n = sub(b.args[3], a.args[3])
        n = self.I.simplify(t.pos(n))
        return n, lambda k: self.it_ref(self.it_add(a, k))

    def sink(self, out):
        """put(k, value) for an output iterator."""
        I = self.I
        if out.op == 'rec' and out.args[0] == '$back':
            r, et = out.args[2], out.args[3].args[0]

            def put(k, v):
                s = I.read(r)
                if s.op in ('obj', 'phi'):
                    s = seq(opq(s))
                I.write(r, cat(s, seq(elem(I.coerce(v, et)))))
            return put
        if out.op == 'rec' and out.args[0] in ('$it', '$rit'):
            return lambda k, v: I.write(self.it_ref(self.it_add(out, k)), v)
        raise Unsupported('output iterator')

    def val(self, v):
        return self.rd(v)


# ---- decision-variable identity --------------------------------------------------
def var_atom(p):
    if p.op == 'poly':
        return t.single_atom(p)
    return p


def same_var(p, a):
    """Condition under which the variable p is the variable a; None if unknown."""
    b = var_atom(p)
    if b is None:
        return None
    if b is a:
        return TRUE
    if b.op == 'dv' and a.op == 'dv':
        if b.args[0] != a.args[0] or len(b.args) != len(a.args):
            return FALSE
        return and_(*[eq0(sub(x, y)) for x, y in zip(b.args[1:], a.args[1:])])
    if b.op == 'obj' and a.op == 'obj' and b.args[0] == 'get' and a.args[0] == 'get':
        if b.args[1] is a.args[1]:
            return eq0(sub(b.args[2], a.args[2]))
        return FALSE
    return None


def same_site(p, a):
    b = var_atom(p)
    if b is None:
        return True
    if b.op == 'dv' and a.op == 'dv':
        return b.args[0] == a.args[0]
    if b.op == 'obj' and a.op == 'obj' and b.args[0] == 'get' and a.args[0] == 'get':
        return b.args[1] is a.args[1]
    return True


def unify(p, a, v):
    """j with p[v := j] == a."""
    b = var_atom(p)
    if b is None:
        return None
    if b.op == 'dv' and a.op == 'dv' and b.args[0] == a.args[0] and len(b.args) == len(a.args):
        pairs = list(zip(b.args[1:], a.args[1:]))
    elif b.op == 'obj' and a.op == 'obj' and b.args[0] == 'get' and a.args[0] == 'get' and \
            b.args[1] is a.args[1]:
        pairs = [(b.args[2], a.args[2])]
    else:
        return None
    j = None
    for x, y in pairs:
        if x is y and v not in x.fv:
            continue
        if v not in x.fv:
            return None
        s = t.solve_for(x, v, y)
        if s is None or (j is not None and j is not s):
            return None
        j = s
    return j


def touches(g, a):
    """Could segment g write the variable a (or run the solver)?"""
    st = [g]
    seen = set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ev':
            if x.args[0] in ('iter', 'solved'):
                return True
            if x.args[0] == 'setvalue' and same_site(x.args[2], a):
                return True
            continue
        if x.op in ('elem', 'for', 'if', 'seq', 'sub'):
            st.extend(z for z in x.args if isinstance(z, t.T))
        elif x.op in ('opq', 'upd', 'updfor', 'fold'):
            return True
    return False


def find_ops(x, op):
    out = []
    seen = set()
    st = [x]
    while st:
        y = st.pop()
        if y.id in seen:
            continue
        seen.add(y.id)
        if y.op == op:
            out.append(y)
        st.extend(t.subterms(y))
    return out


def log_suffix(a, b):
    sa, sb = t.segs_of(a), t.segs_of(b)
    if len(sb) >= len(sa) and all(x is y for x, y in zip(sa, sb)):
        return mk('seq', *sb[len(sa):])
    return None
