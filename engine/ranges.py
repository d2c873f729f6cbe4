"""Meaning of the standard algorithms (iterator-pair and ranges forms) and of
range views.  A view is a record naming its base; every algorithm is reduced
to a count and an element function."""
import terms as t
from terms import (mk, num, atom, add, sub, mul, neg, seq, elem, opq, cat, ite, or_, not_, le0, lt0, eq0,
                   TRUE, FALSE)
from interp import Unsupported, VOID, SEQ_TN, is_refish

ALGORITHMS = {'copy', 'copy_n', 'transform', 'for_each', 'for_each_n', 'accumulate', 'reduce', 'fill', 'fill_n',
              'iota', 'generate', 'generate_n', 'any_of', 'all_of', 'none_of', 'count_if', 'count', 'find_if',
              'find', 'find_if_not', 'min_element', 'max_element', 'reverse', 'inner_product', 'partial_sum',
              'transform_reduce', 'copy_if', 'adjacent_difference', 'replace', 'replace_if', 'equal', 'contains',
              'inclusive_scan', 'exclusive_scan', 'copy_backward', 'reverse_copy', 'sort', 'rotate',
              'remove_if', 'remove', 'unique', 'minmax_element', 'mismatch', 'is_sorted', 'fold_left',
              'adjacent_find', 'stable_sort', 'move_backward', 'swap_ranges', 'erase_if'}
FUNCTORS = {'std::plus': lambda a, b: add(a, b), 'std::minus': lambda a, b: sub(a, b),
            'std::multiplies': lambda a, b: mul(a, b), 'std::divides': lambda a, b: t.div(a, b)}
TESTS = {'std::less': '<', 'std::ranges::less': '<', 'std::greater': '>', 'std::ranges::greater': '>',
         'std::less_equal': '<=', 'std::greater_equal': '>=', 'std::equal_to': '==',
         'std::ranges::equal_to': '==', 'std::not_equal_to': '!='}


class Ranges:
    # ---- views -----------------------------------------------------------------------
    def is_view(self, v):
        return v.op == 'rec' and isinstance(v.args[0], str) and v.args[0].startswith('$v:')

    def slice_view(self, r, i, j, et):
        return mk('rec', '$v:slice', ('c', 'i', 'j', 't'), r, i, j, mk('tid', et))

    def view_of(self, r, tid):
        """The view that the range r (a reference or a value of type tid) denotes."""
        I = self.I
        v = self.rd(r)
        if self.is_view(v):
            return v
        if (I.tn(tid) or '') in SEQ_TN or I.ty(tid)['k'] == 'array':
            if not (r.op == 'ref' or is_refish(r)):
                r = I.new_cell(r, tid)
            if not t.is_seq(v) and v.op not in ('obj', 'ite', 'phi', 'bph'):
                raise Unsupported('range over %s' % v.op)
            if v.op in ('obj', 'phi', 'bph'):
                v = seq(opq(v))
            return self.slice_view(r, num(0), t.length(v), I.elem_tid(tid))
        raise Unsupported('range over %s' % I.ty(tid)['s'])

    def view(self, v):
        """(count, at(k)) of a view; at gives a reference or a value."""
        I = self.I
        k0 = v.args[0]
        if k0 == '$v:slice':
            c, i, j, et = v.args[2:]
            return I.simplify(t.pos(sub(j, i))), lambda k: self.seq_at(c, add(i, k), et.args[0])
        if k0 == '$v:iota':
            a, b = v.args[2:]
            if b.op == 'tid':
                return None, lambda k: add(a, k)
            return I.simplify(t.pos(sub(b, a))), lambda k: add(a, k)
        n, at = self.view(v.args[2])
        if k0 == '$v:reverse':
            if n is None:
                raise Unsupported('reverse of an endless range')
            return n, lambda k: at(sub(sub(n, num(1)), k))
        if k0 == '$v:transform':
            f = v.args[3]
            return n, lambda k: self.apply_to(f, at(k))
        if k0 == '$v:drop':
            m = v.args[3]
            return None if n is None else I.simplify(t.pos(sub(n, m))), lambda k: at(add(k, m))
        if k0 == '$v:take':
            m = v.args[3]
            return (m if n is None else I.simplify(t.minmax('min', [n, m]))), at
        raise Unsupported('view %s' % k0)

    def apply_to(self, f, a):
        return self.I.invoke(f, [a], None, {'l': None, 'rtid': None})

    def view_member(self, n, v, args, F):
        I = self.I
        if n in ('operator[]', 'front', 'back', 'size', 'ssize', 'empty', 'operator bool'):
            cnt, at = self.view(v)
            if n == 'front':
                return at(num(0))
            if n == 'back':
                return at(sub(cnt, num(1)))
            if n == 'operator[]':
                return at(I.boolnum(I.rv(args[0], F)))
            if n == 'empty':
                return le0(cnt)
            if n == 'operator bool':
                return not_(le0(cnt))
            return cnt
        k0 = v.args[0]
        base = v
        rev = False
        while base.args[0] == '$v:reverse':
            rev = not rev
            base = base.args[2]
        if base.args[0] == '$v:slice' and n in ('begin', 'end', 'cbegin', 'cend', 'data', 'rbegin', 'rend'):
            c, i, j, et = base.args[2:]
            j = add(i, self.I.simplify(t.pos(sub(j, i))))
            back = rev != (n in ('rbegin', 'rend'))
            first = n in ('begin', 'cbegin', 'data', 'rbegin')
            it = self.it(c, (j if first else i) if back else (i if first else j), et.args[0])
            return mk('rec', '$rit', *it.args[1:]) if back else it
        if k0 == '$v:slice' and n in ('subspan', 'first', 'last'):
            c, i, j, et = v.args[2:]
            a = [I.boolnum(I.rv(z, F)) for z in args if z.get('e') != 'defarg' or True]
            if n == 'first':
                return self.slice_view(c, i, add(i, a[0]), et.args[0])
            if n == 'last':
                return self.slice_view(c, sub(j, a[0]), j, et.args[0])
            i2 = add(i, a[0])
            if len(a) > 1 and t.const_of(a[1]) not in (2 ** 64 - 1, -1):
                j = add(i2, a[1])
            return self.slice_view(c, i2, j, et.args[0])
        if n in ('base',) and len(v.args) > 2 and k0 != '$v:slice':
            return v.args[2]
        raise Unsupported('member %s of a view' % n)

    def adaptor(self, kind, rest):
        """The adaptor 'kind' with its remaining arguments, to be applied to a view."""
        return mk('rec', '$adapt:' + kind, tuple('a%d' % i for i in range(len(rest))), *rest)

    def adapt(self, ad, base):
        I = self.I
        kind = ad.args[0][len('$adapt:'):]
        rest = ad.args[2:]
        if kind == 'pipe':
            return self.adapt(rest[1], self.adapt(rest[0], base))
        if kind == 'all':
            return base
        if kind == 'reverse':
            if base.args[0] == '$v:reverse':
                return base.args[2]
            return mk('rec', '$v:reverse', ('b',), base)
        if kind == 'transform':
            return mk('rec', '$v:transform', ('b', 'f'), base, rest[0])
        if kind in ('drop', 'take'):
            m = rest[0]
            if base.args[0] == '$v:slice':
                c, i, j, et = base.args[2:]
                if kind == 'drop':
                    return self.slice_view(c, add(i, m), j, et.args[0])
                cut = I.simplify(t.minmax('min', [m, sub(j, i)]))
                return self.slice_view(c, i, add(i, cut), et.args[0])
            if base.args[0] == '$v:iota' and kind == 'drop' and base.args[3].op == 'tid':
                return mk('rec', '$v:iota', ('a', 'b'), add(base.args[2], m), base.args[3])
            return mk('rec', '$v:' + kind, ('b', 'n'), base, m)
        raise Unsupported('view %s' % kind)

    def callable_arg(self, a, F):
        v = self.I.ev(a, F)
        return self.I.new_cell(self.rd(v)) if True else v

    def range_object(self, tn, fn, args, x, F):
        """Call of one of the function objects of std::ranges / std::views."""
        I = self.I
        if tn.endswith('__adaptor::_RangeAdaptor'):
            tn = I.tn(I.ty(fn['cls'])['targs'][0]['t'])
        short = tn.split('::')[-1]
        args = [a for a in args if (I.tn(a['t']) or '') != 'std::identity']
        if tn.startswith('std::ranges::views::_') and 'adaptor' not in tn:
            kind = short[1:].lower()
            if kind == 'iota':
                vs = [I.boolnum(I.rv(a, F)) for a in args]
                if any(v.op != 'poly' for v in vs):
                    raise Unsupported('iota over iterators')
                return mk('rec', '$v:iota', ('a', 'b'), vs[0], vs[1] if len(vs) > 1 else mk('tid', None))
            if kind == 'single':
                s = seq(elem(I.rv(args[0], F)))
                return self.slice_view(I.new_cell(s), num(0), num(1), args[0]['t'])
            if kind == 'counted':
                it = I.rv(args[0], F)
                if it.op == 'rec' and it.args[0] == '$it':
                    n = I.rv(args[1], F)
                    return self.slice_view(it.args[2], it.args[3], add(it.args[3], n), it.args[4].args[0])
                raise Unsupported('counted view')
            params = {'drop': 1, 'take': 1, 'transform': 1, 'reverse': 0, 'all': 0, 'common': 0}
            if kind == 'common':
                kind = 'all'
            if kind not in params:
                raise Unsupported('view %s' % kind)
            rest = args[-params[kind]:] if params[kind] else []
            rv = [self.callable_arg(a, F) if kind == 'transform' else I.boolnum(I.rv(a, F)) for a in rest]
            ad = self.adaptor(kind, rv)
            if len(args) == params[kind]:
                return ad
            return self.adapt(ad, self.view_of(I.ev(args[0], F), args[0]['t']))
        if short in ('_Partial', '_Pipe'):
            return NotImplemented
        if '__cust_access' in tn or '__access' in tn or short in ('__distance_fn',):
            n = {'__distance_fn': 'size', '_SSize': 'ssize'}.get(short, short.lower().lstrip('_'))
            if short == '__distance_fn' and len(args) == 2:
                return self.it_arith('-', I.rv(args[1], F), I.rv(args[0], F))
            return self.view_member(n, self.view_of(I.ev(args[0], F), args[0]['t']), [], F)
        if short in ('__next_fn', '__prev_fn'):
            k = I.rv(args[1], F) if len(args) > 1 else num(1)
            return self.it_add(I.rv(args[0], F), k if short == '__next_fn' else neg(k))
        if short in ('__min_fn', '__max_fn', '__clamp_fn'):
            if short == '__clamp_fn':
                a, lo, hi = [I.boolnum(I.rv(z, F)) for z in args[:3]]
                return t.minmax('min', [t.minmax('max', [a, lo]), hi])
            if len(args) >= 2 and (I.tn(args[-1]['t']) or '') == 'std::ranges::less':
                args = args[:-1]
            if len(args) == 2:
                return t.minmax(short[2:5], [I.boolnum(I.rv(a, F)) for a in args])
            if len(args) == 1:
                return self.extreme(short[2:5], self.view(self.view_of(I.ev(args[0], F), args[0]['t'])), x)
            raise Unsupported('std::ranges::%s with a comparison' % short)
        if short.startswith('__') and short.endswith('_fn') and short[2:-3] in ALGORITHMS | {'move'}:
            return self.algorithm(short[2:-3], fn, args, x, F, True)
        raise Unsupported('call of %s' % tn, x.get('l'))

    def pipe(self, args, x, F):
        """range | adaptor, adaptor | adaptor"""
        I = self.I
        def side(a):
            tn = I.tn(a['t']) or ''
            if tn.startswith('std::ranges::views::_') and 'adaptor' not in tn:
                kind = {'Common': 'all'}.get(tn.split('::_')[-1], tn.split('::_')[-1].lower())
                return self.adaptor(kind, [])
            v = self.rd(I.ev(a, F)) if 'adaptor' in tn or 'view' in tn else None
            if v is not None and v.op == 'rec' and isinstance(v.args[0], str) and v.args[0].startswith('$adapt'):
                return v
            return self.view_of(I.ev(a, F) if v is None else v, a['t'])
        a, b = side(args[0]), side(args[1])
        if a.args[0].startswith('$adapt'):
            return self.adaptor('pipe', [a, b])
        return self.adapt(b, a)

    def extreme(self, which, src, x):
        I = self.I
        cnt, at = src
        acc = I.new_cell(self.val(at(num(0))))
        I.count_loop(I.simplify(t.pos(sub(cnt, num(1)))), lambda k: I.write(acc, t.minmax(which, [
            I.read(acc), self.val(at(add(k, num(1))))])), x)
        return I.read(acc)

    # ---- algorithms --------------------------------------------------------------------
    def algorithm(self, n, fn, args, x, F, over_ranges=False):
        I = self.I
        rd = self.rd
        tns = [I.tn(a['t']) or '' for a in args]
        if any('execution' in tn for tn in tns):
            raise Unsupported('parallel algorithm')
        vals = [None if tn in FUNCTORS or tn in TESTS else I.ev(a, F) for a, tn in zip(args, tns)]
        for i, v in enumerate(vals):  # a function object is passed by value
            w = rd(v) if v is not None else None
            if w is not None and w.op == 'rec' and isinstance(w.args[0], tuple) and w.args[0][0] == 'closure':
                vals[i] = I.new_cell(w, args[i]['t'])
        pos = [0]

        def more():
            return pos[0] < len(args)

        def arg():
            pos[0] += 1
            return pos[0] - 1

        def source():
            """(count, at, first iterator or None, element type)"""
            i = arg()
            v = rd(vals[i])
            if v.op == 'rec' and v.args[0] in ('$it', '$rit'):
                cnt, at = self.src(v, rd(vals[arg()]))
                return cnt, at, v, v.args[4].args[0]
            vw = self.view_of(vals[i], args[i]['t'])
            cnt, at = self.view(vw)
            if cnt is None:
                raise Unsupported('algorithm over an endless range')
            first, et = None, None
            if vw.args[0] == '$v:slice':
                et = vw.args[5].args[0]
                first = self.it(vw.args[2], vw.args[3], et)
            return cnt, at, first, et

        def call(i, *a):
            tn = tns[i]
            if tn in FUNCTORS:
                return FUNCTORS[tn](*[I.boolnum(self.val(z)) for z in a])
            if tn in TESTS:
                p, q = [I.boolnum(self.val(z)) for z in a]
                if p.op != 'poly' or q.op != 'poly':
                    raise Unsupported('comparison of objects in an algorithm')
                return {'<': lt0(sub(p, q)), '<=': le0(sub(p, q)), '>': lt0(sub(q, p)), '>=': le0(sub(q, p)),
                        '==': eq0(sub(p, q)), '!=': not_(eq0(sub(p, q)))}[TESTS[tn]]
            return I.invoke(vals[i] if vals[i].op == 'ref' else I.new_cell(vals[i]), list(a),
                            None, dict(x, rtid=None))

        def projected(at):
            if not over_ranges or not more():
                return at
            p = arg()
            return lambda k: call(p, at(k))

        def it_sink():
            out = rd(vals[arg()])
            return out, self.sink(out)

        def it_end(out, cnt):
            return VOID if over_ranges else self.it_add(out, cnt) if out.args[0] in ('$it', '$rit') else out

        def holds(at, pred, cnt, kk):
            with I.with_facts(lt0(sub(atom(kk), cnt))):
                before, npend = I.cells, len(I.pending)
                c = I.truth(self.val(pred(at(atom(kk)))))
                I.cells = before
            return c

        if n in ('copy', 'move'):
            cnt, at, first, et = source()
            out, put = it_sink()
            if out.op == 'rec' and out.args[0] == '$back' and first is not None and first.args[0] == '$it':
                s = I.read(out.args[2])
                if s.op in ('obj', 'phi', 'bph'):
                    s = seq(opq(s))
                I.write(out.args[2], cat(s, self.slice_its(first, self.it_add(first, cnt))))
                return out
            I.count_loop(cnt, lambda k: put(k, self.val(at(k))), x)
            return it_end(out, cnt)
        if n == 'reverse_copy':
            cnt, at, first, et = source()
            out, put = it_sink()
            I.count_loop(cnt, lambda k: put(k, self.val(at(sub(sub(cnt, num(1)), k)))), x)
            return it_end(out, cnt)
        if n == 'copy_n':
            first = rd(vals[arg()])
            cnt = I.simplify(t.pos(rd(vals[arg()])))
            out, put = it_sink()
            I.count_loop(cnt, lambda k: put(k, I.read(self.it_ref(self.it_add(first, k)))), x)
            return it_end(out, cnt)
        if n == 'copy_if':
            cnt, at, first, et = source()
            out = rd(vals[arg()])
            if out.op != 'rec' or out.args[0] != '$back':
                raise Unsupported('copy_if')
            put = self.sink(out)
            f = arg()

            def some(k):
                c = I.truth(self.val(call(f, at(k))))
                I.fork(c, lambda: put(k, self.val(at(k))) or VOID, lambda: VOID)
            I.count_loop(cnt, some, x)
            return out
        if n == 'transform':
            cnt, at, first, et = source()
            binary = len(args) - pos[0] > (2 if not over_ranges else 2) and self.is_source(
                rd(vals[pos[0]]), args[pos[0]]['t']) and len(args) - pos[0] >= 3
            if binary and over_ranges:
                c2, at2, _, _ = source()
                cnt = I.simplify(t.minmax('min', [cnt, c2]))
            elif binary:
                s2 = rd(vals[arg()])
                at2 = lambda k: self.it_ref(self.it_add(s2, k))
            out, put = it_sink()
            f = arg()
            if binary:
                I.count_loop(cnt, lambda k: put(k, self.val(call(f, at(k), at2(k)))), x)
            else:
                at1 = projected(at)
                I.count_loop(cnt, lambda k: put(k, self.val(call(f, at1(k)))), x)
            return it_end(out, cnt)
        if n == 'for_each':
            cnt, at, first, et = source()
            f = arg()
            at = projected(at)
            I.count_loop(cnt, lambda k: call(f, at(k)), x)
            return VOID
        if n == 'for_each_n':
            first = rd(vals[arg()])
            cnt = I.simplify(t.pos(rd(vals[arg()])))
            f = arg()
            I.count_loop(cnt, lambda k: call(f, self.it_ref(self.it_add(first, k))), x)
            return VOID
        if n in ('accumulate', 'reduce', 'transform_reduce', 'inner_product', 'fold_left'):
            cnt, at, first, et = source()
            at2 = None
            if n == 'inner_product' or (n == 'transform_reduce' and self.is_source(
                    rd(vals[pos[0]]), args[pos[0]]['t']) and rd(vals[pos[0]]).op == 'rec'):
                s2 = rd(vals[arg()])
                at2 = lambda k: self.it_ref(self.it_add(s2, k))
            if more():
                i0 = arg()
                tid, v0 = args[i0]['t'], rd(vals[i0])
            else:
                tid, v0 = et, num(0)
            acc = I.new_cell(I.coerce(v0, tid), tid)
            f = arg() if more() else None
            g = arg() if more() else None

            def body(k):
                if n == 'transform_reduce' and g is not None:
                    e = call(g, at(k)) if at2 is None else call(g, at(k), at2(k))
                elif at2 is not None:
                    e = call(g, at(k), at2(k)) if g is not None else mul(
                        I.boolnum(self.val(at(k))), I.boolnum(self.val(at2(k))))
                else:
                    e = at(k)
                if f is not None:
                    v = self.val(call(f, I.read(acc), e))
                else:
                    v = add(I.boolnum(I.read(acc)), I.boolnum(self.val(e)))
                ty = I.ty(tid)
                if ty['k'] == 'int':
                    if not t.is_int(v):
                        v = t.fn('trunc', v)
                    v = I.int_cast(v, tid)
                I.write(acc, v)
            I.count_loop(cnt, body, x)
            return I.read(acc)
        if n == 'fill':
            cnt, at, first, et = source()
            i = arg()
            v = I.coerce(rd(vals[i]), et) if et is not None else rd(vals[i])
            I.count_loop(cnt, lambda k: I.write(at(k), v), x)
            return VOID
        if n == 'fill_n':
            out, put = it_sink()
            cnt = rd(vals[arg()])
            v = rd(vals[arg()])
            I.count_loop(I.simplify(t.pos(cnt)), lambda k: put(k, v), x)
            return VOID
        if n == 'iota':
            cnt, at, first, et = source()
            i = arg()
            v = rd(vals[i])
            I.count_loop(cnt, lambda k: I.write(at(k), I.coerce(add(v, k), et) if et is not None else
                                                add(v, k)), x)
            return VOID
        if n in ('generate', 'generate_n'):
            if n == 'generate':
                cnt, at, first, et = source()
                put = lambda k, v: I.write(at(k), v)
            else:
                out, put = it_sink()
                cnt = I.simplify(t.pos(rd(vals[arg()])))
            f = arg()
            fc = vals[f] if vals[f].op == 'ref' else I.new_cell(vals[f])
            I.count_loop(cnt, lambda k: put(k, self.val(I.invoke(fc, [], [], dict(x, rtid=None)))), x)
            return VOID
        if n in ('any_of', 'all_of', 'none_of', 'count_if', 'find_if', 'find_if_not', 'count', 'find', 'contains'):
            cnt, at, first, et = source()
            f = arg()
            at = projected(at)
            kk = t.fresh_bv()
            if n in ('count', 'find', 'contains'):
                w = I.boolnum(rd(vals[f]))

                def pred(e):
                    e = I.boolnum(self.val(e))
                    if e.op != 'poly' or w.op != 'poly':
                        raise Unsupported('%s of objects' % n)
                    return eq0(sub(e, w))
            else:
                pred = lambda e: call(f, e)
            c = holds(at, pred, cnt, kk)
            if n in ('all_of', 'find_if_not'):
                c = not_(c)
            if n in ('count', 'count_if'):
                return t.sum_(cnt, kk, ite(c, num(1), num(0)))
            if n in ('find_if', 'find', 'find_if_not'):
                if first is None:
                    raise Unsupported('find in a view')
                return self.it_add(first, t.first_(cnt, kk, c))
            r = t.none_(cnt, kk, c)
            return not_(r) if n in ('any_of', 'contains') else r
        if n in ('replace', 'replace_if'):
            cnt, at, first, et = source()
            f = arg()
            i = arg()
            v = rd(vals[i])

            def one(k):
                e = at(k)
                c = I.truth(self.val(call(f, e))) if n == 'replace_if' else eq0(sub(I.read(e), rd(vals[f])))
                I.write(e, ite(c, v, I.read(e)))
            I.count_loop(cnt, one, x)
            return VOID
        if n in ('partial_sum', 'inclusive_scan', 'exclusive_scan'):
            cnt, at, first, et = source()
            out, put = it_sink()
            if et is None:
                raise Unsupported(n)
            init = None
            if n == 'exclusive_scan':
                i = arg()
                init, et = rd(vals[i]), args[i]['t']
            if more():
                raise Unsupported('%s with an operation' % n)
            acc = I.new_cell(I.coerce(init if init is not None else num(0), et), et)

            def body2(k):
                if n == 'exclusive_scan':
                    e = self.val(at(k))
                    put(k, I.read(acc))
                    I.write(acc, I.coerce(add(I.read(acc), I.boolnum(e)), et))
                else:
                    I.write(acc, I.coerce(add(I.read(acc), I.boolnum(self.val(at(k)))), et))
                    put(k, I.read(acc))
            I.count_loop(cnt, body2, x)
            return VOID
        if n in ('min_element', 'max_element', 'is_sorted'):
            src = source()
            cnt, at, first, et = src
            if more() and tns[pos[0]] == 'std::ranges::less':
                arg()
            if not more() and n != 'is_sorted':
                v = self.extreme(n[:3], src[:2], x)
                if v.op == 'poly':
                    # only dereferencing it is given a meaning
                    return I.new_cell(v)
                raise Unsupported('%s of objects' % n)
            f = arg() if more() else None
            at = projected(at)
            kk = t.fresh_bv()

            def less(p, q):
                if f is not None:
                    return call(f, p, q)
                p, q = I.boolnum(self.val(p)), I.boolnum(self.val(q))
                if p.op != 'poly' or q.op != 'poly':
                    raise Unsupported('%s of objects' % n)
                return lt0(sub(p, q))
            if n == 'is_sorted':
                lim = I.simplify(t.pos(sub(cnt, num(1))))
                return t.none_(lim, kk, holds(at, lambda e: less(at(add(atom(kk), num(1))), e), lim, kk))
            if first is None:
                raise Unsupported('%s in a view' % n)
            jj = t.fresh_bv()
            with I.with_facts(lt0(sub(atom(jj), cnt))):
                c = holds(at, lambda e: less(e, at(atom(jj))) if n[:3] == 'min' else less(at(atom(jj)), e), cnt, kk)
            return self.it_add(first, t.first_(cnt, jj, t.none_(cnt, kk, c)))
        if n == 'equal':
            cnt, at, first, et = source()
            c2 = None
            if over_ranges or len(args) - pos[0] >= 2 and self.is_source(rd(vals[pos[0] + 1]), args[pos[0] + 1]['t']) \
                    if len(args) > pos[0] + 1 or over_ranges else False:
                c2, at2, _, _ = source()
            else:
                s2 = rd(vals[arg()])
                at2 = lambda k: self.it_ref(self.it_add(s2, k))
            if more() and tns[pos[0]] == 'std::ranges::equal_to':
                arg()
            f = arg() if more() else None
            kk = t.fresh_bv()

            def same(e):
                if f is not None:
                    return call(f, e, at2(atom(kk)))
                p, q = I.boolnum(self.val(e)), I.boolnum(self.val(at2(atom(kk))))
                if p.op != 'poly' or q.op != 'poly':
                    raise Unsupported('equal of objects')
                return eq0(sub(p, q))
            r = t.none_(cnt, kk, not_(holds(at, same, cnt, kk)))
            return r if c2 is None else t.and_(eq0(sub(cnt, c2)), r)
        if n == 'reverse':
            cnt, at, first, et = source()
            if first is not None and first.args[0] == '$it' and t.const_of(first.args[3]) == 0:
                s = I.read(first.args[2])
                if cnt is t.length(s) or cnt is I.simplify(t.pos(t.length(s))):
                    kk = t.fresh_bv()
                    L = t.length(s)
                    I.write(first.args[2], t.forseq(L, kk, seq(elem(t.get(
                        s, sub(sub(L, num(1)), atom(kk)), lambda o: I.expand(et, o))))))
                    return VOID
        if n in ('remove_if', 'remove', 'unique', 'sort', 'stable_sort', 'rotate', 'adjacent_find', 'erase_if'):
            return self.rearrange(n, vals, args, tns, arg, more, source, call, holds, projected, x, over_ranges)
        raise Unsupported('algorithm %s' % n)

    def rearrange(self, n, vals, args, tns, arg, more, source, call, holds, projected, x, over_ranges):
        """Algorithms that reorder or compact a (part of a) container."""
        I = self.I
        rd = self.rd
        if n == 'rotate' and not over_ranges:
            a, m, b = [rd(vals[arg()]) for _ in range(3)]
            if any(v.op != 'rec' or v.args[0] != '$it' for v in (a, m, b)):
                raise Unsupported('rotate')
            r, et = a.args[2], a.args[4].args[0]
            i, k, j = a.args[3], m.args[3], b.args[3]
            s = I.read(r)
            I.write(r, cat(self.slice(s, num(0), i, et), self.slice(s, k, j, et), self.slice(s, i, k, et),
                           self.slice(s, j, t.length(s), et)))
            return self.it(r, add(i, sub(j, k)), et)
        cnt, at, first, et = source()
        if first is None or first.args[0] != '$it' or n == 'rotate':
            raise Unsupported('algorithm %s of a view' % n)
        r, i0 = first.args[2], first.args[3]
        s = I.read(r)
        j0 = add(i0, cnt)
        if n == 'remove':
            w = I.boolnum(rd(vals[arg()]))

            def test(e):
                e = I.boolnum(self.val(e))
                if e.op != 'poly' or w.op != 'poly':
                    raise Unsupported('remove of objects')
                return eq0(sub(e, w))
        else:
            f = arg() if more() else None
            at = projected(at) if n != 'erase_if' else at

            def test(*es):
                if f is not None:
                    return call(f, *es)
                p, q = [I.boolnum(self.val(z)) for z in es]
                if p.op != 'poly' or q.op != 'poly':
                    raise Unsupported('%s of objects' % n)
                return eq0(sub(p, q)) if n in ('unique', 'adjacent_find') else lt0(sub(p, q))

        def el(k):
            return self.val(self.seq_at(r, add(i0, k), et))

        def check(pred):
            before, npend = I.cells, len(I.pending)
            c = I.truth(self.val(pred()))
            I.cells = before
            return c
        kk = t.fresh_bv()
        if n == 'adjacent_find':
            lim = I.simplify(t.pos(sub(cnt, num(1))))
            c = holds(at, lambda e: test(e, at(add(atom(kk), num(1)))), lim, kk)
            at1 = t.first_(lim, kk, c)
            return self.it_add(first, ite(lt0(sub(at1, lim)), at1, cnt))
        if n in ('sort', 'stable_sort'):
            jj = t.fresh_bv()
            with I.with_facts(lt0(sub(atom(jj), cnt))):
                lt = holds(at, lambda e: test(e, at(atom(jj))), cnt, kk)
                gt = holds(at, lambda e: test(at(atom(jj)), e), cnt, kk)
            # the position element jj moves to: those before it, equal ones kept in order
            rank = t.sum_(cnt, kk, ite(or_(lt, t.and_(not_(gt), lt0(sub(atom(kk), atom(jj))))), num(1), num(0)))
            ii = t.fresh_bv()
            src = t.first_(cnt, jj, eq0(sub(rank, atom(ii))))
            with I.with_facts(lt0(sub(atom(ii), cnt))):
                e = t.get(s, add(i0, src), lambda o: I.expand(et, o))
            out = t.forseq(cnt, ii, seq(elem(e)))
            I.write(r, cat(self.slice(s, num(0), i0, et), out, self.slice(s, j0, t.length(s), et)))
            return VOID if not over_ranges else self.it(r, j0, et)
        if n == 'unique':
            # the predicate is an equivalence, so the last kept element stands for its run
            same = holds(at, lambda e: test(at(sub(atom(kk), num(1))), e), cnt, kk)
            drop = t.and_(lt0(neg(atom(kk))), same)
        else:
            drop = holds(at, test, cnt, kk)
        with I.with_facts(lt0(sub(atom(kk), cnt))):
            e = t.get(s, add(i0, atom(kk)), lambda o: I.expand(et, o))
        kept = t.forseq(cnt, kk, ite(drop, t.EMPTY, seq(elem(e))))
        L = t.length(kept)
        if n == 'erase_if':
            I.write(r, kept)
            return sub(cnt, L)
        # what is left behind the kept elements has no stated value; the old elements stand there
        I.write(r, cat(self.slice(s, num(0), i0, et), kept, self.slice(s, add(i0, L), j0, et),
                       self.slice(s, j0, t.length(s), et)))
        end = self.it(r, add(i0, L), et)
        if over_ranges:
            return self.slice_view(r, add(i0, L), j0, et)
        return end

    def is_source(self, v, tid):
        if v is None:
            return False
        return v.op == 'rec' and v.args[0] in ('$it', '$rit') or self.is_view(v) or \
            (self.I.tn(tid) or '') in SEQ_TN
