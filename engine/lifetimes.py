"""Typestate analysis of trajopt::expected.

The scenarios of spec/C31.cpp and every function of /repo they reach are
interpreted over their resolved syntax trees.  Payloads are abstract: an object
of a probe type is a lifetime (alive or not) and a label, which its special
members carry along; unless declared noexcept, each of them may also throw.
Every outcome of choose(), of a comparison of payloads and of a payload
operation is followed, so all paths of a scenario are covered, with the storage
of the two alternatives tracked member by member.  Nothing is compiled or run,
and no values are chosen: the only data are the discriminants, enumerated, and
the labels."""
import json
import multiprocessing
import os
import re
import shutil
import tempfile

import extract

MAX_PATHS = 60000


class Violation(Exception):
    def __init__(self, what, loc=None):
        Exception.__init__(self, what)
        self.what = what
        self.loc = loc


class Unsupported(Exception):
    def __init__(self, what, loc=None):
        Exception.__init__(self, what)
        self.what = what
        self.loc = loc


class Terminated(Exception):
    """A payload operation threw inside noexcept: the program ends."""


class Thrown(Exception):
    def __init__(self, obj, kind):
        Exception.__init__(self)
        self.obj = obj
        self.kind = kind


class Ptr:
    __slots__ = ('obj',)

    def __init__(self, obj):
        self.obj = obj

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.obj is self.obj

    def __hash__(self):
        return id(self.obj)


class Obj:
    __slots__ = ('tid', 'kind', 'val', 'fields', 'alive', 'parent', 'name', 'what')

    def __init__(self, tid, kind, parent=None, name=None):
        self.tid = tid
        self.kind = kind
        self.val = None
        self.fields = None
        self.alive = False
        self.parent = parent
        self.name = name
        self.what = None


class Frame:
    __slots__ = ('fn', 'this', 'env', 'scopes', 'dest', 'args')

    def __init__(self, fn, this=None, dest=None):
        self.fn = fn
        self.this = this
        self.env = {}
        self.scopes = []
        self.dest = dest
        self.args = []


PROBES = ('probe::Thing', 'probe::Only', 'probe::Named')
SCALAR = ('int', 'bool', 'float', 'enum', 'ptr', 'nullptr', 'void')


class Program:
    def __init__(self, d):
        self.types = d['types']
        self.records = d['records']
        self.functions = d['functions']
        self.functions.update(d.get('library') or {})
        self.dtors = {}
        self.moves = {}
        self.assigns = {}
        for k, f in self.functions.items():
            f['key'] = k
            cls = f.get('cls')
            if cls is None:
                continue
            rec = self.types[cls].get('rec')
            if f.get('dtor'):
                self.dtors[rec] = f
            ps = f['params']
            if len(ps) == 1:
                pt = self.types[ps[0]['t']]
                if pt.get('ref') == 2 and not pt.get('const') and pt.get('rec') == rec:
                    if f.get('ctor'):
                        self.moves[rec] = f
                    elif f['n'] == 'operator=':
                        self.assigns[rec] = f


class Run:
    """One path."""

    def __init__(self, P, trace):
        self.P = P
        self.trace = trace          # [[choice, number of choices, what]]
        self.at = 0
        self.temps = []
        self.log = []
        self.known = {}
        self.globals = {}
        self.handled = []
        self.stack = []
        self.frames = []            # the functions under way
        self.ext = None
        self.alive = 0              # payloads
        self.functions = set()
        self.steps = 0
        self.calls = []             # operations of /repo the scenario has called
        self.depth = 0
        self.ended = False          # the program has ended: nothing is destroyed any more

    # ------------------------------------------------------------ choices
    def choose(self, n, what):
        if self.at < len(self.trace):
            c = self.trace[self.at][0]
        else:
            c = 0
            self.trace.append([0, n, what])
        self.at += 1
        return c

    # ------------------------------------------------------------ objects
    def ty(self, tid):
        return self.P.types[tid]

    def mk(self, tid, parent=None, name=None):
        ty = self.ty(tid)
        k = ty.get('k')
        if k in SCALAR or ty.get('ref'):
            return Obj(tid, 'scalar', parent, name)
        if k == 'rec':
            if ty.get('lambda'):
                return Obj(tid, 'closure', parent, name)
            if ty.get('tn') in PROBES:
                return Obj(tid, 'probe', parent, name)
            r = self.P.records.get(ty['rec'])
            if r is not None and r.get('repo'):
                o = Obj(tid, 'union' if r.get('union') else 'rec', parent, name)
                o.fields = {}
                for b in r.get('bases') or []:
                    n = ('base', self.ty(b)['rec'])
                    o.fields[n] = self.mk(b, o, n)
                for f in r.get('fields') or []:
                    n = f['n'] or '#%s' % f['id']
                    o.fields[n] = self.mk(f['t'], o, n)
                return o
            return Obj(tid, 'opaque', parent, name)
        if k == 'fn':
            return Obj(tid, 'scalar', parent, name)
        raise Unsupported('object of type %s' % ty.get('s'))

    def trivial(self, tid):
        ty = self.ty(tid)
        if ty.get('k') != 'rec':
            return True
        if ty.get('tn') in PROBES:
            return False
        r = self.P.records.get(ty['rec'])
        return r is None or bool(r.get('trivdtor'))

    def name(self, o):
        s = []
        p = o
        while p is not None:
            if p.name is not None and not isinstance(p.name, tuple) and not str(p.name).startswith('#'):
                s.append(str(p.name))
            if p.what:
                s.append(p.what)
            p = p.parent
        return '.'.join(reversed(s)) or 'a temporary %s' % self.ty(o.tid).get('s')

    def live(self, o):
        return o.alive

    def kill(self, o):
        """Ends lifetimes without destruction (trivial types)."""
        if o.kind == 'probe' and o.alive:
            raise Violation('%s ends without being destroyed' % self.name(o), self.here())
        o.alive = False
        if o.fields:
            for f in o.fields.values():
                self.kill(f)

    def activate(self, o):
        """o comes to life: it replaces what shares its storage."""
        while o.parent is not None:
            u = o.parent
            if u.kind == 'union':
                for n, g in u.fields.items():
                    if g is not o and g.alive:
                        if not self.trivial(g.tid):
                            raise Violation('%s is overwritten by %s without being destroyed' %
                                            (self.name(g), self.name(o)), self.here())
                        self.kill(g)
            o = u

    def begin(self, o):
        if o.alive and not self.trivial(o.tid):
            raise Violation('%s is constructed over a value that has not been destroyed' % self.name(o), self.here())
        self.activate(o)

    def here(self):
        for l in reversed(self.stack):
            if l and not str(l[0]).startswith(extract.VERIF):
                return l
        return self.stack[-1] if self.stack else None

    def load(self, o):
        if o.kind not in ('scalar',):
            raise Unsupported('value of a %s' % o.kind)
        if not o.alive:
            raise Violation('%s is read while it holds nothing' % self.name(o), self.here())
        return o.val

    def store(self, o, v):
        if o.kind != 'scalar':
            raise Unsupported('store to a %s' % o.kind)
        self.activate(o)
        o.val = v
        o.alive = True
        p = o.parent
        while p is not None and p.kind == 'rec' and self.trivial(p.tid):
            p.alive = True
            p = p.parent

    def use(self, o):
        if not o.alive:
            raise Violation('%s is used while it holds nothing' % self.name(o), self.here())

    def bitwise(self, dst, src, top=True):
        if dst is src:
            return
        if dst.kind == 'probe':
            raise Unsupported('bitwise copy of a payload')
        if dst.kind == 'closure':
            self.copy_closure(dst, src)
            return
        if top:
            if src.kind in ('rec', 'scalar') and not src.alive and (src.fields or src.kind == 'scalar'):
                raise Violation('%s is copied while it holds nothing' % self.name(src), self.here())
            self.activate(dst)
        dst.val = src.val
        dst.alive = src.alive
        if dst.fields:
            for n, f in dst.fields.items():
                self.bitwise(f, src.fields[n], False)
        if top:
            dst.alive = True

    def copy_closure(self, dst, src):
        caps, ops = src.val
        new = {}
        for k, (how, o) in caps.items():
            if how == 'copy':
                c = self.mk(o.tid)
                if o.kind in ('scalar', 'closure') or self.trivial(o.tid):
                    self.bitwise(c, o)
                else:
                    raise Unsupported('copy of a closure that captures an object')
                o = c
            new[k] = (how, o)
        dst.val = (new, ops)
        dst.alive = True

    def destroy(self, o):
        if self.ended:
            return
        if o.kind == 'probe':
            if not o.alive:
                raise Violation('%s is destroyed while it holds nothing' % self.name(o), self.here())
            o.alive = False
            o.val = None
            self.alive -= 1
            return
        if o.kind in ('scalar', 'opaque', 'closure', 'union'):
            o.alive = False
            return
        if self.trivial(o.tid):
            self.kill(o)
            return
        if not o.alive:
            raise Violation('%s is destroyed while it holds nothing' % self.name(o), self.here())
        f = self.P.dtors.get(self.ty(o.tid)['rec'])
        if f is not None:
            self.body(f, o, [], None)
        for n in reversed(list(o.fields)):
            g = o.fields[n]
            if g.kind != 'union':
                self.destroy(g)
        o.alive = False

    def finish(self, o, fn=None):
        o.alive = True

    # ------------------------------------------------------------ payloads
    def may_throw(self, fn, what):
        if not fn.get('nx') and self.choose(2, '%s throws' % what):
            raise Thrown(None, 'payload')

    def rvalue_param(self, fn, i):
        return self.ty(fn['pt'][i]).get('ref') == 2

    def probe_ctor(self, o, fn, args):
        ps = fn['pt']
        if len(args) == 2 and isinstance(args[0], Obj) and args[0].kind == 'opaque':
            args, ps = args[1:], ps[1:]     # the list itself does not matter
        src = args[0] if args else None
        if isinstance(src, Obj):
            self.use_value(src)
        self.may_throw(fn, 'constructing %s' % self.ty(o.tid)['s'])
        self.begin(o)
        if src is None:
            label = 'default'
        elif isinstance(src, Obj):
            label = src.val
            if self.ty(ps[0]).get('ref') == 2 and src.kind == 'probe':
                src.val = ('moved', label)
        else:
            label = src
        o.val = label
        o.alive = True
        self.alive += 1

    def probe_assign(self, o, fn, src):
        self.use(o)
        self.use_value(src)
        self.may_throw(fn, 'assigning to %s' % self.ty(o.tid)['s'])
        o.val = src.val
        if self.rvalue_param(fn, 0):
            src.val = ('moved', o.val)

    def use_value(self, o):
        if o.kind == 'scalar':
            self.load(o)
        else:
            self.use(o)

    def label(self, o):
        if isinstance(o, Obj):
            if o.kind == 'rec':
                raise Unsupported('label of %s' % self.ty(o.tid).get('s'))
            self.use_value(o)
            return o.val
        return o

    def nothrow_move(self, tid):
        s = self.ty(tid)['s']
        return not s.replace(' ', '').endswith('false>')

    def move_construct(self, dst, src):
        """dst is a new object made from the value of src."""
        if dst.kind == 'probe':
            self.probe_ctor(dst, {'nx': self.nothrow_move(dst.tid), 'pt': [self.rref(dst.tid)]}, [src])
        elif dst.kind == 'rec' and not self.trivial(dst.tid):
            f = self.P.moves.get(self.ty(dst.tid)['rec'])
            if f is None:
                raise Unsupported('move of %s' % self.ty(dst.tid)['s'])
            self.construct_with(f, dst, [src])
        else:
            self.bitwise(dst, src)

    def move_assign(self, dst, src):
        if dst.kind == 'probe':
            self.probe_assign(dst, {'nx': self.nothrow_move(dst.tid), 'pt': [self.rref(dst.tid)]}, src)
        elif dst.kind == 'rec' and not self.trivial(dst.tid):
            f = self.P.assigns.get(self.ty(dst.tid)['rec'])
            if f is None:
                raise Unsupported('move assignment of %s' % self.ty(dst.tid)['s'])
            self.invoke_def(f, dst, [src], None, None)
        else:
            self.bitwise(dst, src)

    def rref(self, tid):
        for i, t in enumerate(self.P.types):
            if t.get('ref') == 2 and not t.get('const') and t.get('rec') == self.ty(tid).get('rec'):
                return i
        raise Unsupported('rvalue reference to %s' % self.ty(tid)['s'])

    # ------------------------------------------------------------ functions
    def body(self, f, this, args, dest, closure=None):
        """Runs a definition; args are objects (references or parameters)."""
        self.functions.add((f['qn'], str((f.get('loc') or ['?'])[0]), (f.get('loc') or [0, 0])[1]))
        loc = f.get('loc') or ['?', 0]
        if not str(loc[0]).startswith(extract.VERIF):
            if self.depth == 0 and not f.get('constm'):
                self.calls.append((f['qn'], loc))
            self.depth += 1
        F = Frame(f, this, dest)
        F.args = args
        if closure:
            for k, (how, o) in closure.items():
                if how == 'this':
                    F.this = o
                else:
                    F.env[k] = o
        for p, a in zip(f['params'], args):
            F.env[p['id']] = a
        self.stack.append(f.get('loc'))
        self.frames.append(f)
        try:
            if len(self.stack) > 400:
                raise Unsupported('recursion')
            if f.get('ctor'):
                self.run_inits(f, F)
            try:
                r = self.exec(f['body'], F)
            except (Thrown, Terminated):
                if f.get('ctor'):
                    self.unwind_object(this, f)
                raise
            if r is not None and r[0] == 'return':
                return r[1]
            return None
        except Thrown as e:
            if f.get('nx'):
                if e.kind == 'payload':
                    self.ended = True
                    raise Terminated(self.whole(), f)
                raise Violation('an exception leaves %s, which is noexcept: the program ends' % f['qn'], f.get('loc'))
            raise
        finally:
            self.stack.pop()
            self.frames.pop()
            if not str(loc[0]).startswith(extract.VERIF):
                self.depth -= 1

    def whole(self):
        """The kind of the copy, move or conversion of a whole result that is under way."""
        for g in reversed(self.frames):
            k = special(self.P, g)
            if k:
                return k
        return None

    def run_inits(self, f, F):
        o = F.this
        done = []
        try:
            for i in f.get('inits') or []:
                x = i['x']
                if i.get('deleg'):
                    self.full(lambda: self.into(x, F, o))
                    return
                if 'base' in i:
                    g = o.fields[('base', self.ty(i['base'])['rec'])]
                else:
                    g = self.field(o, i['f'])
                    if g is None:
                        if x is None:
                            continue
                        raise Unsupported('member %s' % i['f'])
                if x is None or g.kind == 'union':
                    continue
                self.full(lambda: self.into(x, F, g))
                done.append(g)
        except (Thrown, Terminated):
            for g in reversed(done):
                if g.parent.kind != 'union':
                    self.destroy(g)
            raise
        # bases without an initialiser in the list are implicit and trivial
        for n, g in o.fields.items():
            if isinstance(n, tuple) and not g.alive and self.trivial(g.tid):
                g.alive = True
        o.alive = True

    def unwind_object(self, o, f):
        deleg = any(i.get('deleg') for i in f.get('inits') or [])
        if deleg:
            self.destroy(o)
            return
        for n in reversed(list(o.fields)):
            g = o.fields[n]
            if g.kind != 'union':
                self.destroy(g)
        o.alive = False

    def field(self, o, n):
        if n in o.fields:
            return o.fields[n]
        for m, g in o.fields.items():
            if g.kind == 'union' and n in g.fields:
                return g.fields[n]
        for m, g in o.fields.items():
            if isinstance(m, tuple) and g.fields:
                h = self.field(g, n)
                if h is not None:
                    return h
        return None

    def base(self, o, rec):
        if self.ty(o.tid).get('rec') == rec:
            return o
        for m, g in (o.fields or {}).items():
            if isinstance(m, tuple):
                if m[1] == rec:
                    return g
                h = self.base(g, rec)
                if h is not None:
                    return h
        return None

    def invoke_def(self, f, this, args, dest, closure):
        return self.body(f, this, args, dest, closure)

    def construct_with(self, f, o, args):
        self.begin(o)
        self.body(f, o, args, None)
        o.alive = True

    def params(self, fn, exprs, F):
        """Arguments as objects or values, and those to destroy after the call."""
        out, own = [], []
        pts = fn.get('pt') or []
        try:
            for i, x in enumerate(exprs):
                pt = pts[i] if i < len(pts) else None
                if pt is not None and self.ty(pt).get('ref'):
                    v = self.ev(x, F)
                    if not isinstance(v, Obj):
                        v = self.boxed(v, x['t'])
                    out.append(v)
                else:
                    o = self.mk(pt if pt is not None else x['t'])
                    self.into(x, F, o)
                    out.append(o)
                    own.append(o)
        except (Thrown, Terminated):
            for o in reversed(own):
                self.destroy(o)
            raise
        return out, own

    def boxed(self, v, tid):
        o = self.mk(tid)
        if o.kind != 'scalar':
            raise Unsupported('value of type %s' % self.ty(tid).get('s'))
        o.val = v
        o.alive = True
        return o

    def call(self, fn, this, exprs, F, x, dest=None):
        qn = fn['qn']
        args, own = self.params(fn, exprs, F)
        self.stack.append(x.get('l'))
        try:
            d = self.P.functions.get(fn['key'])
            if fn['n'] == 'operator=' and fn.get('trivial') and this is not None and \
                    this.kind == 'rec':
                self.bitwise(this, args[0])
                r = this
            elif d is not None:
                r = self.body(d, this, args, dest, this.val[0] if this is not None and this.kind == 'closure' else None)
            else:
                r = self.intrinsic(fn, qn, this, args, x, dest)
        finally:
            self.stack.pop()
            for o in reversed(own):
                self.destroy(o)
        return r

    def returns_object(self, fn):
        ty = self.ty(fn['rt'])
        return ty.get('k') == 'rec' and not ty.get('ref')

    # ------------------------------------------------------------ functions without a body here
    def intrinsic(self, fn, qn, this, args, x, dest):
        n = fn['n']
        if qn.startswith('probe::'):
            return self.probe_function(fn, qn, n, this, args, x, dest)
        if qn in ('std::move', 'std::forward', 'std::as_const', 'std::move_if_noexcept', 'std::forward_like',
                  'std::ref', 'std::cref'):
            return args[0]
        if qn in ('std::addressof', 'std::__addressof'):
            return Ptr(args[0])
        if qn == 'std::swap':
            a, b = args
            if a.kind == 'scalar':
                u, v = self.load(a), self.load(b)
                self.store(a, v)
                self.store(b, u)
                return None
            t = self.mk(a.tid)
            self.move_construct(t, a)
            try:
                self.move_assign(a, b)
                self.move_assign(b, t)
            finally:
                self.destroy(t)
            return None
        if qn == 'std::exchange':
            a, b = args
            if a.kind == 'scalar':
                old = self.load(a)
                self.store(a, self.load(b))
                return old
            self.move_construct(dest, a)
            try:
                self.move_assign(a, b)
            except Thrown:
                self.destroy(dest)
                raise
            return dest
        if qn in ('std::destroy_at', 'std::_Destroy'):
            self.destroy(self.load(args[0]).obj if isinstance(args[0], Obj) else args[0].obj)
            return None
        if qn in ('std::invoke', 'std::__invoke') and args and args[0].kind == 'closure':
            return self.call_closure(args[0], args[1:], dest)
        if qn in ('std::terminate', 'abort', 'std::abort', '__builtin_unreachable', '__builtin_trap', '__assert_fail'):
            raise Violation('the program ends', x.get('l'))
        if qn in ('std::is_constant_evaluated', '__builtin_is_constant_evaluated', 'std::__is_constant_evaluated'):
            return False
        if n == 'operator()' or (fn.get('implicit') or fn.get('defaulted')) and n == 'operator=':
            if n == 'operator=':
                o, s = (this, args[0])
                if o.kind == 'rec' and not self.trivial(o.tid) or o.kind == 'probe':
                    raise Unsupported('assignment of %s' % self.ty(o.tid)['s'], x.get('l'))
                self.bitwise(o, s)
                return o
        if n.startswith('operator ') and this is not None and this.kind == 'opaque':
            ty = self.ty(this.tid)      # integral_constant's conversion
            ta = ty.get('targs') or []
            if len(ta) == 2 and 'v' in ta[1]:
                return int(ta[1]['v'])
        raise Unsupported('function %s' % qn, x.get('l'))

    def call_closure(self, c, args, dest):
        caps, ops = c.val
        if len(ops) != 1:
            raise Unsupported('generic closure')
        d = self.P.functions.get(ops[0]['key'])
        if d is None:
            raise Unsupported('closure without a body')
        return self.body(d, c, args, dest, caps)

    def probe_function(self, fn, qn, n, this, args, x, dest):
        if n == 'choose':
            return bool(self.choose(2, 'choose'))
        if n == 'claim':
            if not self.label(args[0]):
                raise Violation('this does not hold', x.get('l'))
            return None
        if n == 'holds':
            return self.label(args[0]) == self.label(args[1])
        if n == 'moved':
            return self.label(args[0]) == ('moved', self.label(args[1]))
        if n == 'usable':
            self.label(args[0])
            return True
        if n == 'applied':
            return self.label(args[0]) == ('f', self.label(args[1]), self.label(args[2]))
        if n == 'isMade':
            return self.label(args[0]) == ('made',)
        if n in ('ran', 'made', 'calm'):
            want = {'ran': lambda: [(self.label(args[0]), self.label(args[1]))], 'made': lambda: ['made'],
                    'calm': lambda: []}[n]()
            r = self.log == want
            self.log = []
            return r
        if n == 'forget':
            self.log = []
            return None
        cls = self.ty(fn['cls']).get('tn') if fn.get('cls') is not None else None
        if n == 'operator=' and cls in PROBES:
            self.probe_assign(this, fn, args[0])
            return this
        if n.startswith('operator') and n != 'operator()' and len(args) == 2:
            return self.compare(n[8:], self.label(args[0]), self.label(args[1]))
        if n == 'operator()':
            if cls in ('probe::Make', 'probe::KeptMake'):
                if self.choose(2, 'the function throws'):
                    raise Thrown(None, 'function')
                self.log.append('made')
                return self.result(fn, dest, ('made',))
            if not args:
                if self.choose(2, 'the function throws'):
                    raise Thrown(None, 'function')
                self.log.append('made')
                return None
            at = self.ty(fn['targs'][0]['t'])
            k = (0 if at.get('ref') == 1 else 2) + (1 if at.get('const') else 0)
            v = self.label(args[0])
            if self.choose(2, 'the function throws'):
                raise Thrown(None, 'function')
            self.log.append((v, k))
            if cls in ('probe::Proc', 'probe::KeptProc'):
                return None
            return self.result(fn, dest, ('f', v, k))
        raise Unsupported('function %s' % qn, x.get('l'))

    def result(self, fn, dest, label):
        if not self.returns_object(fn):
            return label
        if dest.kind != 'probe':
            raise Unsupported('result of type %s' % self.ty(dest.tid)['s'])
        self.begin(dest)
        dest.val = label
        dest.alive = True
        self.alive += 1
        return dest

    def compare(self, op, a, b):
        if isinstance(a, int) and isinstance(b, int) and False:
            pass
        if op == '!=':
            return not self.compare('==', a, b)
        if a == b:
            return op in ('==', '<=', '>=')
        k = (op, a, b)
        if op == '==' and (op, b, a) in self.known:
            k = (op, b, a)
        if k not in self.known:
            self.known[k] = bool(self.choose(2, '%s %s %s' % (a, op, b)))
        return self.known[k]

    # ------------------------------------------------------------ expressions
    def full(self, f):
        saved, self.temps = self.temps, []
        try:
            r = f()
        finally:
            ts, self.temps = self.temps, saved
            for o in reversed(ts):
                self.destroy(o)
        return r

    def temp(self, tid):
        o = self.mk(tid)
        return o

    def is_rec(self, tid):
        ty = self.ty(tid)
        return ty.get('k') == 'rec' and not ty.get('ref')

    def ev(self, x, F):
        """Object for glvalues (and class prvalues, materialised), value for scalars."""
        self.steps += 1
        m = getattr(self, 'e_' + x['e'].replace(':', '_'), None)
        if m is None:
            raise Unsupported('expression %s %s' % (x['e'], x.get('cls', '')), x.get('l'))
        if not x.get('vc') and x['e'] not in ('temp',) and self.is_rec(x['t']):
            # a class prvalue whose result object nobody named
            o = self.mk(x['t'])
            self.into(x, F, o)
            self.temps.append(o)
            return o
        return m(x, F)

    def val(self, x, F):
        v = self.ev(x, F)
        if isinstance(v, Obj) and v.kind == 'scalar':
            return self.load(v)
        return v

    def into(self, x, F, o):
        """Initialises the object o."""
        e = x['e']
        self.steps += 1
        if o.kind == 'scalar':
            if self.ty(o.tid).get('ref'):
                v = self.ev(x, F)
                o.val = v
                o.alive = True
                return
            self.store(o, self.val(x, F))
            return
        if x.get('vc'):
            raise Unsupported('initialisation from a glvalue', x.get('l'))
        if e == 'ctor':
            return self.construct(x, F, o)
        if e == 'inhctor':
            f = self.P.functions.get(x['fn']['key'])
            if f is None:
                raise Unsupported('inherited constructor', x.get('l'))
            return self.construct_with(f, o, F.args)
        if e == 'temp':
            return self.into(x['sub'], F, o)
        if e == 'cast':
            if x['ck'] in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion'):
                return self.into(x['sub'], F, o)
            raise Unsupported('cast %s' % x['ck'], x.get('l'))
        if e == 'cond':
            return self.into(x['a'] if self.val(x['c'], F) else x['b'], F, o)
        if e in ('call', 'memcall', 'opcall'):
            self.any_call(x, F, o)
            if not o.alive:
                raise Unsupported('no result from %s' % (x.get('fn') or {}).get('qn'), x.get('l'))
            return
        if e == 'lambda':
            return self.make_closure(x, F, o)
        if e == 'bin' and x['op'] == ',':
            self.discard(x['a'], F)
            return self.into(x['b'], F, o)
        if e in ('zero', 'init', 'stdinit'):
            return self.init_list(x, F, o)
        raise Unsupported('initialisation by %s' % e, x.get('l'))

    def init_list(self, x, F, o):
        self.begin(o)
        if o.kind == 'rec':
            xs = x.get('inits') or []
            names = list(o.fields)
            for n, y in zip(names, xs):
                self.into(y, F, o.fields[n])
            for n in names[len(xs):]:
                g = o.fields[n]
                if g.kind == 'scalar':
                    self.store(g, 0)
                elif g.fields:
                    raise Unsupported('initialiser of a member')
        elif o.kind == 'probe':
            raise Unsupported('list initialisation of a payload')
        o.alive = True

    def construct(self, x, F, o):
        fn = x['fn']
        args = x['args']
        if o.kind == 'probe':
            a, own = self.params(fn, args, F)
            self.stack.append(x.get('l'))
            try:
                a = [v.val if isinstance(v, Obj) and v.kind == 'scalar' and self.load(v) is v.val else v for v in a]
                self.probe_ctor(o, fn, a)
            finally:
                self.stack.pop()
                for v in own:
                    self.destroy(v)
            return
        if o.kind == 'closure':
            src = self.ev(args[0], F)
            self.copy_closure(o, src)
            return
        d = self.P.functions.get(fn['key'])
        if o.kind == 'opaque':
            if d is None:
                for y in args:
                    self.discard(y, F)
                o.alive = True
                return
            raise Unsupported('constructor of %s' % self.ty(o.tid)['s'], x.get('l'))
        if (x.get('copy') or x.get('move')) and (d is None or x.get('trivial')):
            if not x.get('trivial'):
                raise Unsupported('copy of %s' % self.ty(o.tid)['s'], x.get('l'))
            src = self.ev(args[0], F)
            self.bitwise(o, src)
            return
        if d is None:
            if x.get('default') and x.get('trivial'):
                self.begin(o)
                o.alive = True
                if x.get('zeroinit'):
                    for g in o.fields.values():
                        if g.kind == 'scalar':
                            self.store(g, 0)
                return
            raise Unsupported('constructor of %s' % self.ty(o.tid)['s'], x.get('l'))
        a, own = self.params(fn, args, F)
        self.stack.append(x.get('l'))
        try:
            self.construct_with(d, o, a)
        finally:
            self.stack.pop()
            for v in reversed(own):
                self.destroy(v)

    def any_call(self, x, F, dest=None):
        fn = x.get('fn')
        if fn is None:
            c = self.val(x['callee'], F)
            if isinstance(c, tuple) and c[0] == 'fn':
                return self.call(c[1], None, x['args'], F, x, dest)
            raise Unsupported('indirect call', x.get('l'))
        if x['e'] == 'memcall':
            ob = self.val(x['obj'], F) if x.get('arrow') else self.ev(x['obj'], F)
            if isinstance(ob, Ptr):
                ob = ob.obj
            if fn['n'].startswith('~'):
                self.stack.append(x.get('l'))
                try:
                    self.destroy(ob)
                finally:
                    self.stack.pop()
                return None
            return self.call(fn, ob, x['args'], F, x, dest)
        if x['e'] == 'opcall' and (x.get('ismem') or fn.get('cls') is not None and not fn.get('static')):
            ob = self.ev(x['args'][0], F)
            return self.call(fn, ob, x['args'][1:], F, x, dest)
        return self.call(fn, None, x['args'], F, x, dest)

    def e_call(self, x, F):
        return self.any_call(x, F)

    e_memcall = e_opcall = e_call

    def e_pseudodtor(self, x, F):
        o = self.val(x['obj'], F).obj if x.get('arrow') else self.ev(x['obj'], F)
        if isinstance(o, Obj):
            o.alive = False
        return None

    def e_ctor(self, x, F):
        # scalars do not have constructors; classes go through into()
        raise Unsupported('constructor', x.get('l'))

    def e_lambda(self, x, F):
        o = self.mk(x['t'])
        self.make_closure(x, F, o)
        return o

    def make_closure(self, x, F, o):
        caps = {}
        for c in x['caps']:
            if c['k'] == 'this':
                caps['this'] = ('this', F.this)
            elif c['k'] == 'ref' and not c.get('initcap'):
                caps[c['id']] = ('ref', self.lookup(c['id'], F, x))
            elif c['k'] == 'ref':
                caps[c['id']] = ('ref', self.ev(c['init'], F))
            elif c['k'] == 'copy':
                v = self.mk(c['t'])
                self.into(c['init'], F, v)
                if not (v.kind in ('scalar', 'closure') or self.trivial(v.tid)):
                    raise Unsupported('closure with objects', x.get('l'))
                caps[c['id']] = ('copy', v)
            else:
                raise Unsupported('capture %s' % c['k'], x.get('l'))
        o.val = (caps, x['ops'])
        o.alive = True

    def lookup(self, i, F, x):
        o = F.env.get(i)
        if o is None:
            raise Unsupported('name', x.get('l'))
        if o.kind == 'scalar' and self.ty(o.tid).get('ref') and isinstance(o.val, Obj):
            return o.val
        return o

    def e_ref(self, x, F):
        dk = x.get('dk')
        if dk in ('parm', 'var'):
            return self.lookup(x['id'], F, x)
        if dk == 'enumc':
            return int(x['v'])
        if dk == 'fn':
            return ('fn', x['fn'])
        if dk == 'global':
            if 'cv' in x and not self.ty(x['t']).get('ref'):
                return self.boxed(int(x['cv']), x['t'])
            o = self.globals.get(x['gid'])
            if o is None:
                o = self.mk(x['t'])
                o.alive = True
                if o.kind == 'scalar':
                    if 'cv' not in x:
                        raise Unsupported('object %s' % x.get('qn'), x.get('l'))
                    o.val = int(x['cv'])
                elif o.fields:
                    raise Unsupported('object %s' % x.get('qn'), x.get('l'))
                self.globals[x['gid']] = o
            return o
        raise Unsupported('reference to %s' % x.get('n'), x.get('l'))

    def e_this(self, x, F):
        return Ptr(F.this)

    def e_member(self, x, F):
        b = self.val(x['base'], F) if x.get('arrow') else self.ev(x['base'], F)
        if isinstance(b, Ptr):
            b = b.obj
        if x.get('dk') == 'field':
            g = self.field(b, x['n'])
            if g is None:
                raise Unsupported('member %s' % x['n'], x.get('l'))
            if g.kind == 'scalar' and self.ty(g.tid).get('ref'):
                return g.val
            return g
        if x.get('dk') == 'var':
            raise Unsupported('static member', x.get('l'))
        return b

    def e_temp(self, x, F):
        ext = self.ext
        if self.is_rec(x['t']):
            o = self.mk(x['t'])
            self.into(x['sub'], F, o)
        else:
            v = self.ev(x['sub'], F)
            if isinstance(v, Obj) and v.kind != 'scalar':
                return v
            o = self.boxed(self.load(v) if isinstance(v, Obj) else v, x['t'])
        if ext is x:
            F.scopes[-1].append(o)
        else:
            self.temps.append(o)
        return o

    def e_int(self, x, F):
        return int(x['v'])

    def e_bool(self, x, F):
        return bool(x['v'])

    def e_float(self, x, F):
        return x['d']

    def e_str(self, x, F):
        return x.get('v')

    def e_unk(self, x, F):
        if x.get('cls') in ('SourceLocExpr', 'PredefinedExpr'):
            return '?'
        raise Unsupported('expression %s %s' % (x['e'], x.get('cls', '')), x.get('l'))

    def e_nullptr(self, x, F):
        return None

    def e_zero(self, x, F):
        return 0

    def e_init(self, x, F):
        return self.val(x['inits'][0], F) if x.get('inits') else 0

    def e_cast(self, x, F):
        ck = x['ck']
        if ck == 'LValueToRValue':
            v = self.ev(x['sub'], F)
            return self.load(v) if isinstance(v, Obj) else v
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase'):
            v = self.ev(x['sub'], F)
            ty = self.ty(x['t'])
            rec = ty.get('rec') or self.ty(ty['to']).get('rec')
            if isinstance(v, Obj) and v.kind == 'scalar':
                v = self.load(v)
            o = v.obj if isinstance(v, Ptr) else v
            g = self.base(o, rec)
            if g is None:
                if self.P.records.get(rec, {}).get('repo'):
                    raise Unsupported('base %s' % rec, x.get('l'))
                return v
            return Ptr(g) if isinstance(v, Ptr) else g
        if ck == 'BaseToDerived':
            v = self.ev(x['sub'], F)
            ty = self.ty(x['t'])
            rec = ty.get('rec') or self.ty(ty['to']).get('rec')
            o = v.obj if isinstance(v, Ptr) else v
            while o is not None and self.ty(o.tid).get('rec') != rec:
                o = o.parent
            if o is None:
                raise Unsupported('static_cast', x.get('l'))
            return Ptr(o) if isinstance(v, Ptr) else o
        if ck == 'ToVoid':
            self.discard(x['sub'], F)
            return None
        if ck in ('NoOp', 'BitCast', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'IntegralCast', 'NullToPointer',
                  'UserDefinedConversion', 'ConstructorConversion', 'BuiltinFnToFnPtr', 'IntegralToFloating'):
            v = self.ev(x['sub'], F)
            if not x.get('vc') and isinstance(v, Obj) and v.kind == 'scalar':
                v = self.load(v)
            return v
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            return bool(self.val(x['sub'], F))
        raise Unsupported('cast %s' % ck, x.get('l'))

    def e_cond(self, x, F):
        return self.ev(x['a'] if self.val(x['c'], F) else x['b'], F)

    def e_bin(self, x, F):
        op = x['op']
        if op == ',':
            self.discard(x['a'], F)
            return self.ev(x['b'], F)
        a = self.val(x['a'], F)
        if op == '&&':
            return bool(a) and bool(self.val(x['b'], F))
        if op == '||':
            return bool(a) or bool(self.val(x['b'], F))
        b = self.val(x['b'], F)
        if op in ('==', '!='):
            if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, Ptr) or isinstance(b, Ptr) or a is None or b is None:
                r = a == b
                return r if op == '==' else not r
            if isinstance(a, int) and isinstance(b, int) and (a == b or not self.payload_like(x)):
                return (a == b) if op == '==' else a != b
            return self.compare(op, a, b)
        if op in ('<', '<=', '>', '>='):
            if isinstance(a, int) and isinstance(b, int) and not self.payload_like(x):
                return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
            return self.compare(op, a, b)
        if isinstance(a, int) and isinstance(b, int):
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if op in '&|^':
                r = {'&': a & b, '|': a | b, '^': a ^ b}[op]
                return r
        raise Unsupported('operator %s' % op, x.get('l'))

    def payload_like(self, x):
        """Numbers that stand for payloads come out of references into a result."""
        return False

    def e_un(self, x, F):
        op = x['op']
        if op == '&':
            v = self.ev(x['sub'], F)
            return Ptr(v) if isinstance(v, Obj) else v
        if op == '*':
            v = self.val(x['sub'], F)
            if isinstance(v, Ptr):
                return v.obj
            if isinstance(v, tuple):
                return v
            raise Unsupported('dereference', x.get('l'))
        if op == '!':
            return not self.val(x['sub'], F)
        if op == '__extension__':
            return self.ev(x['sub'], F)
        if op == '-':
            return -self.val(x['sub'], F)
        if op in ('++', '--'):
            o = self.ev(x['sub'], F)
            v = self.load(o)
            self.store(o, v + (1 if op == '++' else -1))
            return v if x.get('post') else o
        raise Unsupported('operator %s' % op, x.get('l'))

    def e_assign(self, x, F):
        v = self.val(x['b'], F)
        o = self.ev(x['a'], F)
        if o.kind != 'scalar':
            self.bitwise(o, v)
            return o
        self.stack.append(x.get('l'))
        try:
            self.store(o, v)
        finally:
            self.stack.pop()
        return o

    def e_cassign(self, x, F):
        b = self.val(x['b'], F)
        o = self.ev(x['a'], F)
        a = self.load(o)
        op = x['op']
        if op not in ('+', '-', '*', '&', '|', '^'):
            raise Unsupported('operator %s=' % op, x.get('l'))
        r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '&': lambda: a & b, '|': lambda: a | b,
             '^': lambda: a ^ b}[op]()
        self.store(o, bool(r) if self.ty(o.tid).get('k') == 'bool' else r)
        return o

    def e_new(self, x, F):
        if len(x.get('pl') or []) != 1:
            raise Unsupported('new', x.get('l'))
        p = self.val(x['pl'][0], F)
        if not isinstance(p, Ptr):
            raise Unsupported('placement new', x.get('l'))
        o = p.obj
        at = self.ty(x['at'])
        if at.get('k') == 'rec' and at.get('rec') != self.ty(o.tid).get('rec'):
            # an array member or the union itself as storage
            raise Unsupported('placement new of another type', x.get('l'))
        self.stack.append(x.get('l'))
        try:
            if o.kind == 'scalar':
                self.store(o, self.val(x['init'], F) if x.get('init') else 0)
            else:
                self.into(x['init'], F, o)
        finally:
            self.stack.pop()
        return p

    def e_throw(self, x, F):
        if x.get('sub') is None:
            if not self.handled:
                raise Violation('the program ends', x.get('l'))
            raise self.handled[-1]
        o = self.mk(x['sub']['t'])
        self.into(x['sub'], F, o)
        o.what = 'the exception'
        raise Thrown(o, 'thrown')

    def discard(self, x, F):
        return self.ev(x, F)

    # ------------------------------------------------------------ statements
    def exec(self, s, F):
        if s is None:
            return None
        m = getattr(self, 's_' + s['s'], None)
        if m is None:
            raise Unsupported('statement %s' % s['s'], s.get('l'))
        return m(s, F)

    def scoped(self, F, f):
        F.scopes.append([])
        try:
            return f()
        finally:
            for o in reversed(F.scopes.pop()):
                self.destroy(o)

    def s_block(self, s, F):
        def go():
            for c in s['b']:
                r = self.exec(c, F)
                if r is not None:
                    return r
        return self.scoped(F, go)

    def s_null(self, s, F):
        return None

    def s_expr(self, s, F):
        self.stack.append(s.get('l'))
        try:
            self.full(lambda: self.discard(s['x'], F))
        finally:
            self.stack.pop()

    def s_decl(self, s, F):
        for d in s['d']:
            self.decl(d, F)

    def decl(self, d, F):
        if d.get('static') or d.get('bindings'):
            raise Unsupported('declaration of %s' % d.get('n'))
        x = d.get('init')
        if self.ty(d['t']).get('ref'):
            y = x
            while y['e'] == 'cast' or y['e'] == 'member' and not y.get('arrow'):
                y = y['sub'] if y['e'] == 'cast' else y['base']
            saved, self.ext = self.ext, y if y['e'] == 'temp' else None
            try:
                v = self.full(lambda: self.ev(x, F))
            finally:
                self.ext = saved
            if not isinstance(v, Obj):
                v = self.boxed(v, x['t'])
            F.env[d['id']] = v
            return
        o = self.mk(d['t'])
        o.what = d.get('n')
        if x is not None:
            self.stack.append(x.get('l'))
            try:
                self.full(lambda: self.into(x, F, o))
            finally:
                self.stack.pop()
        F.env[d['id']] = o
        if o.kind != 'scalar':
            F.scopes[-1].append(o)

    def s_if(self, s, F):
        def go():
            if s.get('init'):
                self.exec(s['init'], F)
            if s.get('cv'):
                self.decl(s['cv'], F)
            c = self.full(lambda: self.val(s['c'], F))
            return self.scoped(F, lambda: self.exec(s['a'] if c else s.get('b'), F))
        return self.scoped(F, go)

    def s_return(self, s, F):
        x = s['x']
        if x is None:
            return ('return', None)
        self.stack.append(s.get('l'))
        try:
            rt = F.fn['rt']
            if F.dest is not None and self.is_rec(rt) and not x.get('vc'):
                self.full(lambda: self.into(x, F, F.dest))
                return ('return', F.dest)
            if self.is_rec(rt):
                o = self.mk(rt)
                self.full(lambda: self.into(x, F, o))
                self.temps.append(o)
                return ('return', o)
            ref = self.ty(rt).get('ref')
            v = self.full(lambda: self.ev(x, F) if ref else self.val(x, F))
            return ('return', v)
        finally:
            self.stack.pop()

    def s_try(self, s, F):
        try:
            return self.exec(s['b'], F)
        except Thrown as e:
            for h in s['h']:
                v = h.get('v')
                if v is not None:
                    ty = self.ty(v['t'])
                    if e.obj is None or not self.catches(ty, e.obj):
                        continue

                def go():
                    if v is not None:
                        if self.ty(v['t']).get('ref'):
                            F.env[v['id']] = e.obj
                        else:
                            raise Unsupported('catch by value')
                    return self.exec(h['b'], F)
                self.handled.append(e)
                again = None
                try:
                    return self.scoped(F, go)
                except Thrown as f:
                    again = f
                    raise
                finally:
                    self.handled.pop()
                    if e.obj is not None and again is not e:
                        self.destroy(e.obj)
            raise

    def catches(self, ty, o):
        if ty.get('rec') == self.ty(o.tid).get('rec'):
            return True
        if ty.get('tn') == 'std::exception':
            return True
        return ty.get('rec') is not None and self.base(o, ty['rec']) is not None


WHOLE = ('copy construction', 'move construction', 'copy assignment', 'move assignment', 'conversion')


def special(P, f):
    if not f['qn'].startswith('trajopt::expected') or len(f['params']) < 1 or f.get('cls') is None or \
            not (f.get('ctor') or f['n'] == 'operator='):
        return None
    t = P.types[f['params'][0]['t']]
    own = P.types[f['cls']]
    if not short(t['s']).replace('const ', '').startswith('trajopt::expected'):
        return None
    if t.get('rec') != own.get('rec'):
        return 'conversion'
    return ('move ' if t.get('ref') == 2 else 'copy ') + ('construction' if f.get('ctor') else 'assignment')


def entries(P):
    """The scenarios: functions without parameters of the classes in namespace scenario."""
    out = []
    for k, f in P.functions.items():
        if f.get('cls') is not None and not f['params'] and f.get('static') and \
                P.types[f['rt']].get('k') == 'void' and \
                f['qn'].startswith('scenario::') and not P.types[f['cls']].get('lambda'):
            cls = P.types[f['cls']]['s'].replace('scenario::', '').replace('probe::', '')
            for a, b in (('Thing<0, true, true>', 'Calm'), ('Thing<1, false, true>', 'Text'),
                         ('Thing<2, false, false>', 'Wild'), ('Thing<10, true, true>', 'Calm2'),
                         ('Thing<11, false, true>', 'Text2')):
                cls = cls.replace(a, b)
            out.append((f['loc'][1], cls, f['n'], k))
    return sorted(out)


def explore(P, key, limit=MAX_PATHS):
    """(paths, [(what, loc, choices)], functions, undecided reason)."""
    f = P.functions[key]
    todo = [[]]
    paths = 0
    bad = []
    seen = set()
    funcs = set()
    while todo:
        trace = todo.pop()
        n = len(trace)
        R = Run(P, trace)
        paths += 1
        what = None
        try:
            try:
                R.body(f, None, [], None)
                if R.alive:
                    what = ('%d payload(s) are never destroyed' % R.alive, f['loc'])
            except Thrown as e:
                if e.kind == 'thrown':
                    what = ('an exception leaves the operation', f['loc'])
                elif R.alive:
                    what = ('%d payload(s) are never destroyed after an exception' % R.alive, f['loc'])
            except Terminated as e:
                what = ('the program ends when a payload throws during the %s of a result' % e.args[0] if e.args[0] else
                        'the program ends when a payload throws: %s is noexcept' % short(e.args[1]['qn']),
                        e.args[1].get('loc'))
            except Violation as e:
                what = (e.what, e.loc)
        except Unsupported as e:
            return paths, bad, funcs, '%s%s' % (e.what, ' at %s:%s' % tuple(e.loc) if e.loc else '')
        funcs |= R.functions
        if what is not None and (what[0], str(what[1])) not in seen:
            seen.add((what[0], str(what[1])))
            bad.append((what[0], what[1], [t[2] + (': yes' if t[0] else ': no') for t in R.trace], R.calls))
        for i in range(n, len(R.trace)):
            c, m, w = R.trace[i]
            for alt in range(c + 1, m):
                todo.append([list(t) for t in R.trace[:i]] + [[alt, m, w]])
        if paths > limit:
            return paths, bad, funcs, 'more than %d paths' % limit
    return paths, bad, funcs, None


def load():
    tmp = tempfile.mkdtemp(prefix='tjx.')
    try:
        src = os.path.join(extract.VERIF, 'spec', 'C31.cpp')
        _, out, ok, err = extract.one(extract.tool(), tmp, src, os.path.join(tmp, 'o.json'), True)
        if not ok:
            return None, err
        return Program(json.load(open(out))), None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


_shared = {}


def one(key):
    import sys
    sys.setrecursionlimit(20000)
    try:
        return explore(_shared['P'], key, _shared['limit'])
    except Exception as e:
        return 0, [], set(), 'the analysis gave up: %r' % e


def short(qn):
    """The name of an operation without its template arguments."""
    out, d = '', 0
    for i, c in enumerate(qn):
        if c == '<' and not qn[:i].endswith('operator'):
            d += 1
        if d == 0:
            out += c
        if c == '>' and d:
            d -= 1
    return out


def where(loc):
    return '%s:%s' % (loc[0], loc[1]) if loc else None


def results(P, R, tier):
    """Rule of C31."""
    from verify import Outcome
    out = R.outcomes
    Q, err = load()
    R.explanation = ('Typestate analysis over the type-checked syntax trees. Each scenario of spec/C31.cpp is interpreted '
                     'together with the operations of trajopt::expected it reaches, along every path: every state of the '
                     'operands, every value category, and every payload operation that is not noexcept throwing or not. '
                     'Payloads are abstract (alive or not, and a label); the storage of value and error is tracked per '
                     'alternative. Nothing is compiled to code or run.')
    R.rule = ('no path uses, destroys, overwrites or leaks a payload out of its lifetime, every claim of the scenario holds '
              'at its end, and no exception but one of a payload or of value() leaves an operation')
    R.assumptions = ['move, forward, addressof, swap, exchange and invoke of the standard library mean what the standard says',
                     'payloads keep their value when one of their operations throws']
    if Q is None:
        line = next((l for l in err.splitlines() if 'error:' in l), err[:300])
        msg = line.split('error:', 1)[-1].strip()
        loc = line.split(': ')[0] if 'error:' in line else None
        # a use the documentation allows is rejected; a name that is gone, or a /repo that does not compile, is not judged
        gone = re.match(r"(no (member|type|template|function template) named|use of undeclared|unknown type name|"
                        r"'[^']*' file not found)", msg)
        bad = not P.errors and not gone
        out.append(Outcome('types', 'what a result type allows', 'violation' if bad else 'undecided', msg, loc))
        return
    out.append(Outcome('types', 'what a result type allows', 'discharged'))
    es = entries(Q)
    _shared['P'] = Q
    _shared['limit'] = 20000 if tier == 'quick' else 400000
    funcs = set()
    paths = 0
    ended = {}
    with multiprocessing.get_context('fork').Pool(8) as pool:
        for (line, cls, n, k), (np, bad, fs, und) in zip(es, pool.imap(one, [e[3] for e in es], chunksize=4)):
            paths += np
            funcs |= fs
            case = '%s::%s' % (cls, n)
            seen = set()
            ends = [b for b in bad if b[0].startswith('the program ends when a payload throws during')]
            bad = [b for b in bad if b not in ends]
            for b in ends:
                ended.setdefault(next(k for k in WHOLE if k in b[0]), []).append((case, b))
            for what, loc, choices, calls in bad:
                repo = calls[-1] if calls else None
                at = where(loc)
                if repo is not None and str(loc[0]).startswith(extract.VERIF):
                    at = where(repo[1])
                key = (what, at)
                if key in seen:
                    continue
                seen.add(key)
                d = '%s; path: %s' % (what, ', '.join(choices) or 'the only one')
                if calls:
                    d += '; operations: %s' % ', '.join(short(q) for q, l in calls)
                if at != where(loc):
                    d += '; claimed at %s' % where(loc)
                out.append(Outcome(case, what[:80], 'violation', d, at))
            if und:
                out.append(Outcome(case, 'all paths', 'undecided', und))
            elif not bad:
                out.append(Outcome(case, '%d paths' % np, 'discharged'))
    for k in WHOLE:
        if k in ended:
            case, (what, loc, choices, calls) = ended[k][0]
            out.append(Outcome('exceptions', k, 'violation', '%s; scenario %s; path: %s; operations: %s; %d more scenarios' % (
                what, case, ', '.join(choices), ', '.join(short(q) for q, l in calls), len(ended[k]) - 1), where(loc)))
        else:
            out.append(Outcome('exceptions', k, 'discharged'))
    if not es:
        out.append(Outcome('spec/C31.cpp', 'scenarios', 'undecided', 'none found'))
    R.functions = sorted({'%s (%s:%s)' % (short(q), l, n) for q, l, n in funcs if l.startswith(extract.REPO)})
    R.coverage['paths'] = paths
    R.coverage['scenarios'] = len(es)
    R.coverage['operations_analysed'] = len(R.functions)
