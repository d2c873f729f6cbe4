"""Summaries of the Rust half of the bindings.

rustc type-checks src/lib.rs, with the #[cxx::bridge] module replaced by the
declarations it stands for, and prints its MIR; the reader below evaluates the
MIR of every function over symbolic arguments, path by path, inlining calls
within the crate. Calls into the bridge are effects."""
import os
import re
import subprocess
import tempfile

import bridge
import extract

DERIVES = {'Debug', 'Clone', 'Copy', 'Default', 'PartialEq', 'Eq', 'PartialOrd', 'Ord', 'Hash'}


class RustError(Exception):
    pass


class Unsupported(Exception):
    pass


# ------------------------------------------------------------ the generated source
def rty(ty):
    if ty is None:
        return '()'
    h = ty[0]
    if h in ('&', '&mut'):
        return '%s %s' % (h, rty(ty[1]))
    if h == 'slice':
        return '[%s]' % rty(ty[1])
    if h == 'array':
        return '[%s; %s]' % (rty(ty[1]), ty[2])
    if h == 'tuple':
        return '(%s)' % ', '.join(rty(x) for x in ty[1:])
    if h == 'fn':
        return 'fn(%s) -> %s' % (', '.join(rty(x) for x in ty[1]), rty(ty[2]))
    m = {'Pin': '::core::pin::Pin', 'UniquePtr': '::cxx::UniquePtr', 'SharedPtr': '::cxx::SharedPtr',
         'CxxString': '::cxx::CxxString', 'CxxVector': '::cxx::CxxVector'}
    if h == 'Result':
        return '::core::result::Result<%s, ::cxx::Exception>' % (rty(ty[1]) if len(ty) > 1 else '()')
    h = m.get(h, h)
    return h + ('<%s>' % ', '.join(rty(x) for x in ty[1:]) if len(ty) > 1 else '')


def module(br):
    o = ['#[allow(warnings)] mod %s {' % br['mod']]
    for s, (fs, _) in br['structs'].items():
        o.append('#[derive(Clone, Debug)] pub struct %s { %s }' %
                 (s, ' '.join('pub %s: %s,' % (n, rty(ty)) for n, ty in fs)))
    meth = {}
    for name, lang in br['types']:
        o.append('pub struct %s { _q: u64 }' % name)
    for f in br['funcs']:
        ps = ', '.join('%s: %s' % (n, rty(ty)) for n, ty in f['params'])
        if f['self']:
            ty = f['self']
            cls = ty[1][1][0] if ty[0] == 'Pin' else ty[1][0]
            meth.setdefault(cls, []).append('pub fn %s(self: %s, %s) -> %s { loop {} }' %
                                            (f['name'], rty(ty), ps, rty(f['ret'])))
        elif f['lang'] == 'C++':
            o.append('pub fn %s(%s) -> %s { loop {} }' % (f['name'], ps, rty(f['ret'])))
    for cls, ms in meth.items():
        o.append('impl %s { %s }' % (cls, ' '.join(ms)))
    o.append('}')
    return ' '.join(o)


def mir(path):
    """(bridge table, MIR text, generated source)"""
    try:
        br = bridge.parse(path)
    except (bridge.BridgeError, AssertionError, IndexError, OSError) as e:
        raise RustError('lib.rs: %s' % e)
    src = open(path).read()
    a, b = br['span']
    text = src[:a] + module(br) + '\n' * src[a:b].count('\n') + src[b:]
    with tempfile.TemporaryDirectory(prefix='tjr.') as d:
        f = os.path.join(d, 'lib.rs')
        open(f, 'w').write(text)
        stub = os.path.join(extract.VERIF, 'stubs', 'cxx', 'lib.rs')
        base = ['rustc', '--edition', '2021', '-C', 'panic=abort', '-A', 'warnings']
        env = dict(os.environ, RUSTC_BOOTSTRAP='1')
        r = subprocess.run(base + ['--crate-name', 'cxx', '--crate-type', 'rlib', '-o', d + '/libcxx.rlib', stub],
                           capture_output=True, text=True, env=env)
        if r.returncode:
            raise RustError('stub: ' + r.stderr[-1500:])
        r = subprocess.run(base + ['--crate-name', 'trajoptlib', '--crate-type', 'lib', '--emit=mir', '-C',
                                   'overflow-checks=off', '-C', 'debug-assertions=off', '-Z', 'trim-diagnostic-paths=no', '--extern',
                                   'cxx=' + d + '/libcxx.rlib', '-o', d + '/out.mir', f],
                           capture_output=True, text=True, env=env)
        if r.returncode:
            raise RustError('lib.rs does not compile:\n' + r.stderr[-3000:])
        return br, open(d + '/out.mir').read().replace(f, 'lib.rs'), text


# ------------------------------------------------------------ reading MIR
class Fn:
    def __init__(self, name, params, ret):
        self.name = name
        self.params = params       # [(local, type)]
        self.ret = ret
        self.names = {}            # local -> source name
        self.types = {}
        self.blocks = {}
        self.line = None


HEAD = re.compile(r'^fn (.*?)\((.*)\) -> (.*) \{$')


def split_top(s, sep=','):
    out, d, cur = [], 0, ''
    i = 0
    q = None
    while i < len(s):
        c = s[i]
        if q:
            cur += c
            if c == '\\':
                cur += s[i + 1]
                i += 1
            elif c == q:
                q = None
        elif c == '"':
            q = c
            cur += c
        elif s.startswith('->', i) or s.startswith('=>', i):
            cur += s[i:i + 2]
            i += 1
        elif c in '([{<':
            d += 1
            cur += c
        elif c in ')]}>':
            d -= 1
            cur += c
        elif c == sep and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def head(line):
    """name, parameter text and return type of a 'fn' line."""
    s = line[3:-2]
    # the parameter list starts at the first '(_1' or '()' outside <...>
    m = re.search(r'\((?=_1: )|\(\)(?= -> )', s)
    if not m:
        return None
    name = s[:m.start()]
    d = 0
    for i in range(m.start(), len(s)):
        if s[i] == '(':
            d += 1
        elif s[i] == ')':
            d -= 1
            if d == 0:
                break
    return name, s[m.start() + 1:i], s[i + 1:].strip()[3:]


def canon(name, text):
    """`a::<impl at lib.rs:L:C: ...>::f` -> `a::Type::f` or `<Type as Trait>::f`."""
    m = re.match(r'^(.*?)<impl at [^:]*:(\d+):(\d+):[^>]*>::(.*)$', name)
    if not m:
        return name, None
    pre, line, col, rest = m.group(1), int(m.group(2)), int(m.group(3)), m.group(4)
    src = '\n'.join(text.split('\n')[line - 1:line + 3])[col - 1:]
    k = re.match(r'impl\s*(?:<[^>]*>)?\s*([\w:<>]+)(?:\s+for\s+([\w:<>]+))?', src)
    if not k:
        return name, line
    if k.group(2):
        return '<%s%s as %s>::%s' % (pre, k.group(2), k.group(1), rest), line
    return '%s%s::%s' % (pre, k.group(1), rest), line


def read(text, source):
    fns = {}
    cur = blk = None
    for line in text.split('\n'):
        if cur is None:
            if line.startswith('fn ') and line.endswith('{'):
                h = head(line)
                if h is None:
                    continue
                name, ps, ret = h
                name, ln = canon(name, source)
                params = []
                for p in split_top(ps):
                    a, b = p.split(':', 1)
                    params.append((a.strip(), b.strip()))
                cur = Fn(name, params, ret)
                cur.line = ln
                cur.types.update(params)
            continue
        if line == '}':
            fns[cur.name] = cur
            cur = blk = None
            continue
        s = line.strip()
        m = re.match(r'^debug (\w+) => (_\d+);$', s)
        if m:
            cur.names.setdefault(m.group(2), m.group(1))
            continue
        m = re.match(r'^let (?:mut )?(_\d+): (.*);$', s)
        if m:
            cur.types[m.group(1)] = m.group(2)
            continue
        m = re.match(r'^(bb\d+)(?: \(cleanup\))?: \{$', s)
        if m:
            blk = cur.blocks[m.group(1)] = []
            continue
        if s == '}' or not s or s.startswith('scope '):
            if s == '}':
                blk = None
            continue
        if blk is not None:
            blk.append(s.rstrip(';'))
    return fns


# ------------------------------------------------------------ evaluation
IDENT = re.compile(r'::(to_string|to_owned|from|into|as_str|clone|borrow|as_ref|to_vec|deref|deref_mut|as_mut|'
                   r'borrow_mut|as_slice|into_boxed_str|into_string)$')


MUTATE = {'dedup', 'sort', 'sort_unstable', 'reverse', 'push', 'pop', 'truncate', 'retain', 'insert', 'remove', 'clear',
          'swap_remove', 'rotate_left', 'rotate_right', 'swap', 'resize', 'extend_from_slice', 'append'}


def plain_elem(v):
    while v[0] in ('addr', 'deref', 'place'):
        v = v[1]
    return v


class Path:
    def __init__(self, conds, events, env):
        self.conds = conds
        self.events = events
        self.env = env


class Eval:
    def __init__(self, fns, br):
        self.fns = fns
        self.br = br
        self.mod = br['mod']
        self.steps = 0
        self.seen = set()
        self.unknown = set()

    # --- places
    def place(self, s, F):
        """An lvalue as ('loc', frame, local, projections) or a symbolic value."""
        s = s.strip()
        if re.match(r'^_\d+$', s):
            return ('loc', F.id, s, ())
        if s.startswith('(*') and s.endswith(')') and self.closes(s):
            v = self.load(self.place(s[2:-1], F), F)
            return self.deref(v)
        if s.startswith('(') and s.endswith(')') and self.closes(s):
            inner = s[1:-1]
            # (place as Variant)
            m = re.match(r'^(.*) as (\w+)$', inner)
            if m and not self.has_top_colon(inner):
                return self.proj(self.place(m.group(1), F), ('as', m.group(2)))
            k = self.top_colon(inner)
            if k is not None:
                p = inner[:k]
                j = p.rindex('.')
                return self.proj(self.place(p[:j], F), ('f', p[j + 1:].strip()))
        m = re.match(r'^(.*)\[(.*)\]$', s)
        if m:
            return self.proj(self.place(m.group(1), F), ('ix', m.group(2)))
        raise Unsupported('place %s' % s)

    def closes(self, s):
        d = 0
        for i, c in enumerate(s):
            if c == '(':
                d += 1
            elif c == ')':
                d -= 1
                if d == 0:
                    return i == len(s) - 1
        return False

    def top_colon(self, s):
        d = 0
        for i, c in enumerate(s):
            if c in '([<{':
                d += 1
            elif c in ')]}' or (c == '>' and s[i - 1] != '-'):
                d -= 1
            elif c == ':' and d == 0 and s[i:i + 2] == ': ':
                return i
        return None

    def has_top_colon(self, s):
        return self.top_colon(s) is not None

    def proj(self, p, k):
        if p[0] == 'loc':
            return ('loc', p[1], p[2], p[3] + (k,))
        return ('place', self.value_proj(p[1], k)) if p[0] == 'place' else ('place', self.value_proj(p, k))

    def value_proj(self, v, k):
        if k[0] == 'as':
            if v[0] == 'agg':
                return v
            return ('variant', k[1], v)
        if k[0] == 'f':
            if v[0] == 'agg':
                return v[2][int(k[1])]
            return ('field', v, k[1])
        return ('index', v, k[1])

    def deref(self, v):
        """The place a pointer value points to."""
        if v[0] == 'addr':
            return v[1]
        return ('place', ('deref', v))

    def addr(self, p):
        if p[0] == 'place' and p[1][0] == 'deref':
            return p[1][1]
        return ('addr', p)

    def load(self, p, F):
        if p[0] == 'place':
            return p[1]
        _, fid, loc, pr = p
        v = self.env.get((fid, loc))
        if v is None:
            raise Unsupported('read of unset %s' % loc)
        for k in pr:
            v = self.value_proj(v, k)
        return v

    def store(self, p, v, F):
        if p[0] == 'place':
            self.events = self.events + (('write', p[1], v),)
            return
        _, fid, loc, pr = p
        if not pr:
            self.env[(fid, loc)] = v
            return
        old = self.env.get((fid, loc))
        self.env[(fid, loc)] = self.update(old, pr, v)

    def update(self, old, pr, v):
        if not pr:
            return v
        if old is None or old[0] != 'agg' or pr[0][0] != 'f':
            raise Unsupported('partial write')
        i = int(pr[0][1])
        xs = list(old[2])
        xs[i] = self.update(xs[i], pr[1:], v)
        return ('agg', old[1], tuple(xs))

    def operand(self, s, F):
        s = s.strip()
        m = re.match(r'^(?:copy|move) (.*)$', s)
        if m:
            return self.load(self.place(m.group(1), F), F)
        if s.startswith('const '):
            c = s[6:]
            m = re.match(r'^ZeroSized: (.*)$', c)
            return ('fnitem', m.group(1)) if m else ('const', c)
        if re.match(r'^[\w:<>& ]+$', s) or '::' in s:
            return ('fnitem', s)
        return self.load(self.place(s, F), F)

    def rvalue(self, s, F):
        if s.startswith('no_retag '):
            s = s[9:]
        m = re.match(r'^&(?:raw (?:const|mut) |mut |fake shallow )?(.*)$', s)
        if m:
            return self.addr(self.place(m.group(1), F))
        m = re.match(r'^discriminant\((.*)\)$', s)
        if m:
            return ('discr', self.load(self.place(m.group(1), F), F))
        m = re.match(r'^((?:copy|move|const) .*) as (.*) \((\w+)(?:\(.*\))?\)$', s)
        if m:
            v = self.operand(m.group(1), F)
            if m.group(3) in ('PointerCoercion', 'PtrToPtr', 'Transmute', 'Subtype'):
                return v
            return ('cast', m.group(2), v)
        if re.match(r'^(copy|move|const) ', s) and not self.top_paren_after(s):
            return self.operand(s, F)
        m = re.match(r'^(Add|Sub|Mul|Div|Rem|BitXor|BitAnd|BitOr|Shl|Shr|Eq|Lt|Le|Ne|Ge|Gt|Offset|AddUnchecked|'
                     r'SubUnchecked|MulUnchecked|Cmp)\((.*)\)$', s)
        if m:
            return ('op', m.group(1)) + tuple(self.operand(x, F) for x in split_top(m.group(2)))
        m = re.match(r'^(Not|Neg|PtrMetadata|Len|CopyForDeref)\((.*)\)$', s)
        if m:
            x = m.group(2)
            v = self.operand(x, F) if re.match(r'^(copy|move|const) ', x) else self.load(self.place(x, F), F)
            return v if m.group(1) == 'CopyForDeref' else ('op', m.group(1), v)
        if s.startswith('deref_copy '):
            return self.load(self.place(s[11:], F), F)
        if s == '()':
            return ('agg', '()', ())
        m = re.match(r'^\((.*)\)$', s)
        if m and self.closes(s):
            return ('agg', '()', tuple(self.operand(x, F) for x in split_top(m.group(1))))
        m = re.match(r'^\[(.*)\]$', s)
        if m:
            return ('agg', '[]', tuple(self.operand(x, F) for x in split_top(m.group(1))))
        m = re.match(r'^(\{closure@.*?\})(?: \{ (.*) \})?$', s)
        if m:
            xs = split_top(m.group(2)) if m.group(2) else []
            return ('agg', m.group(1), tuple(self.operand(x.split(':', 1)[1], F) for x in xs))
        m = re.match(r'^([\w:<>, &\'()]+?) \{ (.*) \}$', s)
        if m:
            return ('agg', m.group(1), tuple(self.operand(x.split(':', 1)[1], F) for x in split_top(m.group(2))))
        # enum variant or tuple struct
        m = re.match(r'^(.*?)(?:\((.*)\))?$', s)
        if m and '::' in m.group(1):
            k = s.find('(')
            # find the parenthesis that closes at the end
            if s.endswith(')'):
                d = 0
                for i in range(len(s) - 1, -1, -1):
                    if s[i] == ')':
                        d += 1
                    elif s[i] == '(':
                        d -= 1
                        if d == 0:
                            k = i
                            break
                name, xs = s[:k], split_top(s[k + 1:-1])
            else:
                name, xs = s, []
            return ('agg', name.rsplit('::', 1)[1], tuple(self.operand(x, F) for x in xs))
        raise Unsupported('rvalue %s' % s)

    def top_paren_after(self, s):
        return False

    # --- execution
    def run(self, fn, args, conds=(), events=(), known=None):
        """[(conds, events, value)] over all paths."""
        self.env = {}
        self.events = tuple(events)
        self.known = dict(known or {})
        self.nframe = 0
        self.panics = []
        out = []
        self.call_local(fn, args, lambda v: out.append((dict(self.known), self.events, v)), 0)
        return out

    def snapshot(self):
        return dict(self.env), self.events, dict(self.known)

    def restore(self, s):
        self.env, self.events, self.known = dict(s[0]), s[1], dict(s[2])

    def call_local(self, fn, args, cont, depth):
        if depth > 20:
            raise Unsupported('recursion')
        self.seen.add((fn.name, fn.line))
        F = type('F', (), {})()
        self.nframe += 1
        F.id = self.nframe
        F.fn = fn
        for (p, ty), a in zip(fn.params, args):
            self.env[(F.id, p)] = a
        self.block(F, 'bb0', cont, depth, {})

    def block(self, F, bb, cont, depth, visits):
        self.steps += 1
        if self.steps > 20000:
            raise Unsupported('too many steps')
        visits = dict(visits)
        visits[bb] = visits.get(bb, 0) + 1
        if visits[bb] > 6:
            raise Unsupported('loop in %s' % F.fn.name)
        for i, s in enumerate(F.fn.blocks[bb]):
            if s.startswith(('StorageLive', 'StorageDead', 'nop', 'FakeRead', 'AscribeUserType', 'Retag', 'PlaceMention',
                             'ConstEvalCounter', 'Coverage')):
                continue
            if s == 'return':
                cont(self.env.get((F.id, '_0'), ('agg', '()', ())))
                return
            if s in ('unreachable', 'resume', 'abort') or s.startswith('terminate'):
                return
            m = re.match(r'^goto -> (bb\d+)$', s)
            if m:
                return self.block(F, m.group(1), cont, depth, visits)
            m = re.match(r'^drop\(.*\) -> \[return: (bb\d+).*\]$', s) or re.match(r'^drop\(.*\) -> (bb\d+)$', s)
            if m:
                return self.block(F, m.group(1), cont, depth, visits)
            m = re.match(r'^(?:falseEdge|falseUnwind) -> \[real: (bb\d+).*\]$', s)
            if m:
                return self.block(F, m.group(1), cont, depth, visits)
            m = re.match(r'^assert\(.*\) -> \[success: (bb\d+).*\]$', s)
            if m:
                return self.block(F, m.group(1), cont, depth, visits)
            m = re.match(r'^switchInt\((.*)\) -> \[(.*)\]$', s)
            if m:
                return self.switch(F, self.operand(m.group(1), F), m.group(2), cont, depth, visits)
            m = re.match(r'^(.*?) = (.*) -> \[return: (bb\d+).*\]$', s) or \
                re.match(r'^(.*?) = (.*) -> (bb\d+|unwind .*)$', s)
            if m:
                dst, call, nxt = m.groups()
                return self.call(F, dst, call, nxt, cont, depth, visits)
            m = re.match(r'^(.*?) = (.*)$', s)
            if m:
                v = self.rvalue(m.group(2), F)
                self.store(self.place(m.group(1), F), v, F)
                continue
            raise Unsupported('statement %s' % s)
        raise Unsupported('block %s has no terminator' % bb)

    NUM = {'Ok': 0, 'Err': 1, 'None': 0, 'Some': 1, 'Continue': 0, 'Break': 1}

    def switch(self, F, v, targets, cont, depth, visits):
        ts = []
        other = None
        for x in split_top(targets):
            a, b = [y.strip() for y in x.split(':')]
            if a == 'otherwise':
                other = b
            else:
                ts.append((int(a), b))
        if v[0] == 'discr' and v[1][0] == 'agg':
            n = self.NUM.get(v[1][1])
            if n is None:
                raise Unsupported('discriminant of %s' % v[1][1])
            v = ('const', str(n))
        if v[0] == 'const':
            c = v[1].split('_')[0]
            n = {'true': 1, 'false': 0}.get(c)
            n = int(c) if n is None else n
            return self.block(F, dict(ts).get(n, other), cont, depth, visits)
        if v in self.known:
            k = self.known[v]
            return self.block(F, dict(ts).get(k, other), cont, depth, visits)
        st = self.snapshot()
        for n, b in ts:
            self.restore(st)
            self.known[v] = n
            self.block(F, b, cont, depth, visits)
        if other is not None:
            if v[0] == 'discr' and len(ts) >= 2:
                return
            self.restore(st)
            rest = {0, 1} - {n for n, _ in ts}
            self.known[v] = rest.pop() if len(rest) == 1 else 'other'
            self.block(F, other, cont, depth, visits)

    def parse_call(self, s):
        assert s.endswith(')')
        d = 0
        for i in range(len(s) - 1, -1, -1):
            if s[i] == ')':
                d += 1
            elif s[i] == '(':
                d -= 1
                if d == 0:
                    break
        return s[:i].strip(), split_top(s[i + 1:-1])

    def call(self, F, dst, s, nxt, cont, depth, visits):
        name, xs = self.parse_call(s)
        args = [self.operand(x, F) for x in xs]
        dp = self.place(dst, F)

        def done(v):
            env = self.env
            self.store(dp, v, F)
            if nxt.startswith('bb'):
                self.block(F, nxt, cont, depth, visits)
        if re.match(r'^(copy|move) ', name):
            f = self.operand(name, F)
            return self.apply(f, args, done, depth)
        self.invoke(name, args, done, depth)

    def plain(self, name):
        """The path without generic arguments."""
        out, d = '', 0
        i = 0
        while i < len(name):
            if name.startswith('::<', i) and (i > 0):
                j = i + 2
                d = 0
                while True:
                    if name[j] == '<':
                        d += 1
                    elif name[j] == '>' and name[j - 1] != '-':
                        d -= 1
                        if d == 0:
                            break
                    j += 1
                i = j + 1
                continue
            out += name[i]
            i += 1
        return out

    def lookup(self, name):
        n = self.plain(name)
        for k in (name, n, n.replace('crate::', '')):
            if k in self.fns:
                return self.fns[k]
        m = re.match(r'^<(.*) as (.*)>::(\w+)$', n)
        if m:
            for k, f in self.fns.items():
                q = re.match(r'^<(.*) as (.*)>::(\w+)$', k)
                if q and q.group(1).split('::')[-1] == m.group(1).split('::')[-1] and \
                        q.group(2).split('::')[-1] == re.sub(r'<.*', '', m.group(2)).split('::')[-1] and \
                        q.group(3) == m.group(3):
                    return f
        return None

    def apply(self, f, args, done, depth):
        """Call a function value."""
        if f[0] == 'fnitem':
            if f[1].startswith('{closure@'):
                return self.closure(f[1], ('agg', f[1], ()), args, done, depth)
            return self.invoke(f[1], args, done, depth)
        if f[0] == 'agg' and f[1].startswith('{closure@'):
            return self.closure(f[1], f, args, done, depth)
        raise Unsupported('call of a function value')

    def closure(self, tag, v, args, done, depth):
        for fn in self.fns.values():
            if fn.params and tag in fn.params[0][1]:
                byref = fn.params[0][1].startswith('&')
                if byref:
                    self.nframe += 1
                    self.env[(self.nframe, 'clo')] = v
                    v = ('addr', ('loc', self.nframe, 'clo', ()))
                return self.call_local(fn, [v] + args, done, depth + 1)
        raise Unsupported('closure %s' % tag)

    def split_result(self, v, ok, bad, okn='Ok', badn='Err'):
        if v[0] == 'agg' and v[1] in (okn, badn):
            return ok(v[2][0]) if v[1] == okn else bad(v[2][0] if v[2] else None)
        d = ('discr', v)
        st = self.snapshot()
        for n, name, k in ((self.NUM[okn], okn, ok), (self.NUM[badn], badn, bad)):
            self.restore(st)
            if self.known.get(d, n) != n:
                continue
            self.known[d] = n
            k(('field', ('variant', name, v), '0'))

    def invoke(self, name, args, done, depth):
        n = self.plain(name)
        base = self.mod + '::'
        short = n.replace('crate::', '')
        if short.startswith(base) or ('::' + base) in short:
            f = short.split(base, 1)[1]
            ev = ('ffi', f.split('::')[-1], tuple(self.resolve(a) for a in args))
            self.events = self.events + (ev,)
            return done(('result', len(self.events), f.split('::')[-1]))
        fn = self.lookup(name)
        if fn is not None:
            return self.call_local(fn, args, done, depth + 1)
        last = n.split('::')[-1]
        if 'UniquePtr' in n and last in ('pin_mut', 'deref', 'deref_mut'):
            return done(('addr', ('place', ('pointee', self.load(self.deref(args[0]), None)))))
        if 'UniquePtr' in n and last in ('as_mut', 'as_ref'):
            return done(('agg', 'Some', (('addr', ('place', ('pointee', self.load(self.deref(args[0]), None)))),)))
        if 'Pin' in n and last in ('as_mut', 'get_mut', 'new', 'new_unchecked', 'get_unchecked_mut', 'as_ref'):
            a = args[0]
            return done(self.load(a[1], None) if a[0] == 'addr' and a[1][0] == 'loc' and last in ('as_mut', 'as_ref')
                        else a)
        if 'Pin' in n and last in ('deref', 'deref_mut'):
            return done(self.load(args[0][1], None) if args[0][0] == 'addr' and args[0][1][0] == 'loc' else args[0])
        if 'Exception' in n and last in ('what', 'to_string'):
            return done(('what', self.load(self.deref(args[0]), None)))
        if re.search(r'result::Result', n) or re.search(r'option::Option', n):
            opt = 'option::Option' in n and 'result::Result' not in n.split('::' + last)[0]
            okn, badn = ('Some', 'None') if opt else ('Ok', 'Err')
            ag = lambda k, v: done(('agg', k, (v,)))
            if last == 'map_err':
                return self.split_result(args[0], lambda x: ag('Ok', x),
                                         lambda e: self.apply(args[1], [e], lambda r: ag('Err', r), depth))
            if last == 'map':
                return self.split_result(args[0], lambda x: self.apply(args[1], [x], lambda r: ag(okn, r), depth),
                                         lambda e: ag(badn, e), okn, badn)
            if last == 'and_then':
                return self.split_result(args[0], lambda x: self.apply(args[1], [x], done, depth),
                                         lambda e: ag(badn, e), okn, badn)
            if last == 'or_else' and not opt:
                return self.split_result(args[0], lambda x: ag('Ok', x),
                                         lambda e: self.apply(args[1], [e], done, depth))
            if last == 'branch':
                return self.split_result(args[0], lambda x: ag('Continue', x),
                                         lambda e: done(('agg', 'Break', (('agg', badn, (e,)),))), okn, badn)
            if last == 'from_residual':
                m = re.match(r'^<(.*) as core::ops::(?:\w+::)*FromResidual<(.*)>>::', name) or \
                    re.match(r'^<(.*) as (?:\w+::)*FromResidual<(.*)>>::', name)
                e1 = split_top(m.group(1)[m.group(1).index('<') + 1:-1])[-1] if m else None
                e2 = split_top(m.group(2)[m.group(2).index('<') + 1:-1])[-1] if m else 0
                if e1 != e2:
                    raise Unsupported('conversion of errors')
                return done(args[0])
            if last in ('unwrap', 'expect'):
                return self.split_result(args[0], done, lambda e: None, okn, badn)
        if re.search(r'fmt::rt::Argument', n) and last == 'new_display':
            return done(('display', self.load(self.deref(args[0]), None)))
        if re.search(r'fmt::Arguments', n) and last == 'new' and len(args) == 2:
            a = self.load(self.deref(args[1]), None)
            if args[0] == ('const', 'b"\\xc0\\x00"') and a[0] == 'agg' and len(a[2]) == 1 and a[2][0][0] == 'display':
                return done(('shown', a[2][0][1]))
        if n.endswith('fmt::format') and args[0][0] == 'shown':
            v = args[0][1]
            return done(('what', v) if self.is_exception(v) else ('call', n, v))
        if n.endswith('hint::must_use'):
            return done(args[0])
        if re.search(r'panicking::|::unwrap_failed$|::expect_failed$', n):
            self.events = self.events + (('panic',),)
            return self.panics.append((dict(self.known), self.events))
        if last in MUTATE and re.search(r'\b(vec::Vec|slice|Vec)\b', n) and args and args[0][0] == 'addr':
            p = args[0][1]
            self.store(p, ('call', last, self.load(p, None)) + tuple(self.resolve(a) for a in args[1:]), None)
            return done(('agg', '()', ()))
        if re.search(r'\biter(ator)?::|IntoIterator|\bslice\b|vec::Vec|::Vec::|as Iterator', n) or 'Iterator' in n:
            if last in ('iter', 'into_iter', 'copied', 'cloned', 'collect', 'to_vec', 'into_vec') and len(args) == 1:
                return done(self.contents(args[0]))
            if last in ('rev', 'skip', 'take', 'step_by', 'filter', 'filter_map', 'take_while', 'skip_while'):
                return done(('call', last) + tuple(self.resolve(a) for a in args))
            if last == 'map' and len(args) == 2:
                e = ('elem', len(self.events))
                return self.apply(args[1], [('addr', ('place', e)) if '::Iter<' in n or 'slice::Iter' in n else e],
                                  lambda r: done(args[0] if plain_elem(r) == e else ('call', 'map', args[0], r)), depth)
        if re.match(r'^(?:(?:core|std)::(?:f32|f64|num|[iu]\d+|usize|isize|str|char|string)(::|$)|'
                    r'<(?:f32|f64|[iu]\d+|usize|isize|bool) as )', n) and \
                not IDENT.search(n) and not any(a[0] == 'addr' and a[1][0] == 'loc' for a in args):
            # a function of its arguments that is not the identity
            return done(('call', n) + tuple(self.resolve(a) for a in args))
        if IDENT.search(n) and len(args) == 1:
            a = args[0]
            if last in ('clone', 'to_string', 'to_owned', 'to_vec', 'as_str', 'deref', 'borrow', 'as_ref', 'as_slice') \
                    and a[0] == 'addr':
                inner = self.load(a[1], None) if a[1][0] == 'loc' else a[1][1]
                if last in ('clone', 'to_string', 'to_owned', 'to_vec'):
                    return done(self.strip_addr(inner))
                return done(self.strip_addr(inner) if inner[0] == 'what' else a)
            if last in ('to_vec', 'clone', 'to_owned') and a[0] != 'what':
                return done(('deref', a))
            return done(a)
        self.unknown.add(n)
        done(('call', n) + tuple(self.resolve(a) for a in args))

    def contents(self, v):
        """The sequence a container, or a reference to one, holds."""
        while v[0] == 'addr':
            v = self.load(v[1], None)
        return v[1] if v[0] == 'deref' else v

    def is_exception(self, v):
        return v[0] == 'field' and v[1][0] == 'variant' and v[1][1] == 'Err' and v[1][2][0] == 'result'

    def strip_addr(self, v):
        return v

    def resolve(self, v):
        """A value without references to locals."""
        if v[0] == 'addr':
            p = v[1]
            if p[0] == 'loc':
                return ('addr', ('place', self.resolve(self.load(p, None))))
            return v
        if v[0] == 'agg':
            return ('agg', v[1], tuple(self.resolve(x) for x in v[2]))
        return v


def show(v):
    if not isinstance(v, tuple):
        return str(v)
    k = v[0]
    if k == 'param':
        return 'parameter %d' % v[1] if isinstance(v[1], int) else v[1]
    if k == 'const':
        return v[1]
    if k == 'deref':
        return '*' + show(v[1])
    if k == 'addr':
        return '&' + show(v[1])
    if k == 'place':
        return show(v[1])
    if k == 'pointee':
        return 'builder' if v[1][0] == 'field' else 'pointee(%s)' % show(v[1])
    if k == 'field':
        return '%s.%s' % (show(v[1]), v[2])
    if k == 'variant':
        return show(v[2])
    if k == 'agg':
        return '%s(%s)' % (v[1], ', '.join(show(x) for x in v[2]))
    if k == 'op':
        return '%s(%s)' % (v[1], ', '.join(show(x) for x in v[2:]))
    if k == 'result':
        return 'result of %s' % v[2]
    return '%s(%s)' % (k, ', '.join(show(x) for x in v[1:]))


if __name__ == '__main__':
    import sys
    br, text, source = mir(sys.argv[1])
    fns = read(text, source)
    for n, f in fns.items():
        if n.startswith(br['mod'] + '::'):
            continue
        E = Eval(fns, br)
        try:
            for known, ev, v in E.run(f, [('param', f.names.get(p, p)) for p, _ in f.params]):
                print(n, '|', {show(k): x for k, x in known.items()}, '|',
                      ['%s(%s)' % (e[1], ', '.join(show(a) for a in e[2])) if e[0] == 'ffi' else e for e in ev],
                      '|', show(v))
        except Unsupported as e:
            print(n, 'UNSUPPORTED', e)
