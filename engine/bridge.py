"""Reader for the #[cxx::bridge] module of src/lib.rs.

Produces the C++ declarations that cxx would generate from it (the shared
structs) and a table of the functions the bridge imports, so that the C++ side
can be type-checked against the Rust side.
"""
import re

TOK = re.compile(r'''
    (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
  | (?P<str>"(?:\\.|[^"\\])*")
  | (?P<life>'[A-Za-z_]\w*(?!'))
  | (?P<chr>'(?:\\.|[^'\\])')
  | (?P<id>[A-Za-z_]\w*)
  | (?P<num>\d[\w.]*)
  | (?P<op>::|->|=>|\#!?\[|[^\sA-Za-z_0-9])
''', re.X | re.S)


class BridgeError(Exception):
    pass


def tokenize(src):
    out = []
    i = 0
    line = 1
    while i < len(src):
        m = TOK.match(src, i)
        if not m:
            raise BridgeError('cannot tokenise lib.rs at line %d' % line)
        if m.lastgroup != 'ws':
            out.append((m.group(), m.lastgroup, line, i))
        line += m.group().count('\n')
        i = m.end()
    return out


def skip_attr(t, i):
    """t[i] is '#[' or '#![': return index after the closing bracket."""
    d = 1
    i += 1
    while d:
        if t[i][0] in ('[', '#[', '#!['):
            d += 1
        elif t[i][0] == ']':
            d -= 1
        i += 1
    return i


def match_close(t, i):
    op = t[i][0]
    cl = {'{': '}', '(': ')', '[': ']', '<': '>'}[op]
    d = 0
    while True:
        if t[i][0] == op:
            d += 1
        elif t[i][0] == cl:
            d -= 1
            if d == 0:
                return i
        i += 1


def parse_type(t, i):
    """Returns (type, next) with type a nested tuple."""
    x = t[i][0]
    if x == '&':
        i += 1
        if t[i][1] == 'life':
            i += 1
        mut = False
        if t[i][0] == 'mut':
            mut = True
            i += 1
        ty, i = parse_type(t, i)
        return ('&mut' if mut else '&', ty), i
    if x == '[':
        ty, i = parse_type(t, i + 1)
        if t[i][0] == ';':
            n = t[i + 1][0]
            return ('array', ty, n), i + 3
        return ('slice', ty), i + 1
    if x == '(':
        tys = []
        i += 1
        while t[i][0] != ')':
            ty, i = parse_type(t, i)
            tys.append(ty)
            if t[i][0] == ',':
                i += 1
        return ('tuple',) + tuple(tys), i + 1
    if x == 'fn' or (x == 'unsafe' and t[i + 1][0] == 'fn'):
        i += 1 if x == 'fn' else 2
        assert t[i][0] == '('
        i += 1
        ps = []
        while t[i][0] != ')':
            if t[i][1] == 'id' and t[i + 1][0] == ':':
                i += 2
            ty, i = parse_type(t, i)
            ps.append(ty)
            if t[i][0] == ',':
                i += 1
        i += 1
        ret = None
        if t[i][0] == '->':
            ret, i = parse_type(t, i + 1)
        return ('fn', tuple(ps), ret), i
    # path
    name = t[i][0]
    i += 1
    while t[i][0] == '::':
        name = t[i + 1][0]
        i += 2
    args = []
    if t[i][0] == '<':
        i += 1
        while t[i][0] != '>':
            if t[i][1] == 'life':
                i += 1
            else:
                ty, i = parse_type(t, i)
                args.append(ty)
            if t[i][0] == ',':
                i += 1
        i += 1
    return (name,) + tuple(args), i


def parse(path):
    src = open(path).read()
    t = tokenize(src)
    n = len(t)
    i = 0
    start = None
    ns = ''
    while i < n:
        if t[i][0] == '#[':
            j = skip_attr(t, i)
            txt = ''.join(x[0] for x in t[i:j])
            if txt.startswith('#[cxx::bridge'):
                m = re.search(r'namespace="?([\w:]+)"?', txt)
                ns = m.group(1) if m else ''
                k = j
                while t[k][0] != '{':
                    if t[k][0] == 'mod':
                        modname = t[k + 1][0]
                    k += 1
                start = k
                attr_pos = t[i][3]
                break
            i = j
        else:
            i += 1
    if start is None:
        raise BridgeError('no #[cxx::bridge] module in lib.rs')
    end = match_close(t, start)
    structs = {}
    funcs = []
    types = []
    includes = []
    attributes = {}             # struct -> (tokens of its attributes, {field: tokens of its attributes})
    pending = []
    i = start + 1
    while i < end:
        x = t[i][0]
        if x == '#[':
            j = skip_attr(t, i)
            pending.append([z[0] for z in t[i + 1:j - 1]])
            i = j
        elif x == 'pub' and t[i + 1][0] == 'struct':
            i += 1
        elif x == 'struct':
            name = t[i + 1][0]
            line = t[i][2]
            j = i + 2
            while t[j][0] != '{':
                j += 1
            e = match_close(t, j)
            fs = []
            own = []
            attributes[name] = (pending, {})
            pending = []
            k = j + 1
            while k < e:
                if t[k][0] == '#[':
                    k2 = skip_attr(t, k)
                    own.append([z[0] for z in t[k + 1:k2 - 1]])
                    k = k2
                    continue
                if t[k][0] == 'pub':
                    k = match_close(t, k + 1) + 1 if t[k + 1][0] == '(' else k + 1
                    continue
                attributes[name][1][t[k][0]] = own
                own = []
                fn = t[k][0]
                assert t[k + 1][0] == ':'
                ty, k = parse_type(t, k + 2)
                fs.append((fn, ty))
                if t[k][0] == ',':
                    k += 1
            structs[name] = (fs, line)
            i = e + 1
        elif x == 'extern' or x == 'unsafe':
            j = i
            lang = None
            while t[j][0] != '{':
                if t[j][1] == 'str':
                    lang = t[j][0].strip('"')
                j += 1
            e = match_close(t, j)
            k = j + 1
            attrs = ''
            while k < e:
                y = t[k][0]
                if y == '#[':
                    k2 = skip_attr(t, k)
                    attrs += ''.join(z[0] for z in t[k:k2])
                    k = k2
                elif y == 'include':
                    while t[k][1] != 'str':
                        k += 1
                    includes.append(t[k][0].strip('"'))
                    k += 2
                    if t[k][0] == ';':
                        k += 1
                elif y == 'type':
                    types.append((t[k + 1][0], lang))
                    while t[k][0] != ';':
                        k += 1
                    k += 1
                elif y in ('pub', 'unsafe'):
                    k += 1
                elif y == 'fn':
                    name = t[k + 1][0]
                    line = t[k][2]
                    k += 2
                    if t[k][0] == '<':
                        k = match_close(t, k) + 1
                    assert t[k][0] == '('
                    k += 1
                    ps = []
                    selfty = None
                    while t[k][0] != ')':
                        if t[k][0] == 'self' and t[k + 1][0] == ':':
                            selfty, k = parse_type(t, k + 2)
                        elif t[k][0] == '&' and 'self' in (t[k + 1][0], t[k + 2][0]):
                            mut = t[k + 1][0] == 'mut'
                            k += 3 if mut else 2
                            selfty = ('&mut' if mut else '&', ('Self',))
                        else:
                            if t[k][0] == 'mut':
                                k += 1
                            pn = t[k][0]
                            ty, k = parse_type(t, k + 2)
                            ps.append((pn, ty))
                        if t[k][0] == ',':
                            k += 1
                    k += 1
                    ret = None
                    if t[k][0] == '->':
                        ret, k = parse_type(t, k + 1)
                    assert t[k][0] == ';'
                    k += 1
                    m = re.search(r'cxx_name="?(\w+)"?', attrs)
                    r = re.search(r'rust_name="?(\w+)"?', attrs)
                    funcs.append(dict(name=r.group(1) if r else name, cxx=m.group(1) if m else name, self=selfty,
                                      params=ps, ret=ret, line=line, lang=lang))
                    attrs = ''
                else:
                    k += 1
            i = e + 1
        else:
            pending = []
            i += 1
    # resolve a bare `Self`
    cpptypes = [a for a, l in types if l == 'C++']
    for f in funcs:
        if f['self'] and f['self'][-1] == ('Self',):
            f['self'] = (f['self'][0], (cpptypes[0],))
    return dict(ns=ns, structs=structs, attributes=attributes, funcs=funcs, types=types, includes=includes,
                span=(attr_pos, t[end][3] + 1), mod=modname)


PRIM = {'f64': 'double', 'f32': 'float', 'bool': 'bool', 'usize': '::std::size_t',
        'isize': '::rust::isize', 'i8': '::std::int8_t', 'i16': '::std::int16_t',
        'i32': '::std::int32_t', 'i64': '::std::int64_t', 'u8': '::std::uint8_t',
        'u16': '::std::uint16_t', 'u32': '::std::uint32_t', 'u64': '::std::uint64_t',
        'String': '::rust::String', 'CxxString': '::std::string'}


def cpp(ty, ns):
    """The C++ type cxx maps a Rust type to, in value position."""
    if ty is None or ty == ('tuple',):
        return 'void'
    h = ty[0]
    if h == '&':
        if ty[1] == ('str',):
            return '::rust::Str'
        if ty[1][0] == 'slice':
            return '::rust::Slice<%s const>' % cpp(ty[1][1], ns)
        return '%s const &' % cpp(ty[1], ns)
    if h == '&mut':
        if ty[1][0] == 'slice':
            return '::rust::Slice<%s>' % cpp(ty[1][1], ns)
        return '%s &' % cpp(ty[1], ns)
    if h == 'Pin':
        return cpp(ty[1], ns)
    if h == 'Result':
        return cpp(ty[1] if len(ty) > 1 else None, ns)
    if h == 'Vec':
        return '::rust::Vec<%s>' % cpp(ty[1], ns)
    if h == 'Box':
        return '::rust::Box<%s>' % cpp(ty[1], ns)
    if h == 'UniquePtr':
        return '::std::unique_ptr<%s>' % cpp(ty[1], ns)
    if h == 'SharedPtr':
        return '::std::shared_ptr<%s>' % cpp(ty[1], ns)
    if h == 'CxxVector':
        return '::std::vector<%s>' % cpp(ty[1], ns)
    if h == 'fn':
        return '::rust::Fn<%s(%s)>' % (cpp(ty[2], ns), ', '.join(cpp(p, ns) for p in ty[1]))
    if h == 'array':
        return '::std::array<%s, %s>' % (cpp(ty[1], ns), ty[2])
    if h in PRIM:
        return PRIM[h]
    return '::%s::%s' % (ns, h)


def header(br):
    """The declarations of the generated lib.rs.h that the C++ sources use."""
    ns = br['ns']
    o = ['#pragma once', '#include <cstddef>', '#include <cstdint>', '#include <memory>',
         '#include <array>', '#include <string>', '#include <rust/cxx.h>']
    for inc in br['includes']:
        o.append('#include "%s"' % inc)
    o.append('namespace %s {' % ns)
    for s in br['structs']:
        o.append('struct %s;' % s)
    # order by dependency
    done = set()

    def deps(ty):
        r = set()
        if isinstance(ty, tuple):
            for x in ty:
                if isinstance(x, str):
                    if x in br['structs']:
                        r.add(x)
                elif isinstance(x, tuple):
                    r |= deps(x)
        return r

    def emit(s):
        if s in done:
            return
        done.add(s)
        fs, _ = br['structs'][s]
        for _, ty in fs:
            for d in deps(ty):
                emit(d)
        o.append('struct %s final {' % s)
        for n, ty in fs:
            o.append('  %s %s;' % (cpp(ty, ns), n))
        o.append('};')

    for s in br['structs']:
        emit(s)
    o.append('}')
    return '\n'.join(o) + '\n'


def witnesses(br):
    """[(bridge function, C++ declaration)]: the conversion to a function pointer
    of the type cxx calls it through, which only type-checks when both halves agree."""
    ns = br['ns']
    out = []
    for k, f in enumerate(br['funcs']):
        if f['lang'] != 'C++':
            continue
        ret = cpp(f['ret'], ns)
        ps = ', '.join(cpp(p, ns) for _, p in f['params'])
        if f['self']:
            st = f['self']
            if st[0] == 'Pin':
                st = st[1]
            cst = ' const' if st[0] == '&' else ''
            cls = cpp(st[1], ns)
            text = '%s (%s::*witness_%d)(%s)%s = &%s::%s;' % (ret, cls, k, ps, cst, cls, f['cxx'])
        else:
            text = '%s (*witness_%d)(%s) = &::%s::%s;' % (ret, k, ps, ns, f['cxx'])
        if f['ret'] and f['ret'][0] == 'Result':
            # an exception has to be able to leave the function
            text += ' template <class F> struct throws_%d;' % k
            if f['self']:
                text += (' template <class R, class C, class... A> struct throws_%d<R (C::*)(A...)%s noexcept>;'
                         ' template <class R, class C, class... A> struct throws_%d<R (C::*)(A...)%s> {};' %
                         (k, cst, k, cst))
                text += ' throws_%d<decltype(&%s::%s)> thrower_%d;' % (k, cls, f['cxx'], k)
            else:
                text += (' template <class R, class... A> struct throws_%d<R (*)(A...) noexcept>;'
                         ' template <class R, class... A> struct throws_%d<R (*)(A...)> {};' % (k, k))
                text += ' throws_%d<decltype(&::%s::%s)> thrower_%d;' % (k, ns, f['cxx'], k)
        out.append((f, text))
    return out


if __name__ == '__main__':
    import sys
    b = parse(sys.argv[1])
    print(header(b))
    print(*witnesses(b), sep='\n')
