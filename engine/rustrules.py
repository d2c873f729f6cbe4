"""Rules about the Rust bindings."""
import itertools
import os
import re
import subprocess
import tempfile

import bridge
import extract
import rustmir
from verify import Outcome

LIB = 'src/lib.rs'

# Rust method -> the C++ function of the binding it stands for
METHODS = ['set_drivetrain', 'set_bumpers', 'set_control_interval_counts', 'pose_wpt', 'translation_wpt', 'empty_wpt',
           'sgmt_initial_guess_points', 'wpt_linear_velocity_direction', 'wpt_linear_velocity_max_magnitude',
           'wpt_angular_velocity_max_magnitude', 'wpt_linear_acceleration_max_magnitude', 'wpt_point_at',
           'sgmt_linear_velocity_direction', 'sgmt_linear_velocity_max_magnitude',
           'sgmt_angular_velocity_max_magnitude', 'sgmt_linear_acceleration_max_magnitude', 'sgmt_point_at',
           'sgmt_circle_obstacle', 'sgmt_polygon_obstacle', 'add_progress_callback', 'generate']
UNIT = ('agg', '()', ())


def forwarding(P, R, tier):
    """Every method of the Rust builder makes exactly the one call it stands for."""
    out = R.outcomes
    R.tus = [os.path.join(extract.REPO, LIB)]
    try:
        br, text, source = rustmir.mir(os.path.join(extract.REPO, LIB))
    except rustmir.RustError as e:
        rejected = re.search(r'error\[E(0308|0061|0599|0560|0063|0609|0382|0499|0502|0505|0507|0277)\]', str(e))
        out.append(Outcome('lib.rs', 'the Rust bindings type-check', 'violation' if rejected else 'undecided',
                           str(e)[:1500], LIB))
        return
    out.append(Outcome('lib.rs', 'the Rust bindings type-check', 'discharged'))
    fns = rustmir.read(text, source)
    cxx = {f['name']: f for f in br['funcs'] if f['lang'] == 'C++'}
    own = {}
    for n, f in fns.items():
        m = re.match(r'^(\w+)::(\w+)$', n)
        if m and m.group(1) != br['mod'] and '{closure' not in n:
            own.setdefault(m.group(1), {})[m.group(2)] = f
    cls = 'SwervePathBuilder'
    meth = own.get(cls, {})
    paths = 0
    seen = set()

    def evaluate(f, label):
        nonlocal paths
        E = rustmir.Eval(fns, br)
        try:
            r = E.run(f, [('param', i) for i in range(len(f.params))])
        except (rustmir.Unsupported, KeyError, IndexError, ValueError, RecursionError) as e:
            out.append(Outcome(label, 'calls its C++ function', 'undecided', repr(e)[:200], LIB))
            return None, None
        if E.unknown:
            out.append(Outcome(label, 'calls its C++ function', 'undecided', 'calls %s' % ', '.join(sorted(E.unknown))[:200],
                               LIB))
            return None, None
        paths += len(r)
        seen.update(E.seen)
        return r, E.panics

    for name in METHODS:
        label = 'SwervePathBuilder::' + name
        f = meth.get(name)
        if f is None:
            out.append(Outcome(label, 'exists', 'violation', 'no such method', LIB))
            continue
        where = '%s:%s' % (LIB, line_of(source, name))
        r, panics = evaluate(f, label)
        if r is None:
            continue
        bad = None
        rest = set()
        for known, events, value in r:
            bad = bad or call_error(br, cxx, f, name, events, known, value)
            rest |= {v for k, v in known.items() if k[0] == 'discr'}
        if name == 'generate' and not bad and rest != {0, 1}:
            bad = 'only one of success and failure is handled'
        if panics:
            bad = bad or 'panics in some cases'
        if not r:
            bad = bad or 'never returns'
        out.append(Outcome(label, 'calls C++ %s once with the same arguments' % name, 'violation' if bad else 'discharged',
                           bad or '', where))
        names = [f.names.get(p, '') for p, _ in f.params][1:]
        order(P, br, name, names, out, label, where)

    for name, want in (('SwervePathBuilder::new', 'swerve_path_builder_new'),
                       ('<SwervePathBuilder as Default>::default', 'swerve_path_builder_new'),
                       ('cancel_all', 'cancel_all')):
        f = fns.get(name)
        if f is None:
            f = next((g for k, g in fns.items() if '{closure' not in k and not k.startswith(br['mod']) and
                      re.sub(r'\w+::(?=\w+(?: as|>|::))', '', k) == name), None)
        if f is None:
            out.append(Outcome(name, 'exists', 'violation', 'no such function', LIB))
            continue
        r, panics = evaluate(f, name)
        if r is None:
            continue
        bad = None
        if panics or not r:
            bad = 'panics in some cases'
        for known, events, value in r:
            ev = [e for e in events if e[0] == 'ffi']
            if len(events) != 1 or len(ev) != 1 or cname(cxx, ev[0][1]) != want or ev[0][2]:
                bad = 'makes the calls: %s' % (calls(cxx, events) or 'none')
            elif want == 'cancel_all':
                continue
            elif not (value[0] == 'agg' and value[1].endswith('SwervePathBuilder') and
                      len(value[2]) == 1 and is_result(value[2][0])):
                bad = 'returns %s' % rustmir.show(value)
        out.append(Outcome(name, 'calls C++ %s once' % want, 'violation' if bad else 'discharged', bad or '', LIB))
    R.explanation = ('Value-flow summaries of the Rust bindings. rustc type-checks src/lib.rs with the bridge module replaced '
                     'by the declarations it stands for and prints its MIR; every function is evaluated over symbolic '
                     'arguments along every path. Calls into the bridge are the effects.')
    R.rule = 'one call of the C++ function of the same name, on the own builder, with the parameters unchanged and in order'
    R.assumptions = ['the models of the Rust standard library in engine/rustmir.py', 'cxx calls the C++ function it names']
    R.functions = sorted('%s (%s)' % (n, LIB) for n, l in seen)
    R.coverage['paths'] = paths
    R.coverage['bridge_functions'] = len(cxx)


def is_result(v):
    return v[0] == 'result'


def cname(cxx, rust):
    return cxx[rust]['cxx'] if rust in cxx else rust


def calls(cxx, events):
    return ', '.join('%s(%s)' % (cname(cxx, e[1]), ', '.join(rustmir.show(a) for a in e[2])) if e[0] == 'ffi'
                     else str(e[0]) for e in events)


def call_error(br, cxx, f, name, events, known, value):
    ev = [e for e in events if e[0] == 'ffi']
    if len(ev) != 1 or len(events) != 1:
        return 'makes the calls: %s' % (calls(cxx, events) or 'none')
    e = ev[0]
    if cname(cxx, e[1]) != name:
        return 'calls %s' % calls(cxx, events)
    want = [('param', i) for i in range(1, len(f.params))]
    got = [plain(a) for a in e[2][1:]]
    if not is_builder(e[2][0]):
        return 'calls it on %s' % rustmir.show(e[2][0])
    if got != want:
        return 'passes %s for the parameters %s' % (
            ', '.join(pname(f, a) for a in got), ', '.join(pname(f, a) for a in want))
    ret = cxx[e[1]]['ret']
    if name == 'generate':
        d = [v for k, v in known.items() if k[0] == 'discr' and is_result(k[1])]
        if value[0] == 'result':
            return None
        if value[0] != 'agg' or len(value[2]) != 1 or len(d) != 1:
            return 'returns %s' % rustmir.show(value)
        s = value[2][0]
        if d[0] == 0:
            ok = value[1] == 'Ok' and payload(s, 'Ok')
            return None if ok else 'returns %s on success' % rustmir.show(value)
        ok = value[1] == 'Err' and s[0] == 'what' and payload(s[1], 'Err')
        return None if ok else 'returns %s on failure' % rustmir.show(value)
    if ret is None and (value == UNIT or is_result(value)):
        return None
    if ret is None:
        return None if value[0] in ('param', 'addr') or value == UNIT else 'returns %s' % rustmir.show(value)
    return None if is_result(value) else 'returns %s' % rustmir.show(value)


def plain(a):
    while a[0] in ('addr',) and a[1][0] == 'place' and a[1][1][0] == 'deref':
        a = a[1][1][1]
    return a


def pname(f, a):
    if a[0] == 'param' and isinstance(a[1], int):
        return f.names.get(f.params[a[1]][0], 'parameter %d' % a[1])
    return rustmir.show(a)


def payload(v, variant):
    """Field 0 of the given variant of the result of the call."""
    return v[0] == 'field' and str(v[2]) == '0' and (
        (v[1][0] == 'variant' and v[1][1] == variant and is_result(v[1][2])) or is_result(v[1]))


def is_builder(v):
    """The C++ object behind the receiver's own pointer."""
    v = plain(v)
    seen_self = False
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x[:1] == ('param',):
                if x[1] != 0:
                    return False
                seen_self = True
                continue
            if x[:1] == ('result',) or x[:1] == ('call',):
                return False
            stack.extend(x)
    return seen_self


def line_of(source, name):
    hit = [i for i, l in enumerate(source.split('\n'), 1) if re.search(r'\bpub\s+fn\s+%s\b' % name, l)]
    return hit[-1] if hit else 0


def order(P, br, name, names, out, label, where):
    """The names of the parameters, where all three declarations use the same ones,
    come in the same order."""
    lists = [('the bridge', [n for n, _ in next(f for f in br['funcs'] if f['cxx'] == name or f['name'] == name)['params']])] \
        if any(f['cxx'] == name or f['name'] == name for f in br['funcs']) else []
    for f in P.by_qn.get('%s::SwervePathBuilder::%s' % (br['ns'], name), []):
        ps = [p.get('n') for p in f.get('params') or []]
        if all(ps):
            lists.append(('C++', ps))
    bad = None
    norm = lambda xs: [x.lower().replace('_', '') for x in xs]
    for who, ps in lists:
        a, b = norm(names), norm(ps)
        if a != b and sorted(a) == sorted(b) and len(set(a)) == len(a):
            bad = 'takes (%s), %s takes (%s)' % (', '.join(names), who, ', '.join(ps))
    out.append(Outcome(label, 'takes its parameters in the order C++ takes them', 'violation' if bad else 'discharged',
                       bad or '', where))


RULES_ALL = {
    'lowercase': lambda n: n.lower(),
    'UPPERCASE': lambda n: n.upper(),
    'PascalCase': lambda n: ''.join(w.capitalize() for w in n.split('_')),
    'camelCase': lambda n: (lambda p: p[:1].lower() + p[1:])(''.join(w.capitalize() for w in n.split('_'))),
    'snake_case': lambda n: n,
    'SCREAMING_SNAKE_CASE': lambda n: n.upper(),
    'kebab-case': lambda n: n.replace('_', '-'),
    'SCREAMING-KEBAB-CASE': lambda n: n.upper().replace('_', '-'),
}


class Unjudged(Exception):
    pass


def metas(attrs):
    """The entries of all #[serde(...)] attributes as (name, text) or (name, {name: text})."""
    out = []
    for a in attrs:
        if a[0] == 'cfg_attr':
            if 'serde' in a or 'derive' in a:
                raise Unjudged('cfg_attr')
            continue
        if a[0] != 'serde' or a[1:2] != ['(']:
            continue
        i = 2
        while i < len(a) - 1:
            n = a[i]
            i += 1
            if i < len(a) and a[i] == '=':
                out.append((n, a[i + 1].strip('"')))
                i += 2
            elif i < len(a) and a[i] == '(':
                d = {}
                i += 1
                while a[i] != ')':
                    if a[i + 1:i + 2] == ['='] and a[i + 2].startswith('"'):
                        d[a[i]] = a[i + 2].strip('"')
                        i += 3
                    else:
                        i += 1
                i += 1
                out.append((n, d))
            else:
                out.append((n, None))
            if i < len(a) and a[i] == ',':
                i += 1
    return out


def both(v):
    """(name written, name read) of a rename"""
    return (v.get('serialize'), v.get('deserialize')) if isinstance(v, dict) else (v, v)


def round_trip(P, R, tier):
    """What serde writes of the shared types is what it reads back."""
    out = R.outcomes
    path = os.path.join(extract.REPO, LIB)
    R.tus = [path]
    R.explanation = ('Attribute-flow over the declarations of the data types the bindings share: which name each field is written '
                     'under, whether it always is, and which field each name is read into, as serde_derive generates it.')
    R.rule = ('both directions are derived; every field is always written, under a name of its own, and read from that name')
    R.assumptions = ['serde_derive generates what its documentation says', 'the format keeps numbers as they are']
    try:
        br = bridge.parse(path)
        source = open(path).read()
    except (bridge.BridgeError, AssertionError, IndexError, OSError) as e:
        out.append(Outcome('lib.rs', 'the bridge can be read', 'undecided', repr(e), LIB))
        return
    n = 0
    for s, (fields, line) in br['structs'].items():
        own, per = br['attributes'][s]
        at = '%s:%d' % (LIB, line)
        n += 1

        def say(label, status, detail=''):
            out.append(Outcome(s, label, status, detail, at))
        try:
            derived = {x for a in own if a[0] == 'derive' for x in a}
            written = []
            for d, w in (('Serialize', 'written'), ('Deserialize', 'read')):
                if d in derived:
                    say('it can be %s' % w, 'discharged')
                elif re.search(r'\bimpl\b[^{;]*\b%s\b[^{;]*\bfor\s+(\w+::)*%s\b' % (d, s), source) or \
                        any(a[0] == 'cfg_attr' for a in own):
                    raise Unjudged('%s is written by hand' % d)
                else:
                    say('it can be %s' % w, 'violation', '%s does not derive %s' % (s, d))
            allw = allr = lambda x: x
            default = False
            for k, v in metas(own):
                if k == 'rename_all':
                    a, b = both(v)
                    if (a and a not in RULES_ALL) or (b and b not in RULES_ALL):
                        raise Unjudged('rename_all = %s' % v)
                    allw = RULES_ALL[a] if a else allw
                    allr = RULES_ALL[b] if b else allr
                elif k == 'default':
                    default = True
                elif k not in ('deny_unknown_fields', 'rename', 'crate', 'bound', 'expecting'):
                    raise Unjudged('serde(%s)' % k)
        except Unjudged as e:
            say('round trip', 'undecided', str(e))
            continue
        names = {}
        reads = {}
        for f, _ in fields:
            bad = None
            unj = None
            w, r, alias = allw(f), allr(f), set()
            try:
                ms = metas(per.get(f) or [])
            except Unjudged as e:
                ms, unj = [], str(e)
            for k, v in ms:
                if k in ('skip', 'skip_serializing'):
                    bad = 'is never written'
                elif k == 'skip_deserializing':
                    bad = 'is never read'
                elif k == 'skip_serializing_if':
                    if not default and not any(m[0] == 'default' for m in ms):
                        bad = 'is not always written, but has to be there when it is read'
                    elif v not in ('Vec::is_empty', 'String::is_empty', 'Option::is_none') or ('default', None) not in ms:
                        unj = 'whether a field left out is the default'
                elif k == 'rename':
                    a, b = both(v)
                    w, r = a or w, b or r
                elif k == 'alias':
                    alias.add(v)
                elif k not in ('default', 'bound', 'borrow'):
                    unj = 'serde(%s)' % k
            if not bad and w != r and w not in alias:
                bad = 'is written as %s and read as %s' % (w, r)
            if not bad and w in names:
                bad = 'is written under the name of %s' % names[w]
            if not bad:
                for x in {r} | alias:
                    if reads.get(x, f) != f:
                        bad = 'is read from the name of %s' % reads[x]
            names.setdefault(w, f)
            for x in {r} | alias:
                reads.setdefault(x, f)
            if bad:
                say('%s comes back' % f, 'violation', '%s::%s %s' % (s, f, bad))
            elif unj:
                say('%s comes back' % f, 'undecided', unj)
            else:
                say('%s comes back' % f, 'discharged')
    for s in re.findall(r'pub\s+use\s+%s::(\w+)\s*;' % br['mod'], source):
        if s not in br['structs'] and s not in [x[0] for x in br['types']]:
            out.append(Outcome(s, 'is declared', 'undecided', 'not a type of the bridge', LIB))
    R.coverage['types_analysed'] = n


def rejected(src, err):
    """A translation unit that does not type-check against the bridge."""
    bad = [l for l in err.splitlines() if ' error: ' in l and 'rsffi::' in l]
    return Outcome(os.path.basename(src), 'the C++ half type-checks against the Rust declarations',
                   'violation' if bad else 'undecided', (bad or [err])[0][:400], src[len(extract.REPO) + 1:])


def signatures(P, R, tier):
    """Every imported function converts to the type cxx calls it through."""
    out = R.outcomes
    br = P.bridge
    if br is None:
        out.append(Outcome('lib.rs', 'the bridge can be read', 'undecided', 'no readable #[cxx::bridge] module', LIB))
        return
    n = 0
    with tempfile.TemporaryDirectory(prefix='tjw.') as d:
        os.makedirs(d + '/trajoptlib/src')
        open(d + '/trajoptlib/src/lib.rs.h', 'w').write(bridge.header(br))
        ws = bridge.witnesses(br)
        args = ['clang++', '-fsyntax-only'] + extract.clang_args(d)
        pre = '#include "RustFFI.hpp"\n#include "trajoptlib/src/lib.rs.h"\n'
        body = ''.join('#line %d "%s"\n%s\n' % (f['line'], LIB, t) for f, t in ws)
        src = d + '/witness.cpp'
        open(src, 'w').write(pre)
        r = subprocess.run(args + [src], capture_output=True, text=True)
        if r.returncode:
            out.append(Outcome('RustFFI.hpp', 'the declarations type-check', 'undecided', r.stderr[:1500], 'src/RustFFI.hpp'))
            return
        open(src, 'w').write(pre + body)
        r = subprocess.run(args + ['-ferror-limit=0', src], capture_output=True, text=True)
        errs = {}
        for m in re.finditer(r'^%s:(\d+):\d+: error: (.*)$' % re.escape(LIB), r.stderr, re.M):
            errs.setdefault(int(m.group(1)), m.group(2))
        if r.returncode and not errs:
            out.append(Outcome('witness', 'signatures', 'undecided', r.stderr[:1000]))
            return
        for f, t in ws:
            n += 1
            e = errs.get(f['line'])
            out.append(Outcome(f['cxx'], 'the Rust declaration has the C++ type', 'violation' if e else 'discharged',
                               e or '', '%s:%d' % (LIB, f['line'])))
    R.coverage['signatures_checked'] = n
    R.explanation = ('Type-level witnesses. For each function the Rust bridge imports, a C++ declaration converts its address '
                     'to the pointer type cxx calls it through; the compiler rejects those that do not agree.')
    R.rule = 'the conversion to the type cxx uses is accepted; functions declared fallible may throw'
    R.assumptions = ['the type mapping of cxx as in engine/bridge.py']
