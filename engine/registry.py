"""Which specification units decide which property, and how each is compared."""
from fractions import Fraction

import modular
import terms
import rules
import rustrules
import lifetimes
from verify import Case


class Unit:
    """One specification unit. promise: that it compiles is part of the property.
    prefix: only the functions whose names start with it belong to the property."""

    def __init__(self, name, cases=None, promise=False, default=None, only=None):
        self.name = name
        self.cases = cases or {}
        self.promise = promise
        self.default = default or (lambda P, n: Case(n))
        self.only = only


class Prop:
    def __init__(self, *units, rules=(), level='other', post=None, tolerant=None, checked=False,
                 positive=()):
        self.units = units
        self.post = post
        self.checked = checked        # with assertions
        self.positive = positive      # fields documented as non-negative
        self.rules = rules
        self.level = level
        self.tolerant = tolerant      # turns a translation unit that does not type-check into an outcome


def builder(**kw):
    return lambda P, n: Case(n, opaque=dict(modular.GUESS), **kw)


def corners(M, path):
    return M.rnd('corners', path).choice([1, 1, 2, 3, 3, 4, 5]) if path and path[-1] == 'points' else None


def obstacle(P, n):
    if n.startswith('sized_'):
        return Case(n, unordered=('waypointConstraints', 'segmentConstraints'),
                    flen=lambda M, path: 6)
    op = {'trajopt::SwervePathBuilder::WptConstraint': modular.record('wpt'),
          'trajopt::SwervePathBuilder::SgmtConstraint': modular.record('sgmt')}
    return Case(n, opaque=op, events=('wpt', 'sgmt'), views=(), flen=corners, floor=inhabited)


def accepted(P, n):
    op = dict(modular.GUESS)
    if 'obstacle' in n or n in ('f_circle', 'f_polygon'):
        op['trajopt::SwervePathBuilder::WptConstraint'] = modular.record('wpt')
        op['trajopt::SwervePathBuilder::SgmtConstraint'] = modular.record('sgmt')
    op['spec::inner'] = modular.inner
    return Case(n, opaque=op, events=('abort',), views=())


def inside(P, n):
    op = dict(modular.GUESS)
    op['spec::inner'] = modular.inner
    kw = {}
    if 'obstacle' in n or n in ('f_circle', 'f_polygon'):
        op['trajopt::SwervePathBuilder::WptConstraint'] = modular.record('wpt')
        op['trajopt::SwervePathBuilder::SgmtConstraint'] = modular.record('sgmt')
    if n in ('constructing', 'generating', 'f_generate'):
        op['*::Apply'] = modular.apply_handler(modular.constraint_alts(P))
        op['*::CalculateInitialGuess'] = modular.opaque_value('guess')
        kw = dict(maxlen=2, fix=counted, flen=sizes)
    elif n == 'guessing':
        kw = dict(maxlen=3, flen=nonempty)
    else:
        kw = dict(flen=shaped)
    return Case(n, opaque=op, events=('outside',), views=(), bounds=True, floor=inhabited, **kw)


def inhabited(a):
    """The same for lengths in terms: lists of guess points (C03) and outlines."""
    if a.op != 'len' or a.args[0].op != 'obj':
        return None
    o = a.args[0]
    if o.args[0] == 'get' and o.args[1].op == 'obj' and o.args[1].args[0] == 'fld' and \
            'initialGuessPoints' in o.args[1].args:
        return 1
    return 1 if o.args[0] == 'fld' and 'points' in o.args else None


def shaped(M, path):
    """Nor are outlines of bumpers and obstacles."""
    return corners(M, path) or nonempty(M, path)


def nonempty(M, path):
    """Inner lists (of guess points) are never empty: C03 keeps it so."""
    if path and isinstance(path[-1], (int, Fraction)):
        return M.rnd('inner', path).choice([1, 1, 2, 2, 3, 4])


def filled(a):
    """The same for lengths in terms."""
    return 1 if a.op == 'len' and a.args[0].op == 'obj' and a.args[0].args[0] == 'get' else None


def obstacle_post(R):
    """Obstacles need not be built from the single-constraint operations: when they
    are not, the unrolled shapes decide."""
    sized = [o for o in R.outcomes if o.case.startswith('sized_')]
    if sized and not any(o.status == 'violation' for o in sized):
        for o in R.outcomes:
            # (in the shapes that are unrolled: a difference that only larger ones show is one)
            if o.status == 'violation' and not o.case.startswith('sized_') and getattr(o, 'after', 0) < 20:
                o.status = 'undecided'
                o.detail = 'not built from single constraints (%s)' % o.detail


def ffi(P, n):
    op = dict(modular.GUESS)
    op['*::Apply'] = modular.apply_handler(modular.constraint_alts(P))
    op['*::CalculateInitialGuess'] = modular.opaque_value('guess')
    op['spec::inner'] = modular.inner
    if n.startswith('set_bumpers'):
        return Case(n, opaque=op, unordered=('waypointConstraints', 'segmentConstraints'))
    if n.endswith('obstacle'):
        op['trajopt::SwervePathBuilder::SgmtObstacle'] = modular.record('obstacle')
        op['trajopt::SwervePathBuilder::WptObstacle'] = modular.record('wpt obstacle')
    if n in ('constructing', 'generating'):
        return Case(n, opaque=op, events=(), maxlen=2, fix=counted, flen=sizes)
    if n == 'keeps':
        return Case(n, opaque=op, events=('subject', 'minimize', 'apply', 'solve'), views=(), maxlen=2, fix=counted, flen=sizes)
    if n in ('generate', 'progress'):
        return Case(n, opaque=op, events=('solve', 'call'), order=True, maxlen=2, fix=counted, flen=sizes)
    return Case(n, opaque=op)


def sizes(M, path):
    """Paths of several segments, drivetrains of several modules."""
    if path and path[-1] == 'waypoints':
        return M.rnd('path', path).choice([1, 2, 3, 3, 4, 4, 5])
    if path and path[-1] == 'modules':
        return M.rnd('modules', path).choice([0, 1, 2, 2, 3, 4])


COLUMNS = ('dt', 'x', 'y', 'thetacos', 'thetasin', 'vx', 'vy', 'omega', 'ax', 'ay', 'alpha', 'moduleFX', 'moduleFY')


def gen(views=(), mode='missing', events=('subject', 'minimize', 'apply'), **kw):
    def f(P, n):
        op = dict(modular.GUESS)
        op['*::Apply'] = modular.apply_handler(modular.constraint_alts(P))
        op['*::CalculateInitialGuess'] = modular.opaque_value('guess')
        return Case(n, opaque=op, roles=columns, views=views, mode=mode, events=events, fix=counted,
                    maxlen=2, flen=sizes, **kw)
    return f


def ordered(P, n):
    c = gen(mode='extra' if n == 'nothing_else' else 'missing')(P, n)
    c.opaque['sleipnir::OptimizationProblem::Solve'] = modular.solved
    c.seeds = 0.4
    return c


def start(P, n):
    """The values all variables have when the solver starts."""
    op = dict(modular.GUESS)
    op['*::Apply'] = modular.apply_handler(modular.constraint_alts(P))
    op['*::CalculateInitialGuess'] = modular.even_guess
    op['sleipnir::OptimizationProblem::Solve'] = modular.no_solve
    op['sleipnir::OptimizationProblem::SubjectTo'] = modular.nothing
    return Case(n, opaque=op, fix=counted, maxlen=2, events=(),
                flen=lambda M, path: 40 if path and path[0] == 'guess' else sizes(M, path),
                views=[('start value of %s' % c, lambda S, c=c: modular.unset_is_zero(columns(S)[c]))
                       for c in COLUMNS])


def counted(M, path, kind):
    """Every segment has control intervals."""
    if kind == 'nat' and path and isinstance(path[-1], (int, Fraction)) and len(path) > 1 \
            and path[-2] == 'controlIntervalCounts':
        return Fraction(M.rnd('count', path).choice([1, 1, 2, 3]))


def columns(S):
    return solution(S.v) if S.v is not None else {}


def defined(v):
    """v without the branches on which it does not exist."""
    while v.op == 'ite':
        a, b = defined(v.args[1]), defined(v.args[2])
        if b.op == 'obj' and '?undef' in b.args:
            v = a
        elif a.op == 'obj' and '?undef' in a.args:
            v = b
        else:
            return v if a is v.args[1] and b is v.args[2] else terms.ite(v.args[0], a, b)
    return v


def solution(v):
    """{column: term} of the solution in a result, whichever branch holds it."""
    v = defined(v)
    if v.op == 'ite':
        return solution(v.args[1]) or solution(v.args[2])
    if v.op != 'rec':
        return {}
    for n in ('solution', 'val'):
        if n in v.args[1]:
            return solution(v.args[2 + v.args[1].index(n)])
    return {n: present(x) for n, x in zip(v.args[1], v.args[2:])}


def present(v):
    """What a column holds when it is not empty."""
    while True:
        v = defined(v)
        if v.op == 'seq' and len(v.args) == 1 and v.args[0].op == 'if':
            v = v.args[0].args[1]
        elif v.op == 'seq' and len(v.args) == 1 and v.args[0].op == 'sub':
            v = v.args[0].args[0]
        elif v.op == 'ite' and terms.EMPTY in v.args[1:]:
            v = v.args[2] if v.args[1] is terms.EMPTY else v.args[1]
        else:
            return v


PROPS = {
    'C01': Prop(Unit('C01', default=builder())),
    'C02': Prop(Unit('C02', default=builder())),
    'C03': Prop(Unit('C03', default=builder())),
    'C04': Prop(Unit('C04', default=obstacle), post=obstacle_post),
    'C05': Prop(Unit('C05')),
    'C06': Prop(Unit('C06')),
    'C07': Prop(Unit('C07')),
    'C08': Prop(Unit('C08'), Unit('C08_coerce', promise=True)),
    'C09': Prop(Unit('C09'), Unit('C09_coerce', promise=True)),
    'C10': Prop(Unit('C10')),
    'C11': Prop(Unit('C11')),
    'C12': Prop(Unit('C12', default=builder(maxlen=4, flen=nonempty, floor=filled))),
    'C13': Prop(Unit('C13', default=gen())),
    'C14': Prop(Unit('C14', default=gen())),
    'C15': Prop(Unit('C15', default=gen())),
    'C16': Prop(Unit('C16', default=gen())),
    'C17': Prop(Unit('C17', default=gen())),
    'C18': Prop(Unit('C18', default=gen(mode='extra'))),
    'C19': Prop(Unit('C19', default=start)),
    'C20': Prop(Unit('C20', default=gen(views=None, mode='missing', events=('subject', 'apply', 'solve')),
                     cases={'solves': lambda P: gen(mode='both', order=True, events=('solve',))(P, 'solves'),
                            'second': lambda P: gen(views=None, mode='both', order=True, events=('solve',))(P, 'second')})),
    'C21': Prop(Unit('C21', default=gen(mode='both', order=True, events=('astore', 'armw', 'solve', 'iter', 'poll'))),
                rules=(rules.one_flag,)),
    'C22': Prop(Unit('C22', default=gen(mode='both', order=True, events=('iter', 'call')))),
    'C23': Prop(Unit('C23', default=ffi), rules=(rules.no_shared_state,)),
    'C24': Prop(Unit('C24', default=ffi)),
    'C25': Prop(Unit('C25', default=ffi)),
    'C28': Prop(Unit('C28', default=accepted), checked=True, positive=('safetyDistance',)),
    'C29': Prop(Unit('C29', default=inside)),
    'C30': Prop(Unit('C30', default=ordered)),
    'C31': Prop(rules=(lifetimes.results,)),
    'C26': Prop(rules=(rustrules.forwarding,)),
    'C32': Prop(rules=(rustrules.round_trip,)),
    'C27': Prop(rules=(rustrules.signatures,), tolerant=rustrules.rejected),
}

TECHNIQUE = {
    '*': 'value-flow and effect-summary analysis over the type-checked AST, compared in canonical form with a reference summary',
    'C23': 'effect summaries compared with a reference in canonical form, lifetime analysis of captured objects, and a '
           'whole-program query for objects of static storage duration and mutable members',
    'C26': 'path-by-path value-flow summaries over the MIR rustc produces for the bindings, checked for exact forwarding',
    'C31': 'typestate analysis of payload lifetimes along every path (exceptional ones included), over the type-checked AST; '
           'type traits as compile-time witnesses',
    'C32': 'analysis of the derive attributes of every shared type: names written against names read, field by field',
    'C27': 'type-level witnesses: one function-pointer conversion per imported function, accepted or rejected by the compiler',
}
NOTE = {
    '*': 'An obligation counted as discharged holds for all inputs, over real arithmetic, given the models of the standard '
         'library and of Sleipnir. One counted as agreeing_in_value_only has a summary of a different form that was equal to '
         'the reference under random interpretations of its symbols: not a proof. Undecided ones are listed and not claimed.',
    'C26': 'Every path of every method is summarised over symbolic arguments; calls into the standard library that have no '
           'model leave an obligation undecided, and it is then not claimed.',
    'C31': 'All paths of each scenario for 18 combinations of payload types; types that differ only in ways no operation of '
           'a result can see (labels, not contents) are covered by these. '
           'Operations that end the program when a payload throws are known findings, listed by kind.',
    'C32': 'Types whose serde implementations are written by hand, and attributes that name code, are left undecided.',
    'C27': 'Decided by the compiler for the types cxx maps the Rust declarations to; the mapping is engine/bridge.py.',
}
