#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and the registry."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import registry  # noqa: E402

B = 'src/path/SwervePathBuilder.cpp'
BH = 'include/trajopt/path/SwervePathBuilder.hpp'
G = 'src/SwerveTrajectoryGenerator.cpp'
GH = 'include/trajopt/SwerveTrajectoryGenerator.hpp'
CD = 'include/trajopt/constraint/'
GEO = 'include/trajopt/geometry/'
UT = 'include/trajopt/util/TrajoptUtil.hpp'
LG = 'include/trajopt/util/GenerateLinearInitialGuess.hpp'
FF = 'src/RustFFI.cpp'
RS = 'src/lib.rs'
TR = 'include/trajopt/trajectory/HolonomicTrajectory.hpp'
CA = 'src/util/Cancellation.cpp'

P = []


def prop(id, title, statement, over, q, why, files, mech, claim=True, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, na=na))


prop('C01', 'Waypoint and segment constraints land exactly where they were asked for',
     'A constraint put on waypoint i becomes a waypoint constraint of waypoint i and of nothing else. A constraint put on the '
     'segments from waypoint i to waypoint j becomes a waypoint constraint of every waypoint i..j and a continuous constraint '
     'of exactly the segments ending at waypoints i+1..j. Constraints already present stay, in order, and pose and translation '
     'waypoints are the corresponding equality constraints on their waypoint.',
     ['inputs', 'histories'], 'every builder state, every index pair i < j, every constraint',
     'the tests build a handful of fixed paths; placement must hold after any sequence of builder calls and for all indices',
     [B, BH], [('WptConstraint, SgmtConstraint', BH), ('PoseWpt, TranslationWpt', B)])
prop('C02', 'Waypoints, control interval counts and guesses grow in lock step',
     'Naming a waypoint that does not exist yet creates it and all before it; each new waypoint except the very first adds one '
     'segment of 40 control intervals, and each adds one guess list. Existing waypoints, counts, guesses, the drivetrain and the '
     'callbacks are untouched by operations that are not about them. Setting control interval counts replaces exactly the counts.',
     ['inputs', 'histories'], 'every builder state with as many guess lists as waypoints, every operation, every index',
     'an invariant over all call histories; the tests check a few short ones',
     [B, BH], [('NewWpts', B), ('ControlIntervalCounts, SetDrivetrain, AddIntermediateCallback', B)])
prop('C03', 'Initial guess points are kept in order around their waypoint',
     'A waypoint guess replaces the last guess point of its waypoint; segment guess points go, in the order given, in front of '
     'the guess points of the waypoint that ends the segment. Pose and translation waypoints also set the waypoint guess to their '
     'position and heading (heading 0 when none is given). No other operation changes existing guess points.',
     ['inputs', 'histories'], 'every builder state, every index, every pose and every list of poses',
     'the test suite has one fixed guess; order and position must hold for all lists and histories',
     [B], [('WptInitialGuessPoint, SgmtInitialGuessPoints', B)])
prop('C04', 'Obstacles separate every robot feature from every obstacle feature',
     'An obstacle put on waypoints or segments keeps, for every registered set of bumpers, every bumper edge away from every '
     'obstacle corner and every bumper corner away from every obstacle edge, by the sum of the two safety distances. Shapes of '
     'three or more corners are closed polygons, two corners are a line, one corner is a point.',
     ['inputs', 'programs'], 'every number of bumpers, every corner count of bumpers and obstacle, every coordinate',
     'ObstacleTest uses two shapes; which pairs are covered depends on corner counts and on the number of bumpers',
     [B], [('WptObstacle, SgmtObstacle', B)])
prop('C05', 'Obstacle constraints enforce the true distance between the two features',
     'Point-point, line-point and point-line constraints hand the solver exactly: the distance between the robot feature, moved '
     'to the field by the pose, and the field feature is at least the minimum distance. Line features are segments, not '
     'infinite lines.',
     ['inputs'], 'every pose, every feature and every minimum distance',
     'the tests never evaluate these constraints; the relation must be right for every pose the solver may visit',
     [CD + 'PointPointConstraint.hpp', CD + 'LinePointConstraint.hpp', CD + 'PointLineConstraint.hpp',
      CD + 'detail/LinePointDistance.hpp'],
     [('Apply', CD + 'PointPointConstraint.hpp'), ('LinePointDistance', CD + 'detail/LinePointDistance.hpp')])
prop('C06', 'Magnitude limits bound the magnitude of the quantity they name',
     'A maximum linear velocity, linear acceleration or angular velocity m bounds the magnitude of exactly that quantity by m '
     'in every direction. A limit of zero pins the quantity to zero.',
     ['inputs'], 'every limit, every state',
     'no test inspects the relations the constraints produce',
     [CD + 'LinearVelocityMaxMagnitudeConstraint.hpp', CD + 'LinearAccelerationMaxMagnitudeConstraint.hpp',
      CD + 'AngularVelocityMaxMagnitudeConstraint.hpp'],
     [('Apply', CD + 'LinearVelocityMaxMagnitudeConstraint.hpp')])
prop('C07', 'Pose, heading-target and direction constraints mean what they say',
     'A pose constraint fixes position and heading, a translation constraint fixes the position only. A point-at constraint keeps '
     'the angle between the heading and the line to the target within the tolerance, and a velocity direction constraint makes '
     'the velocity parallel to the given angle.',
     ['inputs'], 'every target, angle and tolerance, every state',
     'the relations are only ever seen by the solver; no test evaluates them',
     [CD + 'PoseEqualityConstraint.hpp', CD + 'TranslationEqualityConstraint.hpp', CD + 'PointAtConstraint.hpp',
      CD + 'LinearVelocityDirectionConstraint.hpp'], [('Apply', CD + 'PointAtConstraint.hpp')])
prop('C08', 'Translations obey plane vector algebra for constants and variables alike',
     'Sums, differences, negation, scaling, dot and cross products, norms, distance, angle, rotation and polar construction of '
     'translations have their textbook values for every mix of constant and autodiff operands. An equation between translations '
     'given to the solver is the equation of both components.',
     ['inputs'], 'every coordinate, every combination of double and autodiff operands',
     'the geometry tests use a few doubles and no autodiff operands at all',
     [GEO + 'Translation2.hpp'], [('Translation2', GEO + 'Translation2.hpp')])
prop('C09', 'Rotations compose like angles and poses rotate both of their parts',
     'Rotations add, subtract, negate and convert like the angles they stand for, keep cosine and sine in their places, and poses '
     'rotate position and heading together, for constant and autodiff operands alike. An equation between rotations or poses given '
     'to the solver makes headings parallel and every variable heading a unit vector.',
     ['inputs'], 'every angle and coordinate, every combination of double and autodiff operands',
     'the tests compare a few fixed angles and never use autodiff operands',
     [GEO + 'Rotation2.hpp', GEO + 'Pose2.hpp'], [('Rotation2', GEO + 'Rotation2.hpp'), ('Pose2', GEO + 'Pose2.hpp')])
prop('C10', 'Samples are numbered without gaps or overlaps',
     'Sample k of waypoint w is number k for the first waypoint, and otherwise 1 + k + the number of control intervals of all '
     'segments before the one that ends at w.',
     ['inputs'], 'every list of control interval counts, every waypoint up to one past the last, every sample',
     'one test with one list of counts',
     [UT], [('GetIndex', UT)])
prop('C11', 'Interpolations take equal steps and end exactly on their target',
     'Interpolating n samples from a to b yields n values in equal steps, without a and ending at b. The angular version does the '
     'same along the shorter way round, whatever the number of turns between the two angles.',
     ['inputs'], 'every pair of values, every sample count',
     'two fixed ranges are tested; angles several turns apart are not',
     [UT], [('Linspace, AngleLinspace', UT)])
prop('C12', 'The linear initial guess visits all guess points in order',
     'The initial guess has one sample per control interval plus the first. Over each segment it walks in equal steps, along '
     'straight lines and the shorter turn, from each guess point to the next and reaches the waypoint at the last sample of the '
     'segment; time is spread evenly over all samples.',
     ['inputs'], 'every list of non-empty guess point lists, every list of control interval counts of matching length',
     'one test with one list of points; rounding of sample counts depends on every combination of lengths',
     [LG], [('GenerateLinearInitialGuess', LG)])


NA = []


def na(id, title, statement, over, q, why, files, mech, reason):
    prop(id, title, statement, over, q, why, files, mech)
    NA.append({'property': id, 'reason': reason})


exec(open(os.path.join(HERE, 'tools', 'meta_more.py')).read())

TECH = registry.TECHNIQUE
NOTE = registry.NOTE
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        st = p['statement']
        assert len(p['title']) <= 80, p['title']
        assert st.count('. ') <= 2, (p['id'], st)
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': st,
                            'quantifier': {'over': p['over'], 'text': p['q']},
                            'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'],
                                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
nas = {n['property'] for n in NA}
ids = [p['id'] for p in P]
for p in P:
    assert (p['id'] in registry.PROPS) != (p['id'] in nas), p['id']
assert set(registry.PROPS) <= set(ids), set(registry.PROPS) - set(ids)
man = {'version': 1,
       'setup_cmd': 'bash frontend/build.sh build/tjx',
       'checks': [{'property': i,
                   'quick_cmd': 'python3 check.py %s' % i,
                   'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % i,
                   'technique': TECH.get(i, TECH['*']),
                   'level': 'other',
                   'level_note': NOTE.get(i, NOTE['*'])} for i in ids if i in registry.PROPS],
       'not_applicable': NA,
       'notes': 'No hooks: the analysis reads /repo as it is. tools/meta.py writes this file and properties.jsonl.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(man['checks']), 'checks')
