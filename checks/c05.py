"""Box-plus and box-minus."""
from engine.case import *

PROPERTY = 'C05'
LEVEL = 'model_checking'
BOUNDS = 'every rotation and transform representation; tangent vectors of angle 0 to 8 pi (angle-axis rotations and quaternion transforms: from pi/1000) for box-plus; differences of angle 0 (computed angle-axis and quaternion results: from pi/1000 or 2e-12 pi) to 0.998 pi for box-minus'
OUTSIDE = 'differences between 0.998 pi and pi; tangent vectors longer than 8 pi'
ROTS = ['RM', 'RQ', 'RA']
RTS = ['TM', 'TQ']
BUDGET = 60
CT = {'RM': 'RotationMd', 'RQ': 'RotationQd', 'RA': 'RotationAd', 'TM': 'RigidTransformMd', 'TQ': 'RigidTransformQd'}


def cases(tier):
    out = []
    elog = lambda env: ref.log(env['e'])
    ident = lambda env: Vec([D(x.v) for x in env['p'].v])
    for x in ROTS:
        A = leaf('a', x)
        P = leaf('p', 'Rr', 'polarmid' if x == 'RA' else 'polar')
        out.append(value_case('plus_' + x, A + P, 'R'))
        for y in ROTS:
            # a = e * b with e of bounded angle: a - b = log e
            B = leaf('b', y)
            mid = 'RA' in (x, y)
            En = leaf('e', 'RQ', 'axangbig' if mid else 'axang')
            if x == 'RM':
                # the difference of an expression
                out.append(value_case('minus_eb_' + y, E('((e * b).eval() - b)', elog, En.leaves + B.leaves), 3))
                out.append(value_case('minus_lazy_' + y, E('((e * b) - b)', elog, En.leaves + B.leaves), 3))
            if x != 'RA' and (x, y) != ('RQ', 'RM'):
                # of stored objects, on either side
                mk = 'e * RotationQd{b}' if y == 'RA' else 'e * b'
                out.append(value_case('minus_%s_%s' % (x, y), E('(%s{%s} - b)' % (CT[x], mk), elog, En.leaves + B.leaves), 3))
                if x != y:
                    out.append(value_case('minus_%s_%s' % (y, x), E('(b - %s{%s})' % (CT[x], mk), lambda env: Vec(ref.vneg(ref.log(env['e']).v)), En.leaves + B.leaves), 3))
        if x != 'RA':
            S = leaf('p', 'Rr', 'polarmidpi')
            out.append(value_case('plus_minus_' + x, E('((a + p) - a)', ident, A.leaves + S.leaves), 3))
            out.append(value_case('minus_plus_' + x, E('(a + (%s{e * a} - a))' % CT[x], lambda env: ref.compose(env['e'], env['a']), A.leaves + leaf('e', 'RQ' if x == 'RQ' else 'RM', 'axangmid').leaves), 'R'))
        # a - a = 0, whatever the representation
        out.append(value_case('self_' + x, E('(a - a)', lambda env: Vec([lift(0)] * 3), A.leaves), 3))
        out.append(value_case('plus_zero_' + x, E('(a + RelativeRotationd::Zero())', lambda env: env['a'], A.leaves), 'R'))
    for x in RTS:
        A = leaf('a', x)
        P = leaf('p', 'Tw', 'polarmid' if x == 'TQ' else 'polar')
        out.append(value_case('plus_' + x, A + P, 'T'))
        for y in RTS:
            En = leaf('e', x, 'axang')
            B = leaf('b', y)
            if (x, y) != ('TM', 'TQ'):
                out.append(value_case('minus_%s_%s' % (x, y), E('((e * b) - b)', elog, En.leaves + B.leaves), 6))
                out.append(value_case('minus_rev_%s_%s' % (x, y), E('(b - (e * b))', lambda env: Vec(ref.vneg(ref.log(env['e']).v)), En.leaves + B.leaves), 6))
        out.append(value_case('self_' + x, E('(a - a)', lambda env: Vec([lift(0)] * 6), A.leaves), 6))
        if x == 'TM':
            S = leaf('p', 'Tw', 'polarmidpi')
            out.append(value_case('plus_minus_' + x, E('((a + p) - a)', ident, A.leaves + S.leaves), 6))
    return out
