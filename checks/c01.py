"""Rotations: compose, inverse and rotate are those of SO(3) for every representation."""
from engine.case import *

PROPERTY = 'C01'
LEVEL = 'model_checking'
ROTS = ['RM', 'RQ', 'RA']
BOUNDS = 'all rotations (unit quaternion / rotation matrix / axis and angle in [-4pi, 4pi]), all real vectors; expression depth up to 4'


def cases(tier):
    out = []
    v = leaf('v', 'Tr')
    for x in ROTS:
        A = leaf('a', x)
        out.append(value_case('inv_' + x, A.inv(), 'R'))
        out.append(value_case('rotv_' + x, A * v, 3))
        out.append(value_case('invrotv_' + x, A.inv() * v, 3))
        for y in ROTS:
            B = leaf('b', y)
            out.append(value_case('mul_%s_%s' % (x, y), A * B, 'R'))
            out.append(value_case('chain_%s_%s' % (x, y), A * B.inv() * v, 3))
    for x, y, z in [('RM', 'RQ', 'RA'), ('RQ', 'RA', 'RM'), ('RA', 'RM', 'RQ'), ('RM', 'RM', 'RM'), ('RQ', 'RQ', 'RQ')]:
        A, B, C = leaf('a', x), leaf('b', y), leaf('c', z)
        out.append(value_case('inv3_%s%s%s' % (x, y, z), (A * B).inv() * C, 'R'))
        out.append(value_case('inv3r_%s%s%s' % (x, y, z), (A * (B * C).inv()).inv(), 'R'))
        out.append(value_case('assoc_%s%s%s' % (x, y, z), A * (B * (C * v)), 3))
    return out
