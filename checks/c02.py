"""Rigid transforms: compose, inverse and point transform are those of SE(3) for both representations."""
from engine.case import *

PROPERTY = 'C02'
LEVEL = 'model_checking'
RTS = ['TM', 'TQ']
BOUNDS = 'all rigid transforms with orthonormal rotation part, all real translations and points; expression depth up to 4'


def cases(tier):
    out = []
    v = leaf('v', 'Tr')
    for x in RTS:
        A = leaf('a', x)
        out.append(value_case('inv_' + x, A.inv(), 'T'))
        out.append(value_case('app_' + x, A * v, 3))
        out.append(value_case('invapp_' + x, A.inv() * v, 3))
        out.append(value_case('rot_' + x, A.rot(), 'R'))
        out.append(value_case('trans_' + x, A.trans(), 3))
        out.append(value_case('rotapp_' + x, A.rot() * v, 3))
        out.append(value_case('sumtr_' + x, A.trans() + v, 3))
        for y in RTS:
            B = leaf('b', y)
            out.append(value_case('mul_%s_%s' % (x, y), A * B, 'T'))
            out.append(value_case('chain_%s_%s' % (x, y), A * (B * v), 3))
            out.append(value_case('rel_%s_%s' % (x, y), A.inv() * (B * v), 3))
            out.append(value_case('multr_%s_%s' % (x, y), E('(%s * %s).eval()' % (A.cpp, B.cpp), (A * B).f, (A * B).leaves).trans(), 3))
    for x, y, z in [('TM', 'TM', 'TM'), ('TQ', 'TQ', 'TQ'), ('TM', 'TQ', 'TM')]:
        A, B, C = leaf('a', x), leaf('b', y), leaf('c', z)
        out.append(value_case('inv3_%s%s%s' % (x, y, z), (A * B).inv() * C, 'T'))
        out.append(value_case('assoc_%s%s%s' % (x, y, z), A * (B * (C * v)), 3))
    return out
