"""Each operation's Jacobian is its local derivative."""
from engine.case import *

PROPERTY = 'C06'
LEVEL = 'model_checking'
BOUNDS = 'all rotations and transforms (unit quaternion, orthonormal matrix, axis and angle), all real vectors and scalars; exp arguments up to 8 pi, log arguments up to 0.998 pi'
OUTSIDE = 'logarithm Jacobians at rotation angles above 0.998 pi'
BUDGET = 40
ROTS = ['RM', 'RQ', 'RA']
RTS = ['TM', 'TQ']


def fn(cpp, f, *es):
    ls = sum((e.leaves for e in es), ())
    return E(cpp % tuple(e.cpp for e in es), lambda env: f(*[e.f(env) for e in es]), ls)


def nonzero(n):
    return lambda sp, env: sp.nonzero_vec(env[n])


def inside(n):
    return lambda sp, env: sp.positive(1 - env[n].v[0] * env[n].v[0])


def scal(x):
    v = Vec([x])
    v.scalar = True
    return v


def cases(tier):
    out = []
    mid = 'polarmid' if tier == 'quick' else 'polar'
    v, w = leaf('v', 'Tr'), leaf('w', 'Tr')
    for x in ROTS:
        A = leaf('a', x)
        out.append(jac_case('inv_' + x, A.inv(), 'R'))
        out.append(jac_case('rotate_' + x, A * v, 3))
        out.append(jac_case('log_' + x, leaf('a', x, 'axang').log(), 3))
        out.append(jac_case('plus_' + x, A + leaf('p', 'Rr', mid), 'R'))
        for y in ROTS:
            out.append(jac_case('mul_%s_%s' % (x, y), A * leaf('b', y), 'R'))
    for x in RTS:
        A = leaf('a', x)
        out.append(jac_case('inv_' + x, A.inv(), 'T'))
        out.append(jac_case('transform_' + x, A * v, 3))
        out.append(jac_case('rotation_' + x, A.rot(), 'R'))
        out.append(jac_case('translation_' + x, A.trans(), 3))
        out.append(jac_case('log_' + x, leaf('a', x, 'axang').log(), 6))
        out.append(jac_case('logxz_' + x, leaf('a', x, 'axang-xz').log(), 6))
        out.append(jac_case('plus_' + x, A + leaf('p', 'Tw', mid), 'T'))
        for y in RTS:
            out.append(jac_case('mul_%s_%s' % (x, y), A * leaf('b', y), 'T'))
    out.append(jac_case('exp_Rr', leaf('p', 'Rr', 'polar').exp(), 'R'))
    out.append(jac_case('exp_Tw', leaf('p', 'Tw', 'polar').exp(), 'T'))
    for t in ('Tr', 'Rr', 'Tw', 'Pt'):
        n = 6 if t == 'Tw' else 3
        p, q = leaf('p', t), leaf('q', t)
        s = leaf('s', 'Sc')
        z = leaf('z', 'Tr')
        if t == 'Pt':
            out.append(jac_case('ptsub_' + t, p - q, n))
            out.append(jac_case('ptaddv_' + t, p + z, n))
            out.append(jac_case('ptsubv_' + t, p - z, n))
            out.append(jac_case('vaddpt_' + t, z + p, n))
            continue
        out.append(jac_case('sum_' + t, p + q, n))
        out.append(jac_case('sub_' + t, p - q, n))
        out.append(jac_case('neg_' + t, -p, n))
        out.append(jac_case('scale_' + t, s * p, n))
        out.append(jac_case('scaleR_' + t, p * s, n))
        out.append(jac_case('sdiv_' + t, p / s, n, extra=nonzero('s')))
        out.append(jac_case('norm_' + t, fn('%s.norm()', lambda a: scal(ref.dsqrt(ref.dot(a.v, a.v))), p), 1, extra=nonzero('p')))
        out.append(jac_case('sqn_' + t, fn('%s.squaredNorm()', lambda a: scal(ref.dot(a.v, a.v)), p), 1))
        out.append(jac_case('normalized_' + t, fn('%s.normalized()', lambda a: Vec([k / ref.dsqrt(ref.dot(a.v, a.v)) for k in a.v]), p), n, extra=nonzero('p')))
        out.append(jac_case('dot_' + t, fn('dot(%s, %s)', lambda a, b: scal(ref.dot(a.v, b.v)), p, q), 1))
    s, t = leaf('s', 'Sc'), leaf('t', 'Sc')
    out.append(jac_case('s_prod', s * t, 1))
    out.append(jac_case('s_div', s / t, 1, extra=nonzero('t')))
    out.append(jac_case('s_sum', s + t, 1))
    out.append(jac_case('s_sub', s - t, 1))
    out.append(jac_case('s_neg', -s, 1))
    out.append(jac_case('s_acos', fn('acos(%s)', lambda a: scal(ref.dacos(a.v[0])), s), 1, extra=inside('s')))
    return out
