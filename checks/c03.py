"""Exponential and logarithm of rotations."""
from engine.case import *
from engine import dag, ref

PROPERTY = 'C03'
LEVEL = 'model_checking'
ROTS = ['RM', 'RQ', 'RA']


def cases(tier):
    out = []
    P = leaf('p', 'Rr', 'polar')
    out.append(value_case('exp', P.exp(), 'R'))
    out.append(value_case('exp_neg_inverse', (-P).exp(), 'R'))
    out.append(value_case('exp_rotate', P.exp() * leaf('v', 'Tr'), 3))
    out.append(value_case('exp_mul', P.exp() * leaf('b', 'RM'), 'R'))
    S = leaf('p', 'Rr', 'polarpi')
    ident = lambda env: Vec([D(x.v) for x in env['p'].v])
    out.append(value_case('log_exp', E('log(exp(p))', ident, S.leaves), 3))
    # relative to the size of the argument, however small
    def rel(env):
        a = [D(dag.var('pa' + c)) for c in 'xyz']
        t = D(dag.var('pth'))
        return [ref.dsin(t) * x / t for x in a]

    def pos(sp, env):
        sp.require(dag.lt(dag.ZERO, dag.var('pth')))
    body = '''const Eigen::Matrix3d m = RotationMd{exp(p)}.value(); const auto t = p.value().norm();
for (int i = 0; i < 3; ++i) vh::st(o, (m((i + 2) % 3, (i + 1) % 3) - m((i + 1) % 3, (i + 2) % 3)) / (2 * t));'''
    out.append(Case('rel_exp', body, [Nodes(3, rel, 'exp(p) relative')], P.leaves, extra=pos))
    for x in ROTS:
        A = leaf('a', 'RA', 'axang')
        T = {'RM': 'RotationMd', 'RQ': 'RotationQd', 'RA': 'RotationAd'}[x]
        out.append(Case('rel_log_' + x, 'const %s r{a}; const Eigen::Vector3d v = log(r).eval().value() / a.value().angle(); vh::st(o, v);' % T,
                        [Nodes(3, lambda env: [dag.var('aa' + c) for c in 'xyz'], 'log relative')], A.leaves,
                        extra=lambda sp, env: sp.require(dag.lt(dag.ZERO, dag.var('ah')))))
    for x in ROTS:
        A = leaf('a', x, 'axang')
        out.append(value_case('log_' + x, A.log(), 3))
        out.append(value_case('log_inv_' + x, A.inv().log(), 3))
        out.append(value_case('exp_log_' + x, E('exp(log(a))', lambda env: env['a'], A.leaves), 'R'))
        # up to pi, where the skew part of the matrix vanishes
        C = leaf('a', x, 'axangpi')
        out.append(value_case('logpi_' + x, C.log(), 3, extra=lambda sp, env: sp.positive(env['a'].q[0])))
        out.append(value_case('exp_logpi_' + x, E('exp(log(a))', lambda env: env['a'], C.leaves), 'R', extra=lambda sp, env: sp.positive(env['a'].q[0])))
        if x != 'RA':
            H = leaf('a', x, 'halfturn')
            out.append(value_case('exp_log_halfturn_' + x, E('exp(log(a))', lambda env: env['a'], H.leaves), 'R'))
        if x != 'RM':
            B = leaf('a', x, 'axang-neg')
            out.append(value_case('log_neg_' + x, B.log(), 3))
    return out
