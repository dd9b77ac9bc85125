"""Exponential and logarithm of rigid transforms."""
from engine.case import *
from engine import dag, ref

PROPERTY = 'C04'
LEVEL = 'model_checking'


def cases(tier):
    out = []
    P = leaf('p', 'Tw', 'polar')
    out.append(value_case('exp', P.exp(), 'T'))
    out.append(value_case('exp_apply', P.exp() * leaf('v', 'Tr'), 3))
    S = leaf('p', 'Tw', 'polarpi')
    ident = lambda env: Vec([D(x.v) for x in env['p'].v])
    out.append(value_case('log_exp', E('log(exp(p))', ident, S.leaves), 6))
    # relative to the size of the rotation, however small
    def rel(env):
        t, u = D(dag.var('pth')), D(dag.var('pu0'))
        return [(1 - ref.dcos(t)) / (t * t) * u, ref.dsin(t) / t * u]
    body = '''Twistd w{p}; const double n = p.value().head<3>().norm(), u = p.value()[3];
w.value() << n, 0, 0, 0, u, 0;
const Eigen::Matrix4d m = RigidTransformMd{exp(w)}.value(); vh::st(o, m(2, 3) / n); vh::st(o, m(1, 3));'''
    out.append(Case('rel_exp', body, [Nodes(2, rel, 'translation relative')], P.leaves, extra=lambda sp, env: sp.require(dag.lt(dag.ZERO, dag.var('pth')))))
    for x in ['TM', 'TQ']:
        A = leaf('a', x, 'axang')
        out.append(value_case('log_' + x, A.log(), 6))
        out.append(value_case('exp_log_' + x, E('exp(log(a))', lambda env: env['a'], A.leaves), 'T'))
    return out
