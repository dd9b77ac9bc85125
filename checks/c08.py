"""Jacobians accumulate over repeated variables, vanish for absent ones, and follow object identity."""
from engine.case import *
from c07 import modes, fn, norm, scal

PROPERTY = 'C08'
LEVEL = 'model_checking'
BOUNDS = 'the listed expression trees, target occurring zero to four times; all rotations, transforms and vectors'
OUTSIDE = 'expression trees not listed; evalWithJacobians() with a target whose type does not occur, and jacobian() of such a target when leaf types repeat, which the library rejects at compile time; typed lookup with a target that does not occur, excluded by an assertion'
PER_TU = 3
BUDGET = 60
PRE = '#include "vh_compound.hpp"\n'


def flat(cpp, *es):
    """Compound expression of vector parts."""
    ls = sum((e.leaves for e in es), ())
    return E('internal::makeCompound<vx::%s>(%s)' % (cpp, ', '.join(e.cpp for e in es)), lambda env: Vec([x for e in es for x in e.f(env).v]), ls)


def plain(o):
    """The same value without derivatives."""
    s = lambda x: D(x.v)
    if o.kind == 'rot':
        return Rot([[s(x) for x in r] for r in o.m], o.q)
    if o.kind == 'rt':
        return RT([[s(x) for x in r] for r in o.m], [s(x) for x in o.t], o.q)
    return Vec([s(x) for x in o.v])


def copy_case(name, src, op, t):
    """`op` uses the leaf twice, the second time through a copy of it, which is another variable."""
    l = src.leaves[0]
    rows = rows_of(t)
    full = lambda env: op(env[l.name], plain(env[l.name]))
    cpy = lambda env: op(plain(env[l.name]), env[l.name])
    cpp = {'mul': '(%s * cp)', 'invmul': '(%s * inverse(cp))', 'sum': '(%s + cp)', 'sub': '(%s - cp)'}[name.split('_')[0]] % l.name
    body = ['  auto cp = %s;' % l.name, '  auto ex = %s;' % cpp]
    outs = []

    def grp(var, call, order):
        body.append('  auto %s = %s;' % (var, call))
        body.append('  vh::sv(o, std::get<0>(%s));' % var)
        outs.append(Val(t, full, var))
        for i, w in enumerate(order):
            body.append('  vh::st(o, std::get<%d>(%s));' % (i + 1, var))
            outs.append(Jac(E('', full if w == 'o' else cpy), l, rows, '%s J/%s' % (var, 'copy' if w == 'c' else 'original')))
    grp('ra', 'ex.evalWithJacobians(%s, cp)' % l.name, 'oc')
    grp('rb', 'internal::evaluateWithJacobians(ex, cp, %s)' % l.name, 'co')
    grp('rc', 'internal::evaluateWithDynamicJacobians(ex, %s, cp)' % l.name, 'oc')
    body.append('  vh::st(o, ex.jacobian(cp));')
    outs.append(Jac(E('', cpy), l, rows, 'jacobian(copy)'))
    body.append('  auto cp2 = %s; vh::st(o, ex.jacobian(cp2));' % l.name)
    outs.append(Jac(E('', lambda env: plain(full(env))), l, rows, 'jacobian(stranger)'))
    return Case(name, '\n'.join(body), outs, [l])


def cases(tier):
    out = []
    M, Q, A = leaf('m', 'RM'), leaf('q', 'RQ'), leaf('a', 'RA')
    TM, TQ = leaf('x', 'TM'), leaf('y', 'TQ')
    v, w = leaf('v', 'Tr'), leaf('w', 'Tr')
    p = leaf('p', 'Rr')
    s = leaf('s', 'Sc')
    t = leaf('t', 'Sc')
    N = lambda n, e, ty, **k: out.extend(modes(n, e, ty, False, **k))
    N('qq', Q * Q, 'R')
    N('q_invq', Q * Q.inv(), 'R')
    N('mm', M * M, 'R')
    N('mmv', M * (M * v), 3)
    N('qqqv', Q * (Q.inv() * (Q * v)), 3)
    N('conj', TQ * leaf('y2', 'TQ') * TQ.inv(), 'T')
    N('vv', v + v, 3)
    N('v_minus_v', v - v, 3)
    N('v_mv', v + M * v, 3)
    N('four', (M * v + v) - (v - M.inv() * v), 3)
    N('neg', -(p + p), 3)
    N('sss', s * (s * v), 3)
    N('s_norm', s * norm(v) + t, 1, extra=lambda sp, env: sp.nonzero_vec(env['v']))
    N('parts', TM.rot() * TM.trans(), 3)
    N('xxv', TM * (TM * v), 3)
    N('parts_q', TQ.rot() * v + TQ.trans() + v, 3)
    N('absent', M * v, 3, strange=[Q.leaves[0], TM.leaves[0], s.leaves[0], p.leaves[0]])
    N('absent_half', M * v + Q * v, 3, absent=[w.leaves[0], leaf('q2', 'RQ').leaves[0]])
    N('absent_t', TM.inv() * v + v, 3, absent=[leaf('x2', 'TM').leaves[0]])
    # stored sub-expressions used twice
    N('shared', E('sub + sub', lambda env: Vec(ref.vadd(ref.apply(env['m'], env['v']).v, ref.apply(env['m'], env['v']).v)), (M * v).leaves),
      3, pre='  auto sub = m * v;')
    N('shared2', E('s * sub - sub', lambda env: Vec(ref.vadd(scale(env['s'].v[0], ref.apply(env['m'], env['v'])).v, ref.vneg(ref.apply(env['m'], env['v']).v))),
                   s.leaves + (M * v).leaves), 3, pre='  auto sub = m * v;')
    # n-ary
    C = lambda n, e, ty, **k: out.extend(modes(n, e, ty, False, dynrev=False, **k))
    C('rb', flat('RB', norm(v), s * t), 2, extra=lambda sp, env: sp.nonzero_vec(env['v']))
    C('rb_rep', flat('RB', s * t, s + s), 2)
    C('rb_abs', flat('RB', s, t), 2, absent=[leaf('u', 'Sc').leaves[0]])
    C('pv', flat('PV', p, M * v, s), 7)
    C('pv_rep', flat('PV', p + p, M * v + v, s * t), 7, absent=[w.leaves[0]])
    C('pv_last', flat('PV', p, v, norm(v)), 7, extra=lambda sp, env: sp.nonzero_vec(env['v']))
    C('pv_first', flat('PV', p + p, v - w, s * t), 7)
    # copies are other variables
    inv = lambda f: lambda a, b: f(a, ref.inverse(b))
    vec = lambda sg: lambda a, b: Vec(ref.vadd(a.v, b.v if sg > 0 else ref.vneg(b.v)))
    out.append(copy_case('mul_copy_q', Q, ref.compose, 'R'))
    out.append(copy_case('invmul_copy_m', M, inv(ref.compose), 'R'))
    out.append(copy_case('mul_copy_x', TM, ref.compose, 'T'))
    out.append(copy_case('sum_copy_v', v, vec(1), 3))
    out.append(copy_case('sub_copy_p', p, vec(-1), 3))
    if tier == 'thorough':
        N('qinvq_p', Q * (M * Q.inv()), 'R')
        N('aa', A * A, 'R')
        N('yyy', TQ * TQ * TQ, 'T')
        N('xyx', TM * TQ * TM.inv(), 'T')
        N('deep', M * (M * (M * (M * v))) + M * v, 3)
    return out
