"""Every Jacobian evaluation mode returns the chain-rule derivative."""
from engine.case import *
from engine.case import tangent, AsFirst

PROPERTY = 'C07'
LEVEL = 'model_checking'
BOUNDS = 'the listed expression trees (depth up to 5, up to 5 leaves, every operation kind); all rotations, transforms and vectors, exp arguments between 0.003 and 8 pi, log arguments up to 0.998 pi'
OUTSIDE = 'expression trees not listed; finite-difference Jacobians, which are approximations by design'
PER_TU = 3
BUDGET = 60


def scal(x):
    v = Vec([x])
    v.scalar = True
    return v


def fn(cpp, f, *es):
    ls = sum((e.leaves for e in es), ())
    return E(cpp % tuple(e.cpp for e in es), lambda env: f(*[e.f(env) for e in es]), ls)


def norm(e):
    return fn('%s.norm()', lambda a: scal(ref.dsqrt(ref.dot(a.v, a.v))), e)


def modes(name, e, t, unique, dynamic=True, dynrev=True, absent=(), strange=(), pre='', **kw):
    """One case per group of modes; all are compared with the reference derivative."""
    own = list({l.name: l for l in e.leaves}.values())
    ls = own + list(absent)
    args = ', '.join(l.name for l in ls)
    rows = rows_of(t)

    nv = Val.SIZE.get(t, t) if not isinstance(t, int) else t

    def outs(tag, order=ls):
        """Value and Jacobians, equal to the first group stored by the case."""
        return [AsFirst(0, nv, tag + ' value')] + [AsFirst(at[l.name], rows * tangent(l), '%s J/%s' % (tag, l.name)) for l in order]
    at, k = {}, nv
    for l in ls:
        at[l.name] = k
        k += rows * tangent(l)
    first = lambda: [Val(t, e, 'value')] + [Jac(e, l, rows) for l in ls]

    def store(v, n):
        return ['  vh::sv(o, std::get<0>(%s));' % v] + ['  vh::st(o, std::get<%d>(%s));' % (i + 1, v) for i in range(n)]
    pre = [pre, '  auto ex = %s;' % e.cpp, '  auto r_0 = ex.evalWithJacobians(%s);' % args] + store('r_0', len(ls))
    out = []
    b, o = list(pre), first()
    b += ['  auto r_f = internal::evaluateWithJacobians(ex, %s);' % args] + store('r_f', len(ls))
    o += outs('forward')
    for l in ls:
        b.append('  vh::st(o, ex.jacobian(%s));' % l.name)
        o.append(AsFirst(at[l.name], rows * tangent(l), 'jacobian() J/%s' % l.name))
    for l in strange:
        # variables of types that do not occur
        b.append('  vh::st(o, ex.jacobian(%s));' % l.name)
        o.append(Jac(e, l, rows, 'jacobian() J/%s' % l.name))
    if len(ls) > 1:
        rev = ', '.join(l.name for l in reversed(ls))
        b += ['  auto r_c = ex.evalWithJacobians(%s);' % rev] + store('r_c', len(ls))
        o += outs('reordered', list(reversed(ls)))
    if unique:
        b += ['  auto r_t = internal::evaluateWithTypedJacobians(ex, %s);' % args] + store('r_t', len(ls))
        o += outs('typed')
        b += ['  auto r_r = ex.evalWithJacobians();'] + store('r_r', len(e.leaves))
        o += outs('reverse', list(e.leaves))
    if dynamic:
        b += ['  auto r_d = internal::evaluateWithDynamicJacobians(ex, %s);' % args] + store('r_d', len(ls))
        o += outs('dynamic')
    if dynamic and dynrev:
        b += ['  auto r_v = internal::evaluateWithDynamicReverseJacobians(ex);', '  vh::sv(o, r_v.first);']
        o.append(AsFirst(0, nv, 'dynamic reverse value'))
        for l in own:
            n = tangent(l)
            b.append('  vh::st(o, Eigen::Matrix<double, %d, %d>{r_v.second.at(&%s)});' % (rows, n, l.name))
            o.append(AsFirst(at[l.name], rows * n, 'dynamic reverse J/%s' % l.name))
    out.append(Case(name, '\n'.join(b), o, tuple(e.leaves) + tuple(absent) + tuple(strange), **kw))
    return out


def cases(tier):
    out = []
    M, Q, A = leaf('m', 'RM'), leaf('q', 'RQ'), leaf('a', 'RA')
    TM, TQ = leaf('x', 'TM'), leaf('y', 'TQ')
    v, w = leaf('v', 'Tr'), leaf('w', 'Tr')
    p = leaf('p', 'Rr', 'polarmid')
    s = leaf('s', 'Sc')
    U = lambda n, e, t, **k: out.extend(modes(n, e, t, True, **k))
    N = lambda n, e, t, **k: out.extend(modes(n, e, t, False, **k))
    U('mq', M * Q, 'R')
    U('mqav', M * Q * A * v, 3)
    U('inv_mq_v', (M * Q).inv() * v, 3)
    U('xyv', TM * TQ * v, 3)
    N('inv_yy_v', (TQ * leaf('y2', 'TQ')).inv() * v, 3)
    N('inv_xx_v', (TM * leaf('x2', 'TM')).inv() * v, 3)
    U('x_inv_y', TM * TQ.inv(), 'T')
    U('exp_v', p.exp() * v, 3)
    U('exp_m_v', p.exp() * M * v, 3)
    U('scaled', s * (Q * v), 3)
    U('neg_sum', -(M * v) + leaf('t', 'TM').trans(), 3)
    U('log_m_unused', leaf('m', 'RM', 'axang').log(), 3)
    N('two_tr', M * v + w, 3)
    N('diff_tr', M * v - Q.inv() * w, 3)
    N('three_q', Q * leaf('q2', 'RQ').inv() * leaf('q3', 'RQ'), 'R')
    N('nested', s * (M * (v + Q * w)) - w, 3)
    N('chain4', TM * (leaf('x2', 'TM').inv() * (TQ * (leaf('y2', 'TQ') * v))), 3)
    N('rottrans', TM.rot() * v + TM.trans(), 3)
    U('norm', norm(Q * v + TM.trans()), 1, extra=lambda sp, env: sp.nonzero_vec(Vec(ref.vadd(ref.mv(env['q'].m, env['v'].v), env['x'].t))))
    if tier == 'thorough':
        U('m_invqa', M * (Q.inv() * A).inv(), 'R')
        U('inv_xy_v', (TM * TQ).inv() * v, 3)
        U('plus', M + p, 'R')
        U('minus', M - Q, 3)
        N('deep', (M * Q * leaf('m2', 'RM')).inv() * (A * (s * v) + w), 3)
        N('deept', (TM * TQ).inv() * leaf('x3', 'TM') * v, 3)
    return out
