"""Identity and zero objects are neutral wherever they are used."""
from fractions import Fraction
from engine.case import *
from c07 import scal

PROPERTY = 'C15'
LEVEL = 'model_checking'
BOUNDS = 'identity of every rotation and transform type and zero of every vector type, on either side of every operation that accepts them, alone and inside expressions of depth up to 4; all other operands; exp arguments between 0.003 and 8 pi where exp of a general vector is involved, log arguments up to 0.998 pi'
OUTSIDE = 'expressions not listed'
PER_TU = 6
BUDGET = 110
NOREV = ()
CT = {'RM': 'RotationMd', 'RQ': 'RotationQd', 'RA': 'RotationAd', 'TM': 'RigidTransformMd', 'TQ': 'RigidTransformQd', 'Tr': 'Translationd', 'Rr': 'RelativeRotationd', 'Tw': 'Twistd', 'Pt': 'Pointd'}


def ident(t, named=None):
    def f(env):
        eye = [[lift(Fraction(int(i == j))) for j in range(3)] for i in range(3)]
        z = [lift(Fraction(0))] * 3
        q = [lift(Fraction(int(i == 0))) for i in range(4)]
        return Rot(eye, q) if t[0] == 'R' else RT(eye, z, q)
    return E(named or '%s::Identity()' % CT[t], f, ())


def zero(t):
    return E('%s::Zero()' % CT[t], lambda env: Vec([lift(Fraction(0))] * (6 if t == 'Tw' else 3)), ())


def both(out, name, e, t, jac=True, rev=False, **kw):
    """Value, forward, per-target and dynamic Jacobians."""
    ls = list({l.name: l for l in e.leaves}.values())
    body = ['  auto e = %s;' % e.cpp, '  vh::sv(o, e.eval());']
    outs = [Val(t, e)]
    if ls and jac:
        rows, args = rows_of(t), ', '.join(l.name for l in ls)
        calls = ['e.evalWithJacobians(%s)' % args, 'internal::evaluateWithDynamicJacobians(e, %s)' % args]
        if rev:
            calls.append('internal::evaluateWithTypedJacobians(e, %s)' % args)
        for k, c in enumerate(calls):
            body += ['  auto r%d = %s;' % (k, c), '  vh::sv(o, std::get<0>(r%d));' % k]
            outs.append(Val(t, e, 'value%d' % k))
            for i, l in enumerate(ls):
                body.append('  vh::st(o, std::get<%d>(r%d));' % (i + 1, k))
                outs.append(Jac(e, l, rows, 'J%d/%s' % (k, l.name)))
        if name not in NOREV:
            body.append('  auto rv = internal::evaluateWithDynamicReverseJacobians(e);')
            for l in ls:
                body.append('  vh::st(o, Eigen::Matrix<double, %d, %d>{rv.second.at(&%s)});' % (rows, tangent(l), l.name))
                outs.append(Jac(e, l, rows, 'reverse J/' + l.name))
        for l in ls:
            body.append('  vh::st(o, e.jacobian(%s));' % l.name)
            outs.append(Jac(e, l, rows, 'jacobian() J/%s' % l.name))
    out.append(Case(name, '\n'.join(body), outs, e.leaves, **kw))


def cases(tier):
    out = []
    th = tier == 'thorough'
    M, Q, A = leaf('m', 'RM'), leaf('q', 'RQ'), leaf('a', 'RA')
    X, Y = leaf('x', 'TM'), leaf('y', 'TQ')
    v, w = leaf('v', 'Tr'), leaf('w', 'Tr')
    p, pt, tw = leaf('p', 'Rr'), leaf('pt', 'Pt'), leaf('tw', 'Tw')
    s = leaf('s', 'Sc')
    B = lambda *a, **k: both(out, *a, **k)
    R = {'RM': M, 'RQ': Q, 'RA': A}
    T = {'TM': X, 'TQ': Y}
    for it in R:
        I = ident(it)
        for t, r in R.items():
            B('l_%s_%s' % (it, t), I * r, 'R')
            B('r_%s_%s' % (t, it), r * I, 'R')
        B('rot_%s' % it, I * v, 3)
        B('rot_%s_deep' % it, I * (Q * v) + v, 3)
        B('inv_%s' % it, I.inv() * Q, 'R')
        B('lr_%s' % it, (I * M) * I, 'R')
        B('ii_%s' % it, I * ident('RQ') * M, 'R')
    for it in T:
        I = ident(it)
        for t, r in T.items():
            B('l_%s_%s' % (it, t), I * r, 'T')
            B('r_%s_%s' % (t, it), r * I, 'T')
        B('app_%s' % it, I * v, 3)
        B('app_%s_deep' % it, I * (Y * v) + v, 3)
        B('inv_%s' % it, I.inv() * X, 'T')
        B('ii_%s' % it, I * ident('TQ') * X, 'T')
        B('rotpart_%s' % it, I.rot() * v, 3)
        B('trpart_%s' % it, I.trans() + v, 3)
    # value of the object itself, in every type it converts to
    for it in list(R) + list(T):
        for t in (R if it[0] == 'R' else T):
            c = CT[t]
            out.append(Case('make_%s_%s' % (it, t), '  %s r{%s::Identity()}; vh::st(o, r); %s k = vh::cp(%s); k = %s::Identity(); vh::st(o, k);' % (c, CT[it], c, t.lower(), CT[it]),
                            [Val(t, ident(it), 'constructed'), Val(t, ident(it), 'assigned')], leaf(t.lower(), t).leaves))
        nv = {'RM': 9, 'RQ': 4, 'RA': 4, 'TM': 16, 'TQ': 7}[it]
        out.append(Case('val_' + it, '  vh::st(o, %s{%s::Identity().eval()}); vh::st(o, log(%s::Identity()).eval()); vh::st(o, inverse(%s::Identity()).eval());' % ((CT[it],) * 4),
                        [Val(it, ident(it)), Val(3 if it[0] == 'R' else 6, lambda env, n=3 if it[0] == 'R' else 6: Vec([lift(Fraction(0))] * n), 'log'), Val(it, ident(it), 'inverse')], leaf('d', 'dbl').leaves))
    for t, x in (('Tr', v), ('Rr', p), ('Tw', tw)):
        n = 6 if t == 'Tw' else 3
        Z = zero(t)
        B('sum_l_' + t, Z + x, n)
        B('sum_r_' + t, x + Z, n)
        B('dif_l_' + t, Z - x, n)
        B('dif_r_' + t, x - Z, n)
        B('neg_' + t, x + (-Z), n)
        B('zz_' + t, (Z + Z) + x, n)
        B('deep_' + t, (x + Z) - (Z - x), n)
        out.append(Case('zval_' + t, '  vh::st(o, %s::Zero().eval()); %s r{%s::Zero()}; vh::st(o, r); %s k = vh::cp(u); k = %s::Zero(); vh::st(o, k); vh::st(o, (%s::Zero() - %s::Zero()).eval());' % ((CT[t],) * 7),
                        [Val(n, Z, 'eval'), Val(n, Z, 'constructed'), Val(n, Z, 'assigned'), Val(n, Z, 'difference')], leaf('u', t).leaves))
    B('scale_z', s * zero('Tr') + v, 3)
    B('scaler_z', zero('Tr') * s + v, 3)
    B('div_z', zero('Rr') / leaf('s', 'Sc') + p, 3, extra=lambda sp, env: sp.nonzero_vec(env['s']))
    for it in R:
        B('log_' + it, ident(it).log() + p, 3)
        B('logmul_' + it, s * ident(it).log() + p, 3)
    for it in T:
        B('log_' + it, ident(it).log() + tw, 6)
    B('pt_z', pt + zero('Tr'), 3)
    for t, r in R.items():
        B('plus_z_' + t, r + zero('Rr'), 'R')
        B('exp_z_' + t, zero('Rr').exp() * r, 'R')
        B('minus_i_' + t, leaf('r_', t, 'axang') - ident(t), 3)
        B('i_minus_' + t, ident(t) - leaf('r_', t, 'axang'), 3)
        B('rot_z_' + t, r * zero('Tr') + v, 3)
        B('i_plus_' + t, ident(t) + leaf('p_', 'Rr', 'polarmid'), 'R')
    for t, r in T.items():
        B('plus_z_' + t, r + zero('Tw'), 'T')
        B('exp_z_' + t, zero('Tw').exp() * r, 'T')
        B('app_z_' + t, r * zero('Tr'), 3)
    B('expz_log', (zero('Rr').exp()).log() + p, 3)
    B('nest', X * (ident('TM') * (Y * v)) - zero('Tr'), 3)
    B('nest2', (M * ident('RQ')).inv() * (v + zero('Tr')), 3)
    B('nest3', s * (ident('RM') * v) + zero('Tr'), 3)
    B('named', E('[&] { static const auto I = RotationQd::Identity(); return I * (q * (I * v)); }()', (Q * v).f, Q.leaves + v.leaves), 3)
    return out
