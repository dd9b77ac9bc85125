"""Noise models and factors compute the whitened residual they document."""
from engine.case import *
from engine.case import tangent
from engine import dag, ref
from engine.alg import fnode
from c07 import fn, norm, scal
from c08 import flat

PROPERTY = 'C18'
LEVEL = 'model_checking'
PRE = '#include "vh_estimation.hpp"\n'
BOUNDS = 'noise of 1, 2, 3, 6 and 7 dimensions from deviations, of 1 and 3 dimensions from covariances; factors of one to three variables measuring scalars, vectors and compounds of vectors; all positive deviations, all positive definite covariances, all variables and measurements'
OUTSIDE = 'full covariances of 2 dimensions and of more than 3 dimensions; factors not listed; the Jacobians of a factor are those of its measurement function, as its tests demand, not scaled by the information matrix'
ASSUMPTIONS = ["Eigen's iterative eigenvalue solver for 3x3 matrices is replaced by its contract: the eigenvectors are inputs, the eigenvalues follow from the matrix it is given, and that matrix must be diagonal in them"]
PER_TU = 3
BUDGET = 60
CT = {'Tr': 'Translationd', 'Rr': 'RelativeRotationd', 'Sc': 'wave::Scalar<double>', 'Tw': 'Twistd', 'RM': 'RotationMd', 'RQ': 'RotationQd', 'RA': 'RotationAd', 'TM': 'RigidTransformMd', 'TQ': 'RigidTransformQd'}

# a variable is one array of numbers; other representations come in as arguments
VAR = {'RQ': 'RotationMd', 'RA': 'RotationMd', 'TQ': 'RigidTransformMd'}


def posi(*names):
    def f(sp, env):
        for n in names:
            for x in env[n].v:
                sp.positive(x)

        def s(rng, fl):
            ls = {n: len(env[n].v) for n in names}
            return {'%s%d' % (n, i): mpf(10 ** rng.uniform(-1.5, 1.5)) for n in names for i in range(ls[n])}
        sp.samplers.append(s)
    return f


import mpmath as mp
mpf = mp.mpf


def plus(*fs):
    def g(sp, env):
        for f in fs:
            f(sp, env)
    return g


def nonz(*names):
    return lambda sp, env: [sp.nonzero_vec(env[n]) for n in names] and None


def nonz_diff(a, b):
    return lambda sp, env: sp.nonzero_vec(Vec(ref.vadd(env[a].v, ref.vneg(env[b].v))))


def diag(v, n):
    return [v[i] if i == j else 0 for j in range(n) for i in range(n)]


def dense(name):
    return '  { Eigen::MatrixXd d_ = %s.toDenseMatrix(); vh::stm(o, d_); }' % name


def full(V, s):
    """V diag(s) V' column by column."""
    return [sum((V[i][k] * s[k] * V[j][k] for k in range(3)), lift(0)) for j in range(3) for i in range(3)]


def noise_cases(out, th):
    # deviations given as a vector and as coefficients
    for t, n in (('Tr', 3), ('Rr', 3), ('RM', 3), ('RQ', 3), ('Tw', 6), ('TM', 6), ('Sc', 1), ('RB', 2), ('PV', 7)):
        ct = CT.get(t) or 'vx::%s<>' % t
        ls = [leaf('s%d_' % k, 'dbl').leaves[0] for k in range(n)]
        vs = lambda env, ls=ls: [env[l.name].v[0] for l in ls]
        args = ', '.join(l.name for l in ls)
        body = ['  Eigen::Matrix<double, %d, 1> v; v << %s;' % (n, args), '  using N = DiagonalNoise<%s>;' % ct,
                '  const auto a = N::FromStdDev(v); const auto b = N::FromStdDev(%s); auto c = N::FromStdDev((2 * v) / 2);' % args,
                '  auto d = a; const auto e = N{std::move(c)};']
        outs = []
        for x in 'abde':
            body += [dense(x + '.covariance()'), dense(x + '.inverseSqrtCov()')]
            outs += [Nodes(n * n, lambda env, vs=vs, n=n: diag([v * v for v in vs(env)], n), '%s covariance' % x),
                     Nodes(n * n, lambda env, vs=vs, n=n: diag([1 / v for v in vs(env)], n), '%s root information' % x)]
        body += ['  auto mc = std::move(d).covariance();', dense('mc'), '  auto mi = N::FromStdDev(v).inverseSqrtCov();', dense('mi')]
        outs += [Nodes(n * n, lambda env, vs=vs, n=n: diag([v * v for v in vs(env)], n), 'moved covariance'),
                 Nodes(n * n, lambda env, vs=vs, n=n: diag([1 / v for v in vs(env)], n), 'moved root information')]
        out.append(Case('diag_' + t, '\n'.join(body), outs, ls, extra=posi(*[l.name for l in ls])))
    # one-dimensional covariance, decomposed by the real solver
    v = leaf('v', 'dbl').leaves[0]
    out.append(Case('full_Sc', '  using N = FullNoise<wave::Scalar<double>>; Eigen::Matrix<double, 1, 1> c; c << v * v; const auto n = N::FromCovariance(c); vh::st(o, n.covariance()); vh::st(o, n.inverseSqrtCov()); auto m = N::FromCovariance(Eigen::Matrix<double, 1, 1>{v * v}); vh::st(o, m.covariance()); vh::st(o, m.inverseSqrtCov()); vh::st(o, std::move(m).inverseSqrtCov());',
                    [Nodes(1, lambda env: [env['v'].v[0] * env['v'].v[0]], 'covariance'), Nodes(1, lambda env: [1 / env['v'].v[0]], 'root information')] * 2 + [Nodes(1, lambda env: [1 / env['v'].v[0]], 'moved root information')], [v], extra=posi('v')))
    V, s = leaf('V', 'RM').leaves[0], leaf('s', 'Tr').leaves[0]
    cov = lambda env: full(env['V'].m, [x * x for x in env['s'].v])
    inf = lambda env: full(env['V'].m, [1 / x for x in env['s'].v])
    zero = Nodes(6, lambda env: [0] * 6, 'the matrix decomposed is not the covariance: off-diagonal')
    for t in ('Tr', 'RM', 'Rr'):
        out.append(Case('full_' + t, '''  Eigen::Matrix3d V_ = V.value(); vx::eigvec = &V_; double off[6]; vx::off = off;
  using N = FullNoise<%s>; const Eigen::Matrix3d c = vx::covOf(V_, s.value());
  const auto n = N::FromCovariance(c); vh::st(o, n.covariance()); vh::st(o, n.inverseSqrtCov()); for (double x : off) vh::st(o, x);
  auto m = N::FromCovariance(Eigen::Matrix3d{c}); vh::st(o, m.covariance()); vh::st(o, m.inverseSqrtCov()); for (double x : off) vh::st(o, x);
  auto k = N::FromCovariance((c + c) / 2); vh::st(o, k.covariance()); vh::st(o, k.inverseSqrtCov()); auto j = k; vh::st(o, std::move(j).inverseSqrtCov()); vh::st(o, std::move(k).covariance());''' % CT[t],
                        [Nodes(9, cov, 'covariance'), Nodes(9, inf, 'root information'), zero] * 2 + [Nodes(9, cov, 'covariance of expression'), Nodes(9, inf, 'root information of expression'), Nodes(9, inf, 'moved root information'), Nodes(9, cov, 'moved covariance')],
                        [V, s], extra=posi('s')))


def vec(o):
    return [D(x.v) for x in o.v]


def factor(out, name, functor, meas, e, n, vars_, noise='diag', extra=None, only=None, **kw):
    """`meas`: measurement leaves in order; `e`: the measurement function as an expression (only .f is used)."""
    mt = meas[0]
    ml = [leaf('z%d' % i, t).leaves[0] for i, t in enumerate(meas[1])]
    mk = '%s{%s}' % (mt, ', '.join(l.name for l in ml))
    args = ', '.join(l.name for l in vars_)
    ptr = ', '.join('vx::var<%s>()' % VAR.get(l.t, l.ctype) for l in vars_)
    lead = []
    pos = []
    if noise == 'diag':
        sl = [leaf('s%d_' % k, 'dbl').leaves[0] for k in range(n)]
        lead = ['  auto meas = Uncertain<%s, DiagonalNoise>{%s, DiagonalNoise<%s>::FromStdDev(%s)};' % (mt, mk, mt, ', '.join(l.name for l in sl))]
        pos = [l.name for l in sl]
        white = lambda env, r: [x / env[l.name].v[0] for x, l in zip(r, sl)]
    elif n == 1:
        sl = [leaf('s', 'dbl').leaves[0]]
        pos = ['s']
        lead = ['  auto meas = Uncertain<%s, FullNoise>{%s, FullNoise<%s>::FromCovariance(Eigen::Matrix<double, 1, 1>{s * s})};' % (mt, mk, mt)]
        white = lambda env, r: [r[0] / env['s'].v[0]]
    else:
        sl = [leaf('V', 'RM').leaves[0], leaf('s', 'Tr').leaves[0]]
        pos = ['s']
        lead = ['  Eigen::Matrix3d V_ = V.value(); vx::eigvec = &V_; auto meas = Uncertain<%s, FullNoise>{%s, FullNoise<%s>::FromCovariance(vx::covOf(V_, s.value()))};' % (mt, mk, mt)]

        def white(env, r):
            V, s = env['V'].m, env['s'].v
            y = [sum((V[i][k] * r[i] for i in range(3)), lift(0)) / s[k] for k in range(3)]
            return [sum((V[i][k] * y[k] for k in range(3)), lift(0)) for i in range(3)]
    resid = lambda env: white(env, [a - b for a, b in zip(vec(e.f(env)), [x for l in ml for x in env[l.name].v])])
    body = lead + ['  const auto f = makeFactor<vx::%s>(meas, %s);' % (functor, ptr), '  vh::st(o, f.evaluate(%s));' % args,
                   '  auto ev = f.evaluateWithJacobians(%s); vh::st(o, std::get<0>(ev));' % args] + \
        ['  vh::st(o, std::get<%d>(ev));' % (i + 1) for i in range(len(vars_))] + \
        ['  auto g = f; meas.value = %s{%s}; vh::st(o, g.evaluate(%s)); vh::st(o, f.size()); vh::st(o, f.isPerfectPrior());' % (mt, ', '.join('vh::cp(%s)' % l.name for l in ml), args)]
    outs = [Nodes(n, resid, 'residual'), Nodes(n, resid, 'residual with Jacobians')] + [Jac(e, l, n) for l in vars_] + \
        [Nodes(n, resid, 'residual of a copy'), Nodes(1, lambda env: [len(vars_)], 'size'), Nodes(1, lambda env: [0], 'perfect prior')]
    out.append(Case('factor_' + name, '\n'.join(body), outs, list(vars_) + ml + sl, extra=plus(posi(*pos), *([extra] if extra else [])), **kw))


def cases(tier):
    out = []
    th = tier == 'thorough'
    noise_cases(out, th)
    a, b, c = leaf('a', 'Tr'), leaf('b', 'Tr'), leaf('c', 'Tr')
    A, B, C = a.leaves[0], b.leaves[0], c.leaves[0]
    u, v = leaf('u', 'Rr'), leaf('v', 'Rr')
    SC = ('wave::Scalar<double>', ['Sc'])
    TR = ('Translationd', ['Tr'])
    for nz in ('diag', 'full'):
        factor(out, 'distance_' + nz, 'Distance', SC, norm(a - b), 1, [A, B], nz, nonz_diff('a', 'b'))
        factor(out, 'difference_' + nz, 'Difference', TR, a - b, 3, [A, B], nz)
        factor(out, 'twice_' + nz, 'Twice', TR, a + a, 3, [A], nz)
    factor(out, 'relative', 'Difference', ('RelativeRotationd', ['Rr']), u - v, 3, [u.leaves[0], v.leaves[0]])
    factor(out, 'skip', 'Skip', TR, a + c, 3, [A, B, C])
    for t in ('RM', 'RQ', 'RA'):
        r = leaf('r', t)
        factor(out, 'rotated_' + t, 'Rotated', TR, r * a - b, 3, [r.leaves[0], A, B])
        s = leaf('r', t, 'axangbig')
        factor(out, 'prior_' + t, 'Prior', ('RelativeRotationd', ['Rr']), s.log(), 3, list(s.leaves))
    r = leaf('r', 'RQ')
    factor(out, 'rotated_full', 'Rotated', TR, r * a - b, 3, [r.leaves[0], A, B], 'full')
    for t in ('TM', 'TQ'):
        x = leaf('x', t)
        factor(out, 'landmark_' + t, 'Landmark', TR, x.inv() * a, 3, [x.leaves[0], A])
        dz = fn('z(%s)', lambda v: scal(v.v[2]), x.inv() * a)
        factor(out, 'rangebearing_' + t, 'RangeBearing', ('vx::RB<>', ['Sc', 'Sc']), flat('RB', norm(x.trans() - a), dz), 2, [x.leaves[0], A],
               extra=lambda sp, env: sp.nonzero_vec(Vec(ref.vadd(env['x'].t, ref.vneg(env['a'].v)))))
    # a relative pose: y = x * d with d known by angle and axis
    r = leaf('r', 'RQ', 'axangbig')
    factor(out, 'mixed', 'Mixed', ('vx::PV<>', ['Rr', 'Tr', 'Sc']), flat('PV', r.log(), r * a - b, norm(b)), 7, [r.leaves[0], A, B], extra=nonz('b'))
    # variables
    for t in ('RM', 'TM', 'Tr', 'Rr', 'Tw'):
        n = {'RM': 9, 'TM': 16, 'Tr': 3, 'Rr': 3, 'Tw': 6}[t]
        m = leaf('m', 'Tr').leaves[0]
        w = leaf('w', 'dbl').leaves[0]
        for k in ((0, n - 1) if not th else range(n)):
            out.append(Case('var_%s_%d' % (t, k), '''  FactorVariable<%s> x; FactorVariableBase &y = x; vh::st(o, static_cast<long>(y.size()));
  for (int i = 0; i < %d; ++i) y.data()[i] = i + m.value()[i %% 3]; y.data()[%d] = w; vh::st(o, x.value().value());
  const auto &cx = x; vh::st(o, cx.value().value()); x.value().value().setZero(); for (int i = 0; i < %d; ++i) vh::st(o, y.data()[i]); y.data()[%d] = w; auto z = std::move(x).value(); vh::st(o, z.value());''' % (CT[t], n, k, n, k),
                            [Nodes(1, lambda env, n=n: [n], 'size')] + [Nodes(n, lambda env, n=n, k=k: [env['w'].v[0] if i == k else i + env['m'].v[i % 3] for i in range(n)], 'value')] * 2 +
                            [Nodes(n, lambda env, n=n: [0] * n, 'data after reset'), Nodes(n, lambda env, n=n, k=k: [env['w'].v[0] if i == k else 0 for i in range(n)], 'moved value')], [m, w]))
    return out
