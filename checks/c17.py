"""Approximate comparison agrees with the values."""
import mpmath as mp
from fractions import Fraction
from engine.case import *
from engine import dag, ref
from engine.alg import fnode
from c08 import flat

PROPERTY = 'C17'
LEVEL = 'model_checking'
PRE = '#include "vh_compound.hpp"\n'
BOUNDS = 'every pair of rotation representations and of transform representations, every vector type, scalars, expressions and compounds of vectors; all values and all positive precisions; differences of rotations up to 0.998 pi, and exactly pi about the coordinate axes; yes is demanded within a quarter of the precision, no beyond twice the precision'
OUTSIDE = 'differences between a quarter of and twice the precision; frames'
PER_TU = 4
BUDGET = 60
PR = leaf('prec', 'dbl')


def pos(sp, env):
    sp.positive(env['prec'].v[0])
    sp.samplers.append(lambda rng, fl: {'prec0': mp.mpf(10) ** mp.mpf(rng.uniform(-13, .5))} if fl != 'zero' else {})


def near_parts(sp, env):
    pos(sp, env)

    def s(rng, fl):
        if fl == 'zero':
            return {}
        out = {'prec0': mp.mpf(10) ** mp.mpf(rng.uniform(-13, .5))}
        for x, n in (('r', 3), ('p', 3), ('s', 1)):
            scale = mp.mpf(10) ** rng.uniform(-1, 1)
            eps = scale * out['prec0'] * mp.mpf(10) ** rng.choice([-2, -1, 0, 1])
            for i in range(n):
                v = scale * rng.uniform(-2, 2)
                out['%s1%d' % (x, i)] = v
                out['%s2%d' % (x, i)] = v + eps * rng.uniform(-1, 1)
        return out
    sp.samplers.append(s)


def tiny_e(sp, env):
    pos(sp, env)

    def s(rng, fl):
        if not fl.startswith('small'):
            return {}
        h = mp.mpf(10) ** mp.mpf(rng.uniform(-12, -6))
        return {'eh': h, 'prec0': h * mp.mpf(rng.uniform(.2, 3))}
    sp.samplers.append(s)


def sq(v):
    return ref.dot(v, v).v


def le(a, b):
    return dag.bnot(dag.lt(b, a))


def q(x):
    return lift(x)


def relative(f, g):
    """Eigen-style comparison relative to the smaller norm."""
    def h(env):
        a, b = f(env).v, g(env).v
        d = ref.vadd(a, ref.vneg(b))
        p = env['prec'].v[0]
        if len(a) == 1:
            D1, A1, B1 = (q(fnode('fabs', x.v)) for x in (d[0], a[0], b[0]))
            return ([le((q(4) * D1).v, (p * A1).v), le((q(4) * D1).v, (p * B1).v)],
                    [dag.band(dag.lt((q(2) * p * A1).v, D1.v), dag.lt((q(2) * p * B1).v, D1.v))], [d[0].v])
        p2 = p * p
        A, B, Dd = sq(a), sq(b), ref.dot(d, d)
        yes = [le((q(16) * Dd).v, (p2 * ref.dot(a, a)).v), le((q(16) * Dd).v, (p2 * ref.dot(b, b)).v)]
        no = [dag.band(dag.lt((q(4) * p2 * ref.dot(a, a)).v, Dd.v), dag.lt((q(4) * p2 * ref.dot(b, b)).v, Dd.v))]
        return yes, no, [x.v for x in d]
    return h


def absolute(f, p=None):
    """Every coefficient of f small compared with the precision."""
    def h(env):
        pr = env['prec'].v[0] if p is None else q(p)
        yes, no = [], []
        for x in f(env).v:
            for y in (x, -x):
                yes.append(le((q(4) * y).v, pr.v))
                no.append(dag.lt((q(2) * pr).v, y.v))
        return yes, no
    return h


def always(v):
    return lambda env: ([dag.TRUE], []) if v else ([], [dag.TRUE])


def cmp_case(name, a, b, how, decl='', extra=pos, **kw):
    """isApprox in both directions."""
    ls = kw.pop('leaves')
    return [Case(name + sfx, '  %s\n  vh::st(o, (%s).isApprox(%s, prec));' % (decl, x, y), [Holds(how, 'isApprox' + sfx)], tuple(ls) + PR.leaves, extra=extra, **kw)
            for sfx, x, y in (('', a, b), ('_swapped', b, a))]


CT = {'RM': 'RotationMd', 'RQ': 'RotationQd', 'RA': 'RotationAd', 'TM': 'RigidTransformMd', 'TQ': 'RigidTransformQd'}


def cases(tier):
    out = []
    th = tier == 'thorough'
    # vectors
    for t in ('Tr', 'Rr', 'Tw', 'Pt', 'Sc'):
        a, b = leaf('a', t), leaf('b', t)
        if t != 'Pt':
            out.extend(cmp_case('vec_' + t, 'a', 'b', relative(a.f, b.f), leaves=a.leaves + b.leaves))
        out.append(Case('zero_' + t, '  vh::st(o, a.isZero(prec)); vh::st(o, (-a).isZero(prec)); vh::st(o, (a + a).isZero(prec)); vh::st(o, (a - a).isZero(prec));' if t != 'Pt' else '  vh::st(o, a.isZero(prec));',
                        [Holds(absolute(a.f), 'isZero')] + ([] if t == 'Pt' else [Holds(absolute((-a).f), 'isZero of negation'), Holds(absolute((a + a).f), 'isZero of sum'), Holds(always(True), 'isZero of zero')]), a.leaves + PR.leaves, extra=pos))
    elog = lambda env: ref.log(env['e'])
    no = lambda bound: (lambda env: ([], [dag.lt(env['prec'].v[0].v, q(bound).v)]))
    # rotations: x = e * b with e known by angle and axis
    for x, y in (('RM', 'RM'), ('RM', 'RQ'), ('RM', 'RA'), ('RQ', 'RQ'), ('RQ', 'RA')):
        B = leaf('b', y)
        EN = leaf('e', 'RQ', 'axangbig' if 'RA' in (x, y) else 'axang')
        mk = 'e * RotationQd{b}' if (x, y) == ('RQ', 'RA') else 'e * b'
        out.extend(cmp_case('rot_%s_%s' % (x, y), 'x', 'b', absolute(elog), decl='%s x{%s};' % (CT[x], mk), extra=tiny_e, leaves=EN.leaves + B.leaves))
        if x == 'RM' and y != 'RA':
            out.extend(cmp_case('rot_expr_%s' % y, 'e * b', 'b', absolute(elog), extra=tiny_e, leaves=EN.leaves + B.leaves))
            out.extend(cmp_case('rot_inv_%s' % y, 'inverse(x)', 'inverse(b)', absolute(lambda env: ref.log(ref.inverse(env['e']))), decl='auto x = (b * e).eval();', extra=tiny_e, leaves=EN.leaves + B.leaves))
    # default precision
    EN, B = leaf('e', 'RQ', 'axang'), leaf('b', 'RQ')
    out.append(Case('rot_default', '  auto x = (e * b).eval(); vh::st(o, x.isApprox(b));', [Holds(absolute(elog, Fraction(1, 10 ** 12)))], EN.leaves + B.leaves))
    # half turns differ from the identity and from what they turn
    for k, n in enumerate(('X', 'Y', 'Z')):
        d = ['-1'] * 3
        d[k] = '1'
        diag = 'Eigen::Matrix3d(Eigen::Vector3d(%s).asDiagonal())' % ', '.join(d)
        qv = ['0', '0', '0']
        qv[k] = '1'
        for x, obj in (('RM', 'RotationMd h{%s};' % diag), ('RQ', 'RotationQd h{Eigen::Quaterniond{0, %s}};' % ', '.join(qv))):
            out.append(Case('half_%s_%s' % (n, x), '  %s vh::st(o, h.isApprox(%s::Identity(), prec)); %s id{%s::Identity()}; vh::st(o, id.isApprox(h, prec));' % (obj, CT[x], CT[x], CT[x]),
                            [Holds(no(1), 'half turn vs identity'), Holds(no(1), 'identity vs half turn')], PR.leaves, extra=pos))
    # equal values: copies, other representations, other signs, expressions
    M, Q, A = leaf('m', 'RM'), leaf('q', 'RQ'), leaf('a', 'RA', 'axang')
    TM, TQ = leaf('x', 'TM'), leaf('y', 'TQ')
    yes = Holds(always(True), 'equal values')

    def same(name, decl, pairs, leaves, **kw):
        body = '  ' + decl + ''.join(' vh::st(o, (%s).isApprox(%s, prec));' % p for p in pairs)
        out.append(Case('same_' + name, body, [Holds(always(True), '%s == %s' % p) for p in pairs], tuple(leaves) + PR.leaves, extra=pos, **kw))
    same('RM', 'auto c = m;', [('m', 'm'), ('m', 'c'), ('inverse(inverse(m))', 'm'), ('m', 'm * RotationMd::Identity()')], M.leaves)
    same('RQ', 'auto c = q; RotationQd n{Eigen::Quaterniond{-q.value().coeffs()}}; RotationMd r{q};', [('q', 'c'), ('q', 'n'), ('n', 'q'), ('r', 'q'), ('q', 'r'), ('r', 'n')], Q.leaves)
    same('RA', 'RotationAd n{Eigen::AngleAxisd{-a.value().angle(), -a.value().axis()}}; RotationMd r{a}; RotationQd w{a};', [('a', 'a'), ('a', 'n'), ('r', 'a'), ('a', 'w'), ('n', 'w'), ('w', 'n')], A.leaves)
    same('TM', 'auto c = x;', [('x', 'c'), ('inverse(inverse(x))', 'x')], TM.leaves)
    same('TQ', 'auto c = y; RigidTransformMd r{y};', [('y', 'c'), ('r', 'y'), ('y', 'r')], TQ.leaves)
    # transforms
    for x, y in (('TM', 'TM'), ('TQ', 'TM'), ('TQ', 'TQ')):
        B = leaf('b', y)
        EN = leaf('e', x, 'axangbig+twist')
        out.extend(cmp_case('rt_%s_%s' % (x, y), '(e * b)', 'b', absolute(lambda env: env['e'].twist), extra=tiny_e, leaves=EN.leaves + B.leaves))
    # expressions and compounds of vectors
    a, b, c = leaf('a', 'Tr'), leaf('b', 'Tr'), leaf('c', 'Tr')
    out.extend(cmp_case('expr_sum', 'a + b', 'c', relative((a + b).f, c.f), leaves=a.leaves + b.leaves + c.leaves))
    m = leaf('m', 'RM')
    out.extend(cmp_case('expr_rotated', 'm * a', 'm * b', relative(a.f, b.f), leaves=m.leaves + a.leaves + b.leaves))
    r1, p1, s1, r2, p2, s2 = leaf('r1', 'Rr'), leaf('p1', 'Tr'), leaf('s1', 'Sc'), leaf('r2', 'Rr'), leaf('p2', 'Tr'), leaf('s2', 'Sc')

    def each(env):
        rs = [relative(u.f, v.f)(env) for u, v in ((s1, s2), (r1, r2), (p1, p2))]
        return sum((r[0] for r in rs), []), sum((r[1] for r in rs), []), sum((r[2] for r in rs), [])
    out.extend(cmp_case('compound', 'x', 'y', each, decl='auto x = internal::makeCompound<vx::PV>(r1, p1, s1).eval(); auto y = internal::makeCompound<vx::PV>(r2, p2, s2).eval();',
                        extra=near_parts, leaves=sum((l.leaves for l in (r1, p1, s1, r2, p2, s2)), ())))
    out.append(Case('same_vectors', '  vh::st(o, a.isApprox(a, prec)); vh::st(o, (a + b).isApprox(b + a, prec)); vh::st(o, Translationd::Zero().eval().isZero(prec)); vh::st(o, RotationMd::Identity().isApprox(RotationMd::Identity(), prec));',
                    [yes] * 4, a.leaves + b.leaves + PR.leaves, extra=pos))
    return out
