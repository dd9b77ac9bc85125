"""Random objects are valid members of their group, whatever the random source returns."""
import mpmath as mp
from engine.case import *
from engine import dag
from engine.ref import lift

PROPERTY = 'C21'
LEVEL = 'model_checking'
FIRST = '#include "vh_random.hpp"\n'
PRE = '#include "vh_compound.hpp"\n#include "vh_float.hpp"\n'
BOUNDS = 'every leaf type, both scalar types, from its Random() and from Random expressions inside products, inverses, box-plus, logarithms and conversions; every outcome of the random number source, up to twelve draws'
OUTSIDE = 'the distribution of the results'
ASSUMPTIONS = ['std::uniform_real_distribution returns a value from a to the largest one below b; Eigen\'s coefficient generator a value of [-1, 1]; engine and device are replaced by these contracts']
PER_TU = 6
BUDGET = 60


def draws(n):
    return [leaf('u%02d_' % i, 'dbl') for i in range(n)]


def feed(n):
    return 'double us[] = {%s}; vx::feed(us);' % ', '.join('u%02d_' % i for i in range(n))


def unit_range(n):
    def extra(sp, env):
        names = ['u%02d_0' % i for i in range(n)]
        for i in range(n):
            v = env['u%02d_' % i].v[0].v
            sp.require(dag.bnot(dag.lt(v, dag.ZERO)))
            sp.require(dag.bnot(dag.lt(dag.ONE, v)))

        def s(rng, fl):
            if fl in ('zero', 'edge'):
                return {k: mp.mpf(rng.choice([0, 1])) for k in names}
            return {k: mp.mpf(rng.random()) for k in names}
        sp.samplers.append(s)
    return extra


class Member:
    """Stored coefficients of a group member."""

    def __init__(self, t, label='member'):
        self.t, self.label, self.n = t, label, Val.SIZE[t]

    def obls(self, o, env):
        L, t = self.label, self.t
        res = []
        if t == 'TM':
            for j, x in enumerate((0, 0, 0, 1)):
                res.append(Ob('%s bottom row %d' % (L, j), o[4 * j + 3], lift(x).v))
            o = [o[4 * j + i] for j in range(3) for i in range(3)]
            t = 'RM'
        if t == 'RM':
            m = [[D(o[3 * j + i]) for j in range(3)] for i in range(3)]
            for i in range(3):
                for j in range(i + 1):
                    res.append(Ob('%s (R\'R)(%d,%d)' % (L, i, j), sum((m[k][i] * m[k][j] for k in range(3)), lift(0)).v, lift(int(i == j)).v))
            det = lift(0)
            for k in range(3):
                det = det + m[0][k] * (m[1][(k + 1) % 3] * m[2][(k + 2) % 3] - m[1][(k + 2) % 3] * m[2][(k + 1) % 3])
            res.append(Ob('%s det' % L, det.v, lift(1).v))
        elif t in ('RQ', 'TQ'):
            q = [D(x) for x in o[:4]]
            res.append(Ob('%s unit norm' % L, sum((x * x for x in q), lift(0)).v, lift(1).v))
        elif t == 'RA':
            q = [D(x) for x in o[1:4]]
            res.append(Ob('%s unit axis' % L, sum((x * x for x in q), lift(0)).v, lift(1).v))
        return res


class Within:
    """A stored flag the code computed; it must hold."""
    n = 1

    def __init__(self, label):
        self.label = label

    def obls(self, o, env):
        return [Ob(self.label, o[0], dag.ONE)]


def case(name, n, body, outs, **kw):
    ls = [l for d in draws(n) for l in d.leaves]
    c = Case(name, feed(n) + '\n' + body, outs, ls, extra=unit_range(n), **kw)
    if name.endswith('f'):
        c.tol, c.ntol = 1e-4, 1e-5
    return c


ROT = {'RM': 'RotationM', 'RQ': 'RotationQ', 'RA': 'RotationA'}
TRF = {'TM': 'RigidTransformM', 'TQ': 'RigidTransformQ'}
VEC = {'Tr': 'Translation', 'Rr': 'RelativeRotation', 'Pt': 'Point', 'Tw': 'Twist'}
LE = 'auto in1 = [](const auto &m) { return (m.array() >= -1).all() && (m.array() <= 1).all(); };\n'


def cases(tier):
    out = []
    for f in 'df':
        S = {'d': 'double', 'f': 'float'}[f]
        for t, T in ROT.items():
            out.append(case('random_%s%s' % (t, f), 3, 'vh::st(o, %s%s::Random());' % (T, f), [Member(t)]))
            out.append(case('expr_%s%s' % (t, f), 3, '%s%s r = Random<%s%s>{}.eval(); vh::st(o, r);' % (T, f, T, f), [Member(t)]))
            out.append(case('inv_%s%s' % (t, f), 3, 'auto r = inverse(Random<%s%s>{}).eval(); vh::st(o, r);' % (T, f), [Member({'RM': 'RM', 'RQ': 'RQ', 'RA': 'RA'}[t])]))
            for t2, T2 in ROT.items():
                if t2 != t and t != 'RM':
                    out.append(case('conv_%s_%s%s' % (t, t2, f), 3, '%s%s r{Random<%s%s>{}}; vh::st(o, r);' % (T2, f, T, f), [Member(t2)]))
        for t, T in TRF.items():
            r = 'RM' if t == 'TM' else 'RQ'
            body = LE + 'auto r = %s%s::Random(); vh::st(o, r); const Eigen::Matrix<%s, 3, 1> p = r.translation().eval().value(); vh::st(o, in1(p));' % (T, f, S)
            out.append(case('random_%s%s' % (t, f), 6, body, [Member(t), Within('translation coefficients in [-1, 1]')]))
            out.append(case('inv_%s%s' % (t, f), 6, 'auto r = inverse(Random<%s%s>{}).eval(); vh::st(o, r);' % (T, f), [Member(t)]))
            out.append(case('rot_%s%s' % (t, f), 6, 'auto r = %s%s::Random(); vh::st(o, r.rotation().eval());' % (T, f), [Member(r)]))
        for t, T in VEC.items():
            body = LE + 'auto r = %s%s::Random(); vh::st(o, in1(r.value())); auto s = Random<%s%s>{}.eval(); vh::st(o, in1(s.value()));' % (T, f, T, f)
            out.append(case('random_%s%s' % (t, f), 12, body, [Within('coefficients in [-1, 1]'), Within('coefficients in [-1, 1] (expression)')]))
        for a, b in ((0, 1), (-1, 1), (2, 5), (-3, -3), (-.5, .25)):
            body = 'const %s a = %s, b = %s; const %s x = uniformRandom<%s>(a, b); vh::st(o, x >= a && x <= b);' % (S, a, b, S, S)
            out.append(case('uniform_%s_%s%s' % (str(a).replace('-', 'm').replace('.', 'p'), str(b).replace('-', 'm').replace('.', 'p'), f), 1, body, [Within('inside the interval')]))
        # ends of the closed interval are reached
        out.append(Case('uniform_ends%s' % f, 'double us[] = {0., 1.}; vx::feed(us); (void) u00_; const {0} lo = uniformRandom<{0}>({0}(-2), {0}(3)), hi = uniformRandom<{0}>({0}(-2), {0}(3)); vh::st(o, lo); vh::st(o, hi);'.replace('{0}', S), [Nodes(2, lambda env: [lift(-2), lift(3)], 'ends')], leaf('u00_', 'dbl').leaves))
        out.append(case('quat%s' % f, 3, 'vh::st(o, randomQuaternion<%s>());' % S, [Member('RQ')]))
        # two objects of one run
        out.append(case('two_%s' % f, 6, 'auto a = RotationQ%s::Random(); auto b = RotationM%s::Random(); vh::st(o, a); vh::st(o, b);' % (f, f), [Member('RQ', 'first'), Member('RM', 'second')]))
    v = [leaf('v%d_' % i, 'dbl') for i in range(3)]
    # one evaluation uses one draw: value and Jacobian of a random rotation applied to a vector agree
    for t, T in ROT.items():
        for call in ('evalWithJacobians', 'fwd', 'rev'):
            fn = {'evalWithJacobians': 'e.evalWithJacobians(v)', 'fwd': 'internal::evaluateWithJacobians<true>(0)', 'rev': ''}[call]
            if call != 'evalWithJacobians':
                continue
            body = 'Translationd v{v0_, v1_, v2_}; auto e = Random<%sd>{} * v; auto r = %s; vh::st(o, std::get<0>(r)); vh::st(o, std::get<1>(r));' % (T, fn)

            def agree(o, env):
                vv = [env['v%d_' % i].v[0] for i in range(3)]
                J = [[D(o[3 + 3 * j + i]) for j in range(3)] for i in range(3)]
                return [('value = J v [%d]' % i, o[i], sum((J[i][j] * vv[j] for j in range(3)), lift(0)).v) for i in range(3)]
            ls = [l for d in draws(3) + v for l in d.leaves]
            out.append(Case('jac_%s' % t, feed(3) + '\n' + body, [Free(12, agree)], ls, extra=unit_range(3)))
    if tier == 'quick':
        # the many branches of the angle-axis conversion are explored once
        out = [c for c in out if "RA" not in c.name or c.name == "random_RAd"]
    for c in out:
        if 'RA' in c.name:
            c.timeout = 25 if tier == 'quick' else 240
    return out
