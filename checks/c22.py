"""Block-matrix and per-variable Jacobian containers address disjoint, correct blocks."""
import mpmath as mp
from engine.case import *
from engine.ref import lift
from c08 import flat

PROPERTY = 'C22'
LEVEL = 'model_checking'
PRE = '#include "vh_compound.hpp"\n'
BOUNDS = 'block matrices over every pair of eleven object types (rotations, transforms, vectors, scalars and compounds of two and three parts); all contents; matrix maps of one to four entries of widths one to six with every order and coincidence of their keys, heights one to six; products and sums of up to three factors'
OUTSIDE = 'maps with more than four entries; run-time sized inputs other than those listed'
PER_TU = 8
BUDGET = 60

TY = {
    'R': ('RotationMd', (3,)), 'Q': ('RotationQd', (3,)), 'T': ('RigidTransformMd', (3, 3)), 'C': ('RigidTransformQd', (3, 3)), 'W': ('Twistd', (3, 3)), 'V': ('Translationd', (3,)), 'S': ('wave::Scalar<double>', (1,)),
    'PV': ('vx::PV<>', (3, 3, 1)), 'VS': ('vx::RB<Translationd, wave::Scalar<double>>', (3, 1)), 'SP': ('vx::Pose<>', (3, 3)), 'ST': ('vx::StateT<>', (6, 3, 1)), 'SX': ('vx::State<>', (6, 3, 1)), 'SV': ('vx::RB<wave::Scalar<double>, Translationd>', (1, 3)),
}


class Arr:
    """An input matrix given column by column as free doubles."""

    def __init__(self, name, r, c):
        self.name, self.r, self.c = name, r, c
        self.ls = [leaf('%s%d_' % (name, i), 'dbl') for i in range(r * c)]
        self.leaves = sum((l.leaves for l in self.ls), ())

    def cpp(self, T):
        return '%s %s; %s' % (T, self.name, ' '.join('%s(%d, %d) = %s%d_;' % (self.name, i % self.r, i // self.r, self.name, i) for i in range(self.r * self.c)))

    def at(self, env):
        v = [l.f(env).v[0] for l in self.ls]
        return [[v[j * self.r + i] for j in range(self.c)] for i in range(self.r)]


def off(s):
    o = [0]
    for x in s:
        o.append(o[-1] + x)
    return o


def cut(m, r0, r1, c0, c1):
    return [m[i][j] for j in range(c0, c1) for i in range(r0, r1)]


def colmajor(m):
    return cut(m, 0, len(m), 0, len(m[0]))


def mm(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(len(b))), lift(0)) for j in range(len(b[0]))] for i in range(len(a))]


def block_case(l, r):
    (L, ls), (R, rs) = TY[l], TY[r]
    lo, ro = off(ls), off(rs)
    n, m = lo[-1], ro[-1]
    A, B = Arr('a', n, m), Arr('b', n, m)
    T = 'BlockMatrix<%s, %s>' % (L, R)
    body = ['  ' + A.cpp(T), '  ' + B.cpp(T), '  const %s ca = a;' % T, '  vh::st(o, ca);']
    outs = [Nodes(n * m, lambda env: colmajor(A.at(env)), 'copy')]

    def read(what, call, r0, r1, c0, c1):
        for v in ('a', 'ca'):
            body.append('  vh::st(o, %s.%s);' % (v, call))
            outs.append(Nodes((r1 - r0) * (c1 - c0), lambda env: cut(A.at(env), r0, r1, c0, c1), '%s of %s' % (what, v)))

    def write(what, call, r0, r1, c0, c1):
        def got(env):
            a, b = A.at(env), B.at(env)
            return colmajor([[b[i][j] if r0 <= i < r1 and c0 <= j < c1 else a[i][j] for j in range(m)] for i in range(n)])

        def added(env):
            a, b = A.at(env), B.at(env)
            return colmajor([[a[i][j] + b[i][j] if r0 <= i < r1 and c0 <= j < c1 else a[i][j] for j in range(m)] for i in range(n)])

        def zero(env):
            a = A.at(env)
            return colmajor([[lift(0) if r0 <= i < r1 and c0 <= j < c1 else a[i][j] for j in range(m)] for i in range(n)])
        for op, f in (('= b.%s' % call, got), ('+= b.%s' % call, added), ('.setZero()', zero)):
            body.append('  { auto x = a; x.%s%s; vh::st(o, x); vh::st(o, b); }' % (call, op))
            outs.append(Nodes(n * m, f, '%s %s' % (what, op.split(' ')[0])))
            outs.append(Nodes(n * m, lambda env: colmajor(B.at(env)), 'source'))
    for i in range(len(ls)):
        c = 'template rowsWrt<%d>()' % i
        read('rows', c, lo[i], lo[i + 1], 0, m)
        if len(ls) > 1:
            write('rows %d' % i, c, lo[i], lo[i + 1], 0, m)
        for j in range(len(rs)):
            c = 'template blockWrt<%d, %d>()' % (i, j)
            read('block', c, lo[i], lo[i + 1], ro[j], ro[j + 1])
            write('block %d %d' % (i, j), c, lo[i], lo[i + 1], ro[j], ro[j + 1])
    for j in range(len(rs)):
        c = 'template colsWrt<%d>()' % j
        read('cols', c, 0, n, ro[j], ro[j + 1])
        if len(rs) > 1:
            write('cols %d' % j, c, 0, n, ro[j], ro[j + 1])
    body.append('  vh::st(o, a);')
    outs.append(Nodes(n * m, lambda env: colmajor(A.at(env)), 'unchanged'))
    return Case('block_%s_%s' % (l, r), '\n'.join(body), outs, A.leaves + B.leaves)


def arith_case(l, r, k):
    """Products and sums equal those of the dense matrices, block by block."""
    (L, ls), (R, rs), (K, ks) = TY[l], TY[r], TY[k]
    lo, ro, ko = off(ls), off(rs), off(ks)
    A, B, C = Arr('a', lo[-1], ro[-1]), Arr('b', ro[-1], ko[-1]), Arr('c', lo[-1], ko[-1])
    T = 'BlockMatrix<%s, %s>' % (L, K)
    body = ['  ' + A.cpp('BlockMatrix<%s, %s>' % (L, R)), '  ' + B.cpp('BlockMatrix<%s, %s>' % (R, K)), '  ' + C.cpp(T)]
    n, m = lo[-1], ko[-1]
    prod = lambda env: mm(A.at(env), B.at(env))
    plus = lambda env: [[p + q for p, q in zip(x, y)] for x, y in zip(prod(env), C.at(env))]
    outs = []

    def out(code, f, label):
        body.append('  ' + code)
        outs.append(Nodes(n * m, f, label))
    out('%s p{a * b}; vh::st(o, p);' % T, lambda env: colmajor(prod(env)), 'product')
    out('%s q = a * b; vh::st(o, q);' % T, lambda env: colmajor(prod(env)), 'product')
    out('%s s; s = a * b + c; vh::st(o, s);' % T, lambda env: colmajor(plus(env)), 'product and sum')
    out('%s u = c; u += a * b; vh::st(o, u);' % T, lambda env: colmajor(plus(env)), 'accumulated')
    out('%s w = c; w.noalias() += a * b; vh::st(o, w);' % T, lambda env: colmajor(plus(env)), 'accumulated')
    out('vh::st(o, %s{-c});' % T, lambda env: colmajor([[-x for x in r] for r in C.at(env)]), 'negation')
    out('vh::st(o, %s{c.transpose().transpose() * 2});' % T, lambda env: colmajor([[2 * x for x in r] for r in C.at(env)]), 'doubled')
    # assembled from the blocks of the factors
    code = ['%s z; z.setZero();' % T]
    for i in range(len(ls)):
        for j in range(len(ks)):
            for t in range(len(rs)):
                code.append('z.template blockWrt<%d, %d>() += a.template blockWrt<%d, %d>() * b.template blockWrt<%d, %d>();' % (i, j, i, t, t, j))
    out(' '.join(code) + ' vh::st(o, z);', lambda env: colmajor(prod(env)), 'assembled')
    return Case('arith_%s_%s_%s' % (l, r, k), '\n'.join(body), outs, A.leaves + B.leaves + C.leaves)


def diag_case(l):
    L, ls = TY[l]
    lo = off(ls)
    n = lo[-1]
    A, B, M = Arr('a', n, 1), Arr('b', n, 1), Arr('m', n, n)
    V = 'Eigen::Matrix<double, %d, 1>' % n
    body = ['  ' + A.cpp(V), '  ' + B.cpp(V), '  ' + M.cpp('BlockMatrix<%s, %s>' % (L, L)), '  DiagonalBlockMatrix<%s> d{a};' % L]
    col = lambda X: (lambda env: [x[0] for x in X.at(env)])
    dg = lambda f: (lambda env: [f(env)[i] if i == j else lift(0) for j in range(n) for i in range(n)])
    body.append('  vh::st(o, d.diagonal()); vh::st(o, Eigen::MatrixXd(d)); vh::st(o, (d * m).eval()); vh::st(o, (m * d).eval()); vh::st(o, %s(d * b));' % V)
    outs = [Nodes(n, col(A), 'diagonal'), Nodes(n * n, dg(col(A)), 'dense'),
            Nodes(n * n, lambda env: colmajor([[col(A)(env)[i] * M.at(env)[i][j] for j in range(n)] for i in range(n)]), 'times matrix'),
            Nodes(n * n, lambda env: colmajor([[M.at(env)[i][j] * col(A)(env)[j] for j in range(n)] for i in range(n)]), 'matrix times'),
            Nodes(n, lambda env: [x * y for x, y in zip(col(A)(env), col(B)(env))], 'times vector')]
    for i in range(len(ls)):
        body.append('  vh::st(o, d.template segmentWrt<%d>());' % i)
        outs.append(Nodes(ls[i], lambda env, i=i: col(A)(env)[lo[i]:lo[i + 1]], 'segment'))
        body.append('  { auto x = d; x.template segmentWrt<%d>() = b.segment(%d, %d); vh::st(o, x.diagonal()); }' % (i, lo[i], ls[i]))
        outs.append(Nodes(n, lambda env, i=i: [(col(B) if lo[i] <= k < lo[i + 1] else col(A))(env)[k] for k in range(n)], 'segment written'))
    body.append('  vh::st(o, d.inverse().diagonal());' if False else '  vh::st(o, d.diagonal());')
    outs.append(Nodes(n, col(A), 'unchanged'))
    # block vector
    body.append('  BlockVector<%s> v{a};' % L)
    for i in range(len(ls)):
        body.append('  vh::st(o, v.template rowsWrt<%d>()); vh::st(o, v.template blockWrt<%d, 0>()); { auto x = v; x.template rowsWrt<%d>() = b.segment(%d, %d); vh::st(o, x); }' % (i, i, i, lo[i], ls[i]))
        seg = lambda env, i=i: col(A)(env)[lo[i]:lo[i + 1]]
        outs += [Nodes(ls[i], seg, 'vector rows'), Nodes(ls[i], seg, 'vector block'), Nodes(n, lambda env, i=i: [(col(B) if lo[i] <= k < lo[i + 1] else col(A))(env)[k] for k in range(n)], 'vector written')]
    return Case('diag_' + l, '\n'.join(body), outs, A.leaves + B.leaves + M.leaves)


def keys_close(names):
    def extra(sp, env):
        def s(rng, fl):
            n = rng.choice([2, 3, 10])
            return {k + '0': mp.mpf(rng.randrange(n)) for k in names}
        sp.samplers.append(s)
    return extra


def map_case(name, widths, rows, order=None):
    """Entries under keys in any order; the key of entry 0 may be looked up among them too."""
    n = len(widths)
    ks = [leaf('k%d_' % i, 'dbl') for i in range(n)]
    q = leaf('q', 'dbl')
    W = sum(widths)
    A, B = Arr('a', rows, W), Arr('b', rows, W)
    wo = off(widths)
    body = ['  ' + A.cpp('Eigen::Matrix<double, %d, %d>' % (rows, W)), '  ' + B.cpp('Eigen::Matrix<double, %d, %d>' % (rows, W)),
            '  std::pair<double, int> e[] = {%s};' % ', '.join('{k%d_, %d}' % (i, w) for i, w in enumerate(widths)),
            '  MatrixMap<double, double> m{&e[0], &e[0] + %d, %d}; m.setZero();' % (n, rows),
            '  const auto &c = m;']
    outs = []
    same = all(w == widths[0] for w in widths)
    for i, w in enumerate(widths):
        # later entries under the same key are further contributions
        body.append('  m[k%d_] += a.middleCols(%d, %d);' % (i, wo[i], w))

    def total(i, src):
        def f(env):
            # the solver's path tells which keys coincide; expressed as a conditional sum
            r = [[lift(0)] * widths[i] for _ in range(rows)]
            for j in range(n):
                if j == i:
                    r = [[x + y for x, y in zip(p, s[wo[j]:wo[j + 1]])] for p, s in zip(r, src.at(env))]
            return colmajor(r)
        return f
    for i, w in enumerate(widths):
        body.append('  vh::st(o, m[k%d_]); vh::st(o, m.at(k%d_)); vh::st(o, c.at(k%d_)); vh::st(o, c[k%d_]); vh::st(o, double(c.count(k%d_)));' % ((i,) * 5))
        outs += [Nodes(rows * w, total(i, A), 'entry %d %s' % (i, x)) for x in ('[]', 'at', 'const at', 'const []')]
        outs.append(Nodes(1, lambda env: [lift(1)], 'count'))
    body.append('  vh::st(o, double(c.count(q)));')
    outs.append(Nodes(1, lambda env: [lift(0)], 'count of an absent key'))
    # writing one entry leaves the others
    for i, w in enumerate(widths):
        body.append('  { auto x = m; x[k%d_] = b.middleCols(%d, %d);' % (i, wo[i], w) + ''.join(' vh::st(o, x.at(k%d_));' % j for j in range(n)) + ' }')
        for j in range(n):
            outs.append(Nodes(rows * widths[j], total(j, B if i == j else A), 'entry %d after writing %d' % (j, i)))
    body.append('  m.setZero();' + ''.join(' vh::st(o, c.at(k%d_));' % j for j in range(n)))
    outs += [Nodes(rows * w, lambda env, w=w: [lift(0)] * (rows * w), 'cleared') for w in widths]

    def extra(sp, env):
        # the keys differ from each other and from the absent one
        v = [env['k%d_' % i].v[0] for i in range(n)] + [env['q'].v[0]]
        for i in range(len(v)):
            for j in range(i):
                sp.positive((v[i] - v[j]) * (v[i] - v[j]))
    return Case(name, '\n'.join(body), outs, sum((k.leaves for k in ks), ()) + q.leaves + A.leaves + B.leaves, extra=extra, max_paths=200)


def repeated_case(name, seq, width, rows):
    """The same key listed several times (seq of entry numbers) addresses one entry."""
    ids = sorted(set(seq))
    ks = [leaf('k%d_' % i, 'dbl') for i in ids]
    A = Arr('a', rows, width * len(seq))
    body = ['  ' + A.cpp('Eigen::Matrix<double, %d, %d>' % (rows, width * len(seq))), '  std::pair<double, int> e[] = {%s};' % ', '.join('{k%d_, %d}' % (i, width) for i in seq),
            '  MatrixMap<double, double> m{&e[0], &e[0] + %d, %d}; m.setZero();' % (len(seq), rows)]
    for p, i in enumerate(seq):
        body.append('  m[k%d_] += a.middleCols(%d, %d);' % (i, p * width, width))
    outs = []
    for i in ids:
        def f(env, i=i):
            a = A.at(env)
            return colmajor([[sum((a[r][p * width + c] for p, x in enumerate(seq) if x == i), lift(0)) for c in range(width)] for r in range(rows)])
        body.append('  vh::st(o, m.at(k%d_)); vh::st(o, double(m.count(k%d_)));' % (i, i))
        outs += [Nodes(rows * width, f, 'sum of contributions to %d' % i), Nodes(1, lambda env: [lift(1)], 'count')]

    def extra(sp, env):
        v = [env['k%d_' % i].v[0] for i in ids]
        for i in range(len(v)):
            for j in range(i):
                sp.positive((v[i] - v[j]) * (v[i] - v[j]))
    return Case(name, '\n'.join(body), outs, sum((k.leaves for k in ks), ()) + A.leaves, extra=extra, max_paths=200)


def seqs_case():
    """Sizes and offsets computed at compile time."""
    out, want = [], []

    def num(expr, *vals):
        out.append(expr)
        want.extend(vals)
    S = 'std::index_sequence<%s>'
    for xs in ((3,), (3, 1), (6, 3, 1), (1, 2, 3, 4, 5)):
        s = S % ', '.join(map(str, xs))
        num('tmp::sum_sequence<%s>::value' % s, sum(xs))
        for i in range(len(xs)):
            num('tmp::integer_sequence_element<%d, tmp::accumulate_index_sequence<%s>>::value' % (i, s), sum(xs[:i]))
            num('tmp::integer_sequence_element<%d, %s>::value' % (i, s), xs[i])
    body = '  ' + ' '.join('vh::st(o, double(%s));' % x for x in out)
    body += ' { auto f = [&](auto... i) { (vh::st(o, double(i)), ...); }; seq(f, tmp::make_index_sequence<4>{}); seq(f, tmp::make_index_sequence<3, 2>{}); std_seq(f, typename tmp::concat_index_sequence<std::index_sequence<4, 1>, std::index_sequence<>, std::index_sequence<7>>::type{}); std_seq(f, typename tmp::filter_index_sequence_t<vx_odd, std::index_sequence<4, 1, 3, 8, 5, 2>>{}); }'
    want += [0, 1, 2, 3, 2, 3, 4, 4, 1, 7, 1, 3, 5]
    pre = '''template <typename F, int... I> void seq(F &f, tmp::index_sequence<I...>) { f(I...); }
template <typename F, std::size_t... I> void std_seq(F &f, std::index_sequence<I...>) { f(I...); }
template <std::size_t I> struct vx_odd : std::integral_constant<bool, I % 2 == 1> {};
'''
    return Case('sequences', body, [Nodes(len(want), lambda env: [lift(x) for x in want], 'compile-time sequence')], leaf('u', 'dbl').leaves, pre=pre)


def cases(tier):
    th = tier == 'thorough'
    out = [seqs_case()]
    ks = list(TY)
    for l in ks:
        for r in ks:
            big = sum(TY[l][1]) * sum(TY[r][1]) > 49
            if th or not big or (l, r) in (('SX', 'ST'), ('ST', 'PV'), ('SX', 'SX')):
                out.append(block_case(l, r))
    for t in (('T', 'W', 'T'), ('PV', 'T', 'V'), ('V', 'PV', 'S'), ('R', 'V', 'PV'), ('S', 'PV', 'T'), ('VS', 'PV', 'SV'), ('SP', 'VS', 'T')) + ((('ST', 'SX', 'W'), ('PV', 'PV', 'PV')) if th else ()):
        out.append(arith_case(*t))
    for l in ks:
        out.append(diag_case(l))
    for name, w, r in (('map1', (3,), 3), ('map2', (1, 3), 3), ('map2b', (6, 3), 1), ('map3', (3, 1, 2), 2), ('map3b', (6, 3, 3), 6)) + ((('map4', (1, 2, 3, 1), 1), ('map4b', (3, 3, 6, 1), 6)) if th else ()):
        out.append(map_case(name, w, r))
    for name, s, w, r in (('rep2', (0, 0), 3, 3), ('rep3', (0, 1, 0), 1, 3), ('rep4', (1, 0, 1, 0), 2, 2), ('rep_all', (0, 0, 0, 0), 1, 1), ('rep5', (2, 0, 1, 2, 0), 1, 2)):
        out.append(repeated_case(name, s, w, r))
    return out
