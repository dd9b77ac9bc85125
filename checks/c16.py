"""Structured (cross-product, identity) matrices behave as the dense matrices they stand for."""
import re
from engine.case import *

PROPERTY = 'C16'
LEVEL = 'model_checking'
MODE = 'mem'
BOUNDS = 'cross-product matrices of vectors, maps, segments, columns and lazily evaluated vector expressions, and 3x3, 2x2, 6x6 and 1x1 identity placeholders, in products on either side with vectors, row vectors, square, wide, tall and dynamically sized matrices, blocks, transposes, other structured matrices and chains of up to four factors; sums, differences, scaling, negation, transpose, accumulation, printing; all real entries'
OUTSIDE = 'shapes and chains not listed; single precision (C24)'
PER_TU = 12
BUDGET = 60


class Mx:
    """C++ text of a matrix expression and its dense meaning."""

    def __init__(self, cpp, f):
        self.cpp, self.f = cpp, f

    def __mul__(self, o):
        return Mx('(%s * %s)' % (self.cpp, o.cpp), lambda e: mm(self.f(e), o.f(e)))

    def __add__(self, o):
        return Mx('(%s + %s)' % (self.cpp, o.cpp), lambda e: mz(self.f(e), o.f(e), lambda a, b: a + b))

    def __sub__(self, o):
        return Mx('(%s - %s)' % (self.cpp, o.cpp), lambda e: mz(self.f(e), o.f(e), lambda a, b: a - b))

    def __neg__(self):
        return Mx('(-%s)' % self.cpp, lambda e: [[-x for x in r] for r in self.f(e)])

    def T(self):
        return Mx('%s.transpose()' % self.cpp, lambda e: tr(self.f(e)))

    def w(self, cpp, g=None):
        return Mx(cpp % self.cpp, (lambda e: g(self.f(e))) if g else self.f)


def mm(a, b):
    assert len(a[0]) == len(b), (len(a), len(a[0]), len(b))
    r = []
    for i in range(len(a)):
        row = []
        for j in range(len(b[0])):
            s = a[i][0] * b[0][j]
            for k in range(1, len(b)):
                s = s + a[i][k] * b[k][j]
            row.append(s)
        r.append(row)
    return r


def mz(a, b, g):
    return [[g(x, y) for x, y in zip(p, q)] for p, q in zip(a, b)]


def tr(a):
    return [list(c) for c in zip(*a)]


def hat(v):
    x, y, z = [r[0] for r in v] if len(v) == 3 else v[0]
    o = lift(0)
    return [[o, -z, y], [z, o, -x], [-y, x, o]]


def eye(n):
    return [[lift(int(i == j)) for j in range(n)] for i in range(n)]


W1, W2, W3, W4 = (leaf('w%d' % k, 'Tw').leaves[0] for k in range(4))
S = leaf('s', 'dbl').leaves[0]
# raw numbers -> Eigen objects: every matrix is filled from the 24 symbolic numbers
PRE_BODY = '''  double raw[24];
  for (int i = 0; i < 6; ++i) { raw[i] = w0.value()[i]; raw[6 + i] = w1.value()[i]; raw[12 + i] = w2.value()[i]; raw[18 + i] = w3.value()[i]; }
'''
DECL = {
    'a': ('Eigen::Vector3d a = Eigen::Map<Eigen::Vector3d>(raw);', 0, 3, 1),
    'b': ('Eigen::Vector3d b = Eigen::Map<Eigen::Vector3d>(raw + 3);', 3, 3, 1),
    'c': ('Eigen::Vector3d c = Eigen::Map<Eigen::Vector3d>(raw + 6);', 6, 3, 1),
    'M': ('Eigen::Matrix3d M = Eigen::Map<Eigen::Matrix3d>(raw + 9);', 9, 3, 3),
    'Wd': ('Eigen::Matrix<double, 3, 4> Wd = Eigen::Map<Eigen::Matrix<double, 3, 4>>(raw + 9);', 9, 3, 4),
    'Td': ('Eigen::Matrix<double, 4, 3> Td = Eigen::Map<Eigen::Matrix<double, 4, 3>>(raw + 9);', 9, 4, 3),
    'D2': ('Eigen::Matrix<double, 3, 2> D2 = Eigen::Map<Eigen::Matrix<double, 3, 2>>(raw + 9);', 9, 3, 2),
    'r': ('Eigen::RowVector3d r = Eigen::Map<Eigen::RowVector3d>(raw + 18);', 18, 1, 3),
    'X': ('Eigen::MatrixXd X = Eigen::Map<Eigen::MatrixXd>(raw + 9, 3, 4);', 9, 3, 4),
    'XT': ('Eigen::MatrixXd XT = Eigen::Map<Eigen::MatrixXd>(raw + 9, 4, 3);', 9, 4, 3),
    'X3': ('Eigen::Matrix<double, 3, Eigen::Dynamic> X3 = Eigen::Map<Eigen::MatrixXd>(raw + 9, 3, 4);', 9, 3, 4),
    'Rm': ('Eigen::Matrix<double, 3, 3, Eigen::RowMajor> Rm = Eigen::Map<Eigen::Matrix3d>(raw + 9);', 9, 3, 3),
    'N2': ('Eigen::Matrix2d N2 = Eigen::Map<Eigen::Matrix2d>(raw + 9);', 9, 2, 2),
    'v2': ('Eigen::Vector2d v2 = Eigen::Map<Eigen::Vector2d>(raw + 3);', 3, 2, 1),
    'N6': ('Eigen::Matrix<double, 6, 2> N6 = Eigen::Map<Eigen::Matrix<double, 6, 2>>(raw);', 0, 6, 2),
    'U6': ('Eigen::Matrix<double, 3, 6> U6 = Eigen::Map<Eigen::Matrix<double, 3, 6>>(raw);', 0, 3, 6),
    'mp': ('Eigen::Map<Eigen::Vector3d> mp(raw + 1);', 1, 3, 1),
    'st': ('Eigen::Map<const Eigen::Vector3d, 0, Eigen::InnerStride<2>> st(raw + 1);', None, 3, 1),
    'w6': ('Eigen::Matrix<double, 6, 1> w6 = Eigen::Map<Eigen::Matrix<double, 6, 1>>(raw);', 0, 6, 1),
}


def base(nm):
    _, lo, r, c = DECL[nm]

    def f(e):
        raw = [x for k in range(4) for x in e['w%d' % k].v]
        if nm == 'st':
            return [[raw[1]], [raw[3]], [raw[5]]]
        return [[raw[lo + i + r * j] for j in range(c)] for i in range(r)]
    return Mx(nm, f)


V = {k: base(k) for k in DECL}


def cr(m):
    return Mx('crossMatrix(%s)' % m.cpp, lambda e: hat(m.f(e)))


def ident(n):
    return Mx('IdentityMatrix<double, %d>{}' % n, lambda e: eye(n))


def sc(m):
    return Mx('(s * %s)' % m.cpp, lambda e: [[e['s'].v[0] * x for x in r] for r in m.f(e)])


def case(name, shape, m, stmt='{ Eigen::Matrix<double, %d, %d> res = %s; put(res); }'):
    """Evaluate m into a dense matrix and store it."""
    r, c = shape
    body = PRE_BODY + ''.join('  %s\n' % d[0] for k, d in DECL.items() if used(k, m.cpp + stmt))
    body += '  auto put = [&o](const auto &x) { for (int j = 0; j < x.cols(); ++j) for (int i = 0; i < x.rows(); ++i) vh::st(o, double(x(i, j))); };\n'
    body += '  ' + (stmt % (r, c, m.cpp) if '%d' in stmt else stmt % m.cpp if '%s' in stmt else stmt)

    def f(e):
        x = m.f(e)
        assert (len(x), len(x[0])) == shape, (name, len(x), len(x[0]))
        return [x[i][j] for j in range(c) for i in range(r)]
    return Case(name, body, [Nodes(r * c, f, 'entries')], (W1, W2, W3, W4, S))


def used(k, s):
    return re.search(r'\b%s\b' % k, s)


def cases(tier):
    out = []

    def add(name, shape, m, *a):
        out.append(case(name, shape, m, *a))
    a, b, c, M, r = V['a'], V['b'], V['c'], V['M'], V['r']
    seg = Mx('w6.segment<3>(2)', lambda e: V['w6'].f(e)[2:5])
    hd, tl = Mx('w6.head<3>()', lambda e: V['w6'].f(e)[:3]), Mx('w6.tail<3>()', lambda e: V['w6'].f(e)[3:])
    col = Mx('M.col(1)', lambda e: [[x[1]] for x in M.f(e)])
    blk = Mx('U6.block<3, 3>(0, 2)', lambda e: [x[2:5] for x in V['U6'].f(e)])
    lc = Mx('U6.leftCols<3>()', lambda e: [x[:3] for x in V['U6'].f(e)])
    vecs = {'vec': a, 'map': V['mp'], 'strided': V['st'], 'segment': seg, 'head': hd, 'tail': tl, 'column': col,
            'neg': -a, 'sum': a + c, 'scaled': sc(a), 'product': M * a, 'transposed': r.T(), 'cross': Mx('a.cross(c)', lambda e: mm(hat(a.f(e)), c.f(e))),
            'negsum': -(a + c), 'temp': Mx('Eigen::Vector3d(a + c)', (a + c).f), 'negneg': -(-a), 'negsegment': -seg, 'negcolumn': -col}
    for nm, v in vecs.items():
        # the vector expression outlives the matrix unless the whole is one full expression
        add('dense_' + nm, (3, 3), cr(v))
        add('vecprod_' + nm, (3, 1), cr(v) * b)
        add('matprod_' + nm, (3, 4), cr(v) * V['Wd'])
        add('rightprod_' + nm, (4, 3), V['Td'] * cr(v))
        add('rowprod_' + nm, (1, 3), b.T() * cr(v))
        add('neg_' + nm, (3, 3), -cr(v))
        add('negvec_' + nm, (3, 1), (-cr(v)) * b)
        add('negmat_' + nm, (3, 2), (-cr(v)) * V['D2'])
    # the other operand
    ca, cb, cc = cr(a), cr(b), cr(c)
    na = cr(-a)
    for nm, m, s in (('3x3', M, (3, 3)), ('rowmajor', V['Rm'], (3, 3)), ('3x2', V['D2'], (3, 2)), ('dynamic3', V['X3'], (3, 4)), ('block', blk, (3, 3)), ('leftcols', lc, (3, 3)), ('3x6', V['U6'], (3, 6)),
                     ('transposed', M.T(), (3, 3)), ('sum', M + blk, (3, 3)), ('scaled', sc(M), (3, 3)), ('negated', -M, (3, 3)), ('identity', ident(3), (3, 3)),
                     ('cross', cb, (3, 3)), ('negcross', cr(-b), (3, 3)), ('matexpr', M * blk, (3, 3)), ('segment', seg, (3, 1)), ('vecexpr', b + c, (3, 1)), ('negvec', -b, (3, 1)), ('matvec', M * b, (3, 1))):
        if nm not in ('dynamic3',):
            add('crossL_' + nm, s, ca * m)
            add('ncrossL_' + nm, s, na * m)
        if s == (3, 3):
            add('crossR_' + nm, s, m * ca)
            add('ncrossR_' + nm, s, m * na)
    for nm, m, s in (('4x3', V['Td'], (4, 3)), ('row', r, (1, 3)), ('rowsum', r + b.T(), (1, 3)), ('3x6T', V['U6'].T(), (6, 3))):
        add('crossR_' + nm, s, m * ca)
        add('ncrossR_' + nm, s, m * na)
    # chains
    add('chain_ccc', (3, 3), ca * cb * cc)
    add('chain_cMc', (3, 3), ca * M * cb)
    add('chain_McM', (3, 3), M * ca * M)
    add('chain_cccc', (3, 3), ca * cb * cc * ca)
    add('chain_ccv', (3, 1), ca * cb * c)
    add('chain_c_cv', (3, 1), ca * (cb * c))
    add('chain_Mcv', (3, 1), M * ca * b)
    add('chain_vcv', (1, 1), b.T() * ca * c)
    add('chain_icMi', (3, 3), ident(3) * ca * M * ident(3))
    add('chain_ncc', (3, 3), na * cb * (-cc))
    add('sum_cc', (3, 3), ca + cb)
    add('diff_cc', (3, 3), ca - cb)
    add('sum_cM', (3, 3), ca + M)
    add('sum_Mc', (3, 3), M - ca)
    add('sum_prods', (3, 3), ca * M + M * cb)
    add('sum_negprods', (3, 3), -(ca * M) - (cb * blk))
    add('scale_c', (3, 3), sc(ca))
    add('scale_prod', (3, 3), sc(ca * M))
    add('transpose_c', (3, 3), ca.T())
    add('transpose_prod', (3, 3), (ca * M).T())
    add('transpose_mul', (3, 3), ca.T() * M)
    add('transpose_right', (3, 3), M * ca.T())
    add('blockof_c', (2, 2), ca.w('%s.block<2, 2>(0, 1)', lambda x: [q[1:3] for q in x[:2]]))
    add('blockof_prod', (3, 1), (ca * M).w('%s.col(2)', lambda x: [[q[2]] for q in x]))
    add('rodrigues', (3, 3), ident(3) + sc(ca) + sc(ca * ca))
    add('rodrigues_vec', (3, 1), b + ca * b + ca * (ca * b))
    # statements
    add('plus_eq_cross', (3, 3), M + ca, '{ M += crossMatrix(a); put(M); }')
    add('plus_eq_prod', (3, 3), M + ca * blk, '{ M += crossMatrix(a) * U6.block<3, 3>(0, 2); put(M); }')
    add('minus_eq_prod', (3, 3), M - cr(-a) * blk, '{ M -= crossMatrix(-a) * U6.block<3, 3>(0, 2); put(M); }')
    add('minus_eq_cross', (3, 3), M - ca, '{ M.noalias() -= crossMatrix(a); put(M); }')
    add('self_prod_right', (3, 3), M * ca, '{ Eigen::Matrix3d K = M * crossMatrix(a); put(K); }')
    add('eval', (3, 3), ca * M, '{ auto k = (crossMatrix(a) * M).eval(); put(k); }')
    add('named', (3, 1), ca * b, '{ auto k = crossMatrix(a); Eigen::Vector3d z = k * b; put(z); }')
    add('named_neg', (3, 4), -(ca * V['Wd']), '{ auto k = crossMatrix(a); auto n = -k; Eigen::Matrix<double, 3, 4> z = n * Wd; put(z); }')
    add('named_negdense', (3, 3), -ca, '{ auto n = -crossMatrix(a); Eigen::Matrix3d z = n; put(z); }')
    add('copied', (3, 1), ca * b, '{ auto k = crossMatrix(a); auto k2 = k; Eigen::Vector3d z = k2 * b; put(z); }')
    add('via_dynamic', (3, 3), ca, '{ Eigen::MatrixXd z = crossMatrix(a); put(z); }')
    add('into_block', (3, 3), ca, '{ Eigen::Matrix<double, 6, 6> big; big.setZero(); big.block<3, 3>(3, 0) = crossMatrix(a); put(big.block<3, 3>(3, 0)); }')
    add('into_block_prod', (3, 3), -(ca * M), '{ Eigen::Matrix<double, 6, 6> big; big.setZero(); big.block<3, 3>(0, 3) = -crossMatrix(a) * M; put(big.block<3, 3>(0, 3)); }')
    add('function_return', (3, 3), ca * M, '{ auto g = [](const Eigen::Vector3d &v, const Eigen::Matrix3d &m) -> Eigen::Matrix3d { return crossMatrix(v) * m; }; put(g(a, M)); }')
    # identity placeholders
    for n, m, s in ((3, M, (3, 3)), (3, V['Wd'], (3, 4)), (3, a, (3, 1)), (3, a + c, (3, 1)), (3, M + blk, (3, 3)), (3, M * blk, (3, 3)), (3, V['X'], (3, 4)), (3, V['X3'], (3, 4)), (3, blk, (3, 3)), (3, ca, (3, 3)), (3, na, (3, 3)),
                    (2, V['N2'], (2, 2)), (2, V['v2'], (2, 1)), (6, V['N6'], (6, 2)), (6, V['w6'], (6, 1)), (3, -M, (3, 3)), (3, sc(M), (3, 3)), (3, M.T(), (3, 3)), (3, seg, (3, 1))):
        add('idL%d_%d' % (n, len(out)), s, ident(n) * m)
    for n, m, s in ((3, M, (3, 3)), (3, V['Td'], (4, 3)), (3, r, (1, 3)), (3, a.T(), (1, 3)), (3, M - blk, (3, 3)), (3, M * blk, (3, 3)), (3, V['XT'], (4, 3)), (3, blk, (3, 3)), (3, ca, (3, 3)), (3, na, (3, 3)),
                    (2, V['N2'], (2, 2)), (6, V['U6'], (3, 6)), (6, V['w6'].T(), (1, 6)), (3, -M, (3, 3)), (3, sc(M), (3, 3))):
        add('idR%d_%d' % (n, len(out)), s, m * ident(n))
    I3 = ident(3)
    for n in (1, 2, 3, 6):
        add('id_dense%d' % n, (n, n), ident(n))
        add('id_eval%d' % n, (n, n), ident(n).w('%s.eval()'))
        add('id_id%d' % n, (n, n), ident(n) * ident(n))
    add('id_both', (3, 3), I3 * M * I3)
    add('id_scale', (3, 3), sc(I3))
    add('id_neg', (3, 3), -I3)
    add('id_negmul', (3, 3), (-I3) * M)
    add('id_sum', (3, 3), I3 + M)
    add('id_diff', (3, 3), M - I3)
    add('id_idsum', (3, 3), I3 + I3)
    add('id_transpose', (3, 3), I3.T() * M)
    add('id_named', (3, 3), M, '{ IdentityMatrix<double, 3> k; Eigen::Matrix3d z = k * M; put(z); }')
    add('id_named_temp', (3, 3), M * blk, '{ IdentityMatrix<double, 3> k; Eigen::Matrix3d z = k * (M * U6.block<3, 3>(0, 2)); put(z); }')
    add('id_plus_eq', (3, 3), M + I3, '{ M += IdentityMatrix<double, 3>{}; put(M); }')
    add('id_into_block', (3, 3), I3, '{ Eigen::Matrix<double, 6, 6> big; big.setZero(); big.block<3, 3>(3, 0) = IdentityMatrix<double, 3>{}; put(big.block<3, 3>(3, 0)); }')
    add('id_dynamic', (3, 3), I3, '{ Eigen::MatrixXd z = IdentityMatrix<double, 3>{}; put(z); }')
    add('id_copy', (3, 3), M, '{ IdentityMatrix<double, 3> k; auto k2 = k; Eigen::Matrix3d z = M * k2; put(z); }')
    add('id_chain', (3, 1), M * a, '{ Eigen::Vector3d z = IdentityMatrix<double, 3>{} * IdentityMatrix<double, 3>{} * M * IdentityMatrix<double, 3>{} * a; put(z); }')
    return out
