"""Writing through parts, maps and blocks changes exactly the addressed coefficients."""
from engine.case import *
from c07 import norm, scal

PROPERTY = 'C13'
LEVEL = 'model_checking'
BOUNDS = 'every rotation, transform and vector type over mapped memory, blocks and strides; part assignment from leaves, other representations and expressions that read the assigned object; all initial contents and assigned values'
OUTSIDE = 'mapped layouts not listed; scalar leaves over references'
PER_TU = 4
BUDGET = 40
RTS = ['TM', 'TQ']
W = 28


def put(t, f):
    """Transform with one part replaced."""
    def g(env):
        x = env['x']
        r = f(env)
        return RT(r.m, x.t, r.q) if t == 'R' else RT(x.m, r.v, x.q)
    return g


def part(name, X, which, e, extra_leaves=(), pre=''):
    x = X.leaves[0]
    get = 'rotation()' if which == 'R' else 'translation()'
    return Case(name, '%s  x.%s = %s; vh::st(o, x);' % (pre, get, e.cpp), [Val(x.t, E('', put(which, e.f)))], tuple(X.leaves) + tuple(e.leaves))


def buffer_case(name, decl, write, lo, n, want, leaves, raw, extra_out='', extra=()):
    """A buffer of raw symbolic numbers; `write` assigns through a map of n numbers at offset lo."""
    names = ['b%d' % k for k in range(raw)]
    bl = [leaf(nm, 'Tw') for nm in names]
    tot = 6 * raw
    body = ['  double buf[%d];' % tot] + ['  for (int i = 0; i < 6; ++i) buf[%d + i] = b%d.value()[i];' % (6 * k, k) for k in range(raw)]
    body += ['  ' + decl, '  ' + write]
    outs = []
    if extra_out:
        body.append('  ' + extra_out)
        outs += list(extra)
    body.append('  for (int i = 0; i < %d; ++i) vh::st(o, buf[i]);' % tot)
    ident = list(range(lo, lo + n)) if isinstance(n, int) else n

    def f(env):
        flat = [x for nm in names for x in env[nm].v]
        w = want(env, flat) if want else []
        assert not want or len(w) == len(ident)
        for i, v in zip(ident, w):
            flat[i] = v
        return flat
    outs.append(Nodes(tot, f, 'buffer'))
    ls = tuple(l for b in bl for l in b.leaves) + tuple(leaves)
    return Case(name, '\n'.join(body), outs, ls)


def colm(m):
    return [m[i][j] for j in range(3) for i in range(3)]


def flat_rt(m, t):
    return [lift(1 if i == j == 3 else 0) if i == 3 else (m[i][j] if j < 3 else t[i]) for j in range(4) for i in range(4)]


def cases(tier):
    out = []
    for X in RTS:
        x = leaf('x', X)
        y = leaf('y', 'TM')
        v = leaf('v', 'Tr')
        for R in ('RM', 'RQ', 'RA'):
            out.append(part('rot_%s_%s' % (X, R), x, 'R', leaf('r', R)))
            out.append(part('rottmp_%s_%s' % (X, R), x, 'R', leaf('r', R).wrap('vh::cp(%s)')))
        M, Q = leaf('m', 'RM'), leaf('q', 'RQ')
        out.append(part('rotmul_%s' % X, x, 'R', M * Q))
        out.append(part('rotself_%s' % X, x, 'R', x.rot() * Q))
        out.append(part('rotinv_%s' % X, x, 'R', x.rot().inv()))
        out.append(part('rotsame_%s' % X, x, 'R', x.rot().wrap('std::as_const(x).rotation()')))
        out.append(part('rotof_%s' % X, x, 'R', y.rot().wrap('std::as_const(y).rotation()')))
        out.append(part('rotwhole_%s' % X, x, 'R', (x * y).rot()))
        out.append(part('rotexp_%s' % X, x, 'R', leaf('p', 'Rr', 'polarmid').exp()))
        out.append(part('rotstored_%s' % X, x, 'R', (M * x.rot()).wrap('ex'), pre='  auto ex = m * x.rotation();\n'))
        out.append(part('tr_%s' % X, x, 'T', v))
        out.append(part('trtmp_%s' % X, x, 'T', v.wrap('vh::cp(%s)')))
        out.append(part('trsum_%s' % X, x, 'T', x.trans() + v))
        out.append(part('trapply_%s' % X, x, 'T', x * v))
        out.append(part('trself_%s' % X, x, 'T', x.rot() * x.trans()))
        out.append(part('trinv_%s' % X, x, 'T', x.inv().trans()))
        out.append(part('trneg_%s' % X, x, 'T', -x.trans()))
        out.append(part('trof_%s' % X, x, 'T', (y * x).trans()))
        out.append(part('trstored_%s' % X, x, 'T', (x.rot() * v).wrap('ex'), pre='  auto ex = x.rotation() * v;\n'))
        # both parts in turn, through blocks
        out.append(Case('blocks_%s' % X, '''  x.rotationBlock() = q * m; x.translationBlock() = v; vh::st(o, x);
  x.translationBlock() = x.rotation() * x.translation(); vh::st(o, x);''',
                        [Val(X, E('', lambda env: RT(ref.compose(env['q'], env['m']).m, env['v'].v, None))),
                         Val(X, E('', lambda env: RT(ref.compose(env['q'], env['m']).m, ref.apply(ref.compose(env['q'], env['m']), env['v']).v, None)))],
                        x.leaves + M.leaves + Q.leaves + v.leaves))
        # only the named object changes
        out.append(Case('other_%s' % X, '  auto x2 = x; x.rotation() = q; x.translation() = v; vh::st(o, x2); vh::st(o, q); vh::st(o, v); vh::st(o, x);',
                        [Val(X, E('', lambda env: env['x'])), Val('RQ', E('', lambda env: env['q'])), Val(3, E('', lambda env: env['v'])),
                         Val(X, E('', lambda env: RT(env['q'].m, env['v'].v, env['q'].q)))], x.leaves + Q.leaves + v.leaves))
    # twist parts
    p, rr, v = leaf('p', 'Tw'), leaf('r', 'Rr'), leaf('v', 'Tr')
    for nm, cpp, f in [('rot', 'p.rotation() = r;', lambda e: e['r'].v + e['p'].v[3:]),
                       ('rotsum', 'p.rotation() = p.rotation() + r;', lambda e: ref.vadd(e['p'].v[:3], e['r'].v) + e['p'].v[3:]),
                       ('tr', 'p.translation() = v;', lambda e: e['p'].v[:3] + e['v'].v),
                       ('trsub', 'p.translation() = v - p.translation();', lambda e: e['p'].v[:3] + ref.vadd(e['v'].v, ref.vneg(e['p'].v[3:]))),
                       ('both', 'p.translation() = v; p.rotation() = r;', lambda e: e['r'].v + e['v'].v)]:
        out.append(Case('twist_' + nm, '  %s vh::st(o, p);' % cpp, [Val(6, E('', lambda env, f=f: Vec(f(env))))], p.leaves + rr.leaves + v.leaves))
    # maps over memory
    M, Q, N = leaf('m', 'RM'), leaf('q', 'RQ'), leaf('n', 'RM')
    w = leaf('w', 'Tr')
    MM = 'MatrixRotation<Eigen::Map<Eigen::Matrix3d>> a{Eigen::Map<Eigen::Matrix3d>(buf + 2)};'
    B = buffer_case
    out.append(B('map_RM', MM, 'a = m * n;', 2, 9, lambda e, b: colm(ref.compose(e['m'], e['n']).m), M.leaves + N.leaves, 2))
    out.append(B('map_RM_leaf', MM, 'a = m;', 2, 9, lambda e, b: colm(e['m'].m), M.leaves, 2))
    out.append(B('map_RM_q', MM, 'a = q;', 2, 9, lambda e, b: colm(e['q'].m), Q.leaves, 2))
    out.append(B('map_RM_self', MM, 'a = m; a = inverse(a); a = a * n;', 2, 9, lambda e, b: colm(ref.compose(ref.inverse(e['m']), e['n']).m), M.leaves + N.leaves, 2))
    out.append(B('map_RM_use', MM, 'a = m;', 2, 9, lambda e, b: colm(e['m'].m), M.leaves + w.leaves, 2,
                 'vh::sv(o, (a * w).eval()); auto r = (a * w).evalWithJacobians(a, w); vh::st(o, std::get<1>(r)); vh::st(o, std::get<2>(r));',
                 [Val(3, M * w), Jac(M * w, M.leaves[0], 3), Jac(M * w, w.leaves[0], 3)]))
    out.append(B('map_rowmajor', 'MatrixRotation<Eigen::Map<Eigen::Matrix<double, 3, 3, Eigen::RowMajor>>> a{Eigen::Map<Eigen::Matrix<double, 3, 3, Eigen::RowMajor>>(buf + 2)};',
                 'a = m * n;', 2, 9, lambda e, b: [x for r in ref.compose(e['m'], e['n']).m for x in r], M.leaves + N.leaves, 2))
    QQ = 'QuaternionRotation<Eigen::Map<Eigen::Quaterniond>> a{Eigen::Map<Eigen::Quaterniond>(buf + 3)};'

    def qmul(p, q):
        w1, x1, y1, z1 = p
        w2, x2, y2, z2 = q
        return [w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2, w1 * y2 + y1 * w2 + z1 * x2 - x1 * z2, w1 * z2 + z1 * w2 + x1 * y2 - y1 * x2, w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2]
    K = leaf('k', 'RQ')
    out.append(B('map_RQ', QQ, 'a = q;', 3, 4, lambda e, b: [e['q'].q[1], e['q'].q[2], e['q'].q[3], e['q'].q[0]], Q.leaves, 2))
    out.append(B('map_RQ_mul', QQ, 'a = q; a = a * k;', 3, 4, lambda e, b: qmul(e['q'].q, e['k'].q), Q.leaves + K.leaves, 2,
                 'vh::stR(o, RotationQd{inverse(a)});', [Val('R', (Q * K).inv())]))
    for t, c, base in (('Tr', 'Translation', 'Vector3d'), ('Rr', 'RelativeRotation', 'Vector3d'), ('Pt', 'Point', 'Vector3d')):
        dec = lambda k, nm='a', c=c: '%s<Eigen::Map<Eigen::Vector3d>> %s{Eigen::Map<Eigen::Vector3d>(buf + %d)};' % (c, nm, k)
        v = leaf('v', t)
        z = leaf('z', 'Tr')
        out.append(B('map_%s' % t, dec(4), 'a = v;', 4, 3, lambda e, b: e['v'].v, v.leaves, 2))
        if t == 'Pt':
            out.append(B('map_%s_add' % t, dec(4), 'a = a + z;', 4, 3, lambda e, b: ref.vadd(b[4:7], e['z'].v), z.leaves, 2))
        else:
            out.append(B('map_%s_add' % t, dec(4), 'a = v - a;', 4, 3, lambda e, b: ref.vadd(e['v'].v, ref.vneg(b[4:7])), v.leaves, 2))
            out.append(B('map_%s_overlap' % t, dec(4) + ' ' + dec(5, 'c'), 'a = c + a;', 4, 3, lambda e, b: ref.vadd(b[5:8], b[4:7]), (), 2))
            out.append(B('map_%s_overlap2' % t, dec(4) + ' ' + dec(3, 'c'), 'a = -c;', 4, 3, lambda e, b: ref.vneg(b[3:6]), (), 2))
            out.append(B('map_%s_scale' % t, dec(4) + ' Scalar<double> s{buf[0]};', 'a = s * (a + v);', 4, 3, lambda e, b: [b[0] * x for x in ref.vadd(b[4:7], e['v'].v)], v.leaves, 2))
        out.append(B('map_%s_stride' % t, '%s<Eigen::Map<Eigen::Vector3d, 0, Eigen::InnerStride<2>>> a{Eigen::Map<Eigen::Vector3d, 0, Eigen::InnerStride<2>>(buf + 3)};' % c, 'a = v;',
                     0, [3, 5, 7], lambda e, b: e['v'].v, v.leaves, 2))
        out.append(B('cmap_%s' % t, 'const %s<Eigen::Map<const Eigen::Vector3d>> a{Eigen::Map<const Eigen::Vector3d>(buf + 4)};' % c, '%s r{a}; vh::st(o, r);' % TYPES[t][0],
                     0, 0, None, (), 2, ' ', [Nodes(3, lambda e: (e['b0'].v + e['b1'].v)[4:7], 'read')]))
    v = leaf('v', 'Tr')
    m = M
    out.append(B('map_rotate', 'Translation<Eigen::Map<Eigen::Vector3d>> a{Eigen::Map<Eigen::Vector3d>(buf + 4)};', 'a = m * a;', 4, 3,
                 lambda e, b: ref.apply(e['m'], Vec(b[4:7])).v, M.leaves, 2))
    out.append(B('map_Tw', 'Twist<Eigen::Map<Eigen::Matrix<double, 6, 1>>> a{Eigen::Map<Eigen::Matrix<double, 6, 1>>(buf + 3)};', 'a = u + a;', 3, 6,
                 lambda e, b: ref.vadd(e['u'].v, b[3:9]), leaf('u', 'Tw').leaves, 2))
    out.append(B('map_Tw_part', 'Twist<Eigen::Map<Eigen::Matrix<double, 6, 1>>> a{Eigen::Map<Eigen::Matrix<double, 6, 1>>(buf + 3)};', 'a.translation() = v;', 6, 3,
                 lambda e, b: e['v'].v, v.leaves, 2))
    T4 = 'MatrixRigidTransform<Eigen::Map<Eigen::Matrix4d>> a{Eigen::Map<Eigen::Matrix4d>(buf + 1)};'
    x, y = leaf('x', 'TM'), leaf('y', 'TQ')
    out.append(B('map_TM', T4, 'a = x;', 1, 16, lambda e, b: flat_rt(e['x'].m, e['x'].t), x.leaves, 3))
    out.append(B('map_TM_mul', T4, 'a = x; a = a * z;', 1, 16, lambda e, b: flat_rt(ref.compose(e['x'], e['z']).m, ref.compose(e['x'], e['z']).t), x.leaves + leaf('z', 'TM').leaves, 3))
    out.append(B('map_TM_tr', T4, 'a.translation() = v;', 0, [13, 14, 15], lambda e, b: e['v'].v, v.leaves, 3))
    out.append(B('map_TM_rot', T4, 'a.rotation() = q;', 0, [1, 2, 3, 5, 6, 7, 9, 10, 11], lambda e, b: colm(e['q'].m), Q.leaves, 3))
    CQ = 'CompactRigidTransform<Eigen::Map<Eigen::Quaterniond>, Eigen::Map<Eigen::Vector3d>> a{Eigen::Map<Eigen::Quaterniond>(buf + 7), Eigen::Map<Eigen::Vector3d>(buf + 1)};'
    qv = lambda q: [q[1], q[2], q[3], q[0]]
    out.append(B('map_TQ_tr', CQ, 'a.translation() = v;', 0, [1, 2, 3], lambda e, b: e['v'].v, v.leaves, 2))
    out.append(B('map_TQ_rot', CQ, 'a.rotation() = q;', 0, [7, 8, 9, 10], lambda e, b: qv(e['q'].q), Q.leaves, 2))
    # blocks of a larger matrix
    out.append(B('block_Tr', 'Eigen::Map<Eigen::Matrix<double, 4, 6>> g(buf); using Bl = Eigen::Block<Eigen::Map<Eigen::Matrix<double, 4, 6>>, 3, 1>; Translation<Bl> a{Bl(g, 1, 2)};',
                 'a = m * v;', 0, [9, 10, 11], lambda e, b: ref.apply(e['m'], e['v']).v, M.leaves + v.leaves, 4))
    out.append(B('block_RM', 'Eigen::Map<Eigen::Matrix<double, 4, 6>> g(buf); using Bl = Eigen::Block<Eigen::Map<Eigen::Matrix<double, 4, 6>>, 3, 3>; MatrixRotation<Bl> a{Bl(g, 1, 2)};',
                 'a = m * q;', 0, [9, 10, 11, 13, 14, 15, 17, 18, 19], lambda e, b: colm(ref.compose(e['m'], e['q']).m), M.leaves + Q.leaves, 4))
    return out
