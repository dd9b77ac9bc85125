"""Conversions between representations keep the rotation or transform."""
from engine.case import *

PROPERTY = 'C20'
LEVEL = 'model_checking'
BOUNDS = 'every ordered pair of rotation representations and of transform representations; construction, assignment, initialisation from composed and inverted expressions, from parts and from Eigen objects; all rotations (unit quaternion) and transforms'
OUTSIDE = 'input matrices and quaternions that are not exact rotations; conversions to angle-axis for rotation angles below 6e-12'
PER_TU = 4
BUDGET = 40
ROTS = ['RM', 'RQ', 'RA']
RTS = ['TM', 'TQ']


def conv(name, target, e, form, **kw):
    c = TYPES[target][0]
    body = {'init': '  %s res(%s);' % (c, e.cpp),
            'brace': '  %s res{%s};' % (c, e.cpp),
            'assign': '  %s res; res = %s;' % (c, e.cpp),
            'over': '  %s res = vh::ld<%s>(in); res = %s;' % (c, c, e.cpp),
            }[form] + '\n  vh::st(o, res);'
    return Case(name, body, [Val(target, e)], e.leaves, **kw)


def cases(tier):
    out = []
    for y in ROTS:
        for x in ROTS:
            A, B = leaf('a', x), leaf('b', x)
            if y == 'RA' != x:
                for md in ('axangmid', 'axangmid-neg')[:1 if x == 'RM' else 2]:
                    for f in ('init', 'assign'):
                        out.append(conv('%s_%s_%s_%s' % (f, y, x, md[8:]), y, leaf('a', x, md), f))
            else:
                for f in ('init', 'assign'):
                    out.append(conv('%s_%s_%s' % (f, y, x), y, A, f))
            if y != 'RA':
                out.append(conv('inv_%s_%s' % (y, x), y, A.inv(), 'init'))
                out.append(conv('mul_%s_%s' % (y, x), y, A * B, 'assign'))
        if y != 'RA':
            out.append(conv('mixmul_%s' % y, y, leaf('a', 'RQ') * leaf('b', 'RM'), 'init'))
            out.append(conv('exp_%s' % y, y, leaf('p', 'Rr', 'polar').exp(), 'init'))
            for x in RTS:
                out.append(conv('part_%s_%s' % (y, x), y, leaf('x', x).rot(), 'init'))
                out.append(conv('parta_%s_%s' % (y, x), y, leaf('x', x).rot(), 'assign'))
        # from Eigen objects
        for x in ROTS:
            A = leaf('a', x, 'axangmid' if y == 'RA' != x else None)
            out.append(conv('eig_%s_%s' % (y, x), y, A.wrap('%s.value()'), 'brace'))
    for y in RTS:
        for x in RTS:
            A, B = leaf('a', x), leaf('b', x)
            for f in ('init', 'assign'):
                out.append(conv('%s_%s_%s' % (f, y, x), y, A, f))
            out.append(conv('inv_%s_%s' % (y, x), y, A.inv(), 'init'))
            out.append(conv('mul_%s_%s' % (y, x), y, A * B, 'assign'))
        v = leaf('v', 'Tr')
        for x in ROTS:
            R = leaf('r', x)
            both = lambda env: RT(env['r'].m, env['v'].v, env['r'].q)
            ls = R.leaves + v.leaves
            out.append(conv('parts_%s_%s' % (y, x), y, E('r, v', both, ls), 'brace'))
            if x == 'RM':
                out.append(conv('eparts_%s_%s' % (y, x), y, E('r.value(), v.value()', both, ls), 'brace'))
            elif True:
                out.append(conv('eparts_%s_%s' % (y, x), y, E('r.value(), v.value()', both, ls), 'brace'))
        for x, c in (('RQ', 'Eigen::Quaterniond'), ('RA', 'Eigen::AngleAxisd')):
            R = leaf('r', x)
            out.append(conv('bparts_%s_%s' % (y, x), y, E('static_cast<const Eigen::RotationBase<%s, 3> &>(r.value()), static_cast<const Eigen::MatrixBase<Eigen::Vector3d> &>(v.value())' % c,
                                                          lambda env: RT(env['r'].m, env['v'].v, env['r'].q), R.leaves + v.leaves), 'brace'))
        R, S, w = leaf('r', 'RM'), leaf('s', 'RQ'), leaf('w', 'Tr')
        out.append(conv('xparts_%s' % y, y, E('r * s, v - r * w', lambda env: RT(ref.compose(env['r'], env['s']).m, ref.vadd(env['v'].v, ref.vneg(ref.apply(env['r'], env['w']).v)), None),
                                               R.leaves + S.leaves + v.leaves + w.leaves), 'brace'))
        T = leaf('x', 'TQ')
        out.append(conv('swapparts_%s' % y, y, E('x.rotation(), x.translation()', lambda env: env['x'], T.leaves), 'brace'))
        out.append(conv('exp_%s' % y, y, leaf('p', 'Tw', 'polar').exp(), 'init'))
    X = leaf('x', 'TM')
    out.append(conv('eig4', 'TM', X.wrap('Eigen::Matrix4d(%s.value())'), 'brace'))
    # vectors: construction from numbers, matrices, parts
    p, s = leaf('p', 'Tr'), leaf('s', 'Sc')
    vec = lambda env: env['p']
    for t in ('Tr', 'Rr', 'Pt'):
        c = TYPES[t][0]
        l = leaf('p', t)
        out.append(Case('nums_' + t, '  %s r{p.value()[0], p.value()[1], p.value()[2]}; vh::st(o, r); %s r2{p.value()}; vh::st(o, r2); %s r3{p.value() + p.value()}; vh::st(o, r3);' % (c, c, c),
                        [Val(3, E('', vec, l.leaves)), Val(3, E('', vec, l.leaves)), Val(3, E('', lambda env: Vec(ref.vadd(env['p'].v, env['p'].v)), l.leaves))], l.leaves))
    tw = leaf('p', 'Tw')
    out.append(Case('twist_parts', '''  Twistd a{p.value()}; vh::st(o, a);
  Twistd b{p.value().head<3>(), p.value().tail<3>()}; vh::st(o, b);

  vh::st(o, p.rotation().value()); vh::st(o, p.translation().value());''',
                    [Val(6, E("", vec)), Val(6, E("", vec)), Val(6, E('', vec))], tw.leaves))
    th, ax = leaf('t', 'dbl'), leaf('p', 'Tr')

    def faa(env):
        n = ref.dsqrt(ref.dot(env['p'].v, env['p'].v))
        return Vec([env['t'].v[0] * x / n for x in env['p'].v])
    out.append(Case('angle_axis', '''  auto r = RelativeRotationd::FromAngleAndAxis(t, p.value()); vh::st(o, r);
  RelativeRotationd r2; r2.setFromAngleAndAxis(t, p.value()); vh::st(o, r2);''', [Val(3, E('', faa)), Val(3, E('', faa))], th.leaves + ax.leaves, extra=lambda sp, env: sp.nonzero_vec(env['p'])))
    return out
