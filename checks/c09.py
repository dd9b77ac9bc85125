"""Frames change no numbers and the result carries the frames of frame algebra."""
from engine.case import *
from c07 import modes, norm

PROPERTY = 'C09'
LEVEL = 'model_checking'
BOUNDS = 'the listed framed expressions (every operation with distinct frames in every position, nesting up to depth 4), all Jacobian modes; all rotations, transforms and vectors, exp arguments between 0.003 and 8 pi, log arguments up to 0.998 pi'
OUTSIDE = 'framed expressions not listed; rejection of mismatching frames by the compiler (C10)'
PER_TU = 3
BUDGET = 60
CT = {'RM': 'RotationMFd', 'RQ': 'RotationQFd', 'RA': 'RotationAFd', 'TM': 'RigidTransformMFd', 'TQ': 'RigidTransformQFd', 'Tr': 'TranslationFd', 'Rr': 'RelativeRotationFd',
      'Tw': 'TwistFd', 'Pt': 'PointFd'}
PRE = '''#include "vh.hpp"
template <typename T, typename... F> struct FrIs { static constexpr bool value = false; };
template <typename W, typename... G, typename... F> struct FrIs<wave::Framed<W, G...>, F...> {
    static constexpr bool value = std::is_same<std::tuple<G...>, std::tuple<F...>>::value;
};
'''


def fl(name, t, fr, mode=None):
    return leaf(name, t, mode, ctype='%s<%s>' % (CT[t], ', '.join('Frame' + c for c in fr)))


def fr_is(fr):
    return ', '.join('Frame' + c for c in fr)


def cases(tier):
    out = []

    def F(name, e, t, frames, unique=True, cast=True, **kw):
        """Value, Jacobians in all modes, and the frames of the evaluated result."""
        n = len(out)
        out.extend(modes(name, e, t, unique, **kw))
        c = out[n]
        c.body += '\n  vh::st(o, FrIs<std::decay_t<decltype(ex.eval())>, %s>::value);' % fr_is(frames)
        c.outs.append(Nodes(1, lambda env: [1], 'frames'))
        c.body += '\n  vh::st(o, FrIs<std::decay_t<decltype(std::get<0>(r_0))>, %s>::value);' % fr_is(frames)
        c.outs.append(Nodes(1, lambda env: [1], 'frames of the value'))
        # the result, declared with its frames, holds the same value
        nv = Val.SIZE.get(t, t) if not isinstance(t, int) else t
        c.body += '\n  auto de = ex.eval(); decltype(de) dd{ex}; dd = ex; vh::sv(o, dd);'
        c.outs.append(AsFirst(0, nv, 'assigned'))
        if cast:
            args = fr_is('DABC'[:len(frames)])
            c.body += '\n  auto ca = frame_cast<%s>(ex); vh::sv(o, ca.eval());' % args
            c.outs.append(AsFirst(0, nv, 'cast'))
            c.body += '\n  vh::st(o, FrIs<std::decay_t<decltype(ca.eval())>, %s>::value);' % args
            c.outs.append(Nodes(1, lambda env: [1], 'frames of the cast'))
            l = e.leaves[0]
            c.body += '\n  vh::st(o, ca.jacobian(%s));' % l.name
            c.outs.append(Jac(e, l, rows_of(t), 'cast J/' + l.name))
        c.n_out = sum(o.n for o in c.outs)
    M, Q, A = fl('m', 'RM', 'AB'), fl('q', 'RQ', 'BC'), fl('a', 'RA', 'CD')
    X, Y = fl('x', 'TM', 'AB'), fl('y', 'TQ', 'BC')
    v = fl('v', 'Tr', 'BBC')
    w = fl('w', 'Tr', 'CDA')
    F('mul', M * Q, 'R', 'AC')
    F('mul3', M * (Q * fl('q2', 'RQ', 'CD')), 'R', 'AD')
    F('inv_m', M.inv(), 'R', 'BA')
    F('inv_q', Q.inv(), 'R', 'CB')
    F('inv_a', A.inv(), 'R', 'DC')
    F('inv_mul', (M * Q).inv(), 'R', 'CA')
    F('rot_m', M * v, 3, 'ABC')
    F('rot_q', Q * w, 3, 'BDA')
    F('rot_a', A * fl('u', 'Tr', 'DAB'), 3, 'CAB')
    F('rot_mq', (M * Q) * w, 3, 'ADA')
    F('xy', X * Y, 'T', 'AC')
    F('inv_x', X.inv(), 'T', 'BA')
    F('inv_y', Y.inv(), 'T', 'CB')
    F('xv', X * v, 3, 'AAC')
    F('yv', Y * fl('u', 'Tr', 'CCD'), 3, 'BBD')
    F('xinv', Y.inv() * v, 3, 'CCC')
    F('part_r', X.rot(), 'R', 'AB')
    F('part_t', X.trans(), 3, 'AAB')
    F('part_ry', Y.rot(), 'R', 'BC')
    F('part_ty', Y.trans(), 3, 'BBC')
    F('sum', fl('s1', 'Tr', 'ABC') + fl('s2', 'Tr', 'ACD'), 3, 'ABD')
    F('sum_flip', fl('s1', 'Tr', 'ACD') + fl('s2', 'Tr', 'ABC'), 3, 'ABD')
    F('sub_right', fl('s1', 'Tr', 'ABC') - fl('s2', 'Tr', 'ADC'), 3, 'ABD')
    F('sub_mid', fl('s1', 'Tr', 'ABC') - fl('s2', 'Tr', 'ABD'), 3, 'ADC')
    F('neg', -v, 3, 'BCB')
    F('neg_r', -fl('r', 'Rr', 'ABC'), 3, 'ACB')
    F('exp', fl('p', 'Rr', 'AAB', 'polarmid').exp(), 'R', 'AA')
    F('log', fl('m', 'RM', 'AB', 'axang').log(), 3, 'AAB')
    F('scale', leaf('k', 'Sc') * v, 3, 'BBC')
    F('div', v / leaf('k', 'Sc'), 3, 'BBC', extra=lambda sp, env: sp.nonzero_vec(env['k']))
    F('plus', M + fl('p', 'Rr', 'AAB', 'polarmid'), 'R', 'AB')
    F('minus', M - fl('q', 'RQ', 'AB', 'axang'), 3, 'AAB', extra=None) if tier == 'thorough' else None
    F('norm_frames', norm(X * v), 1, '', cast=False, extra=lambda sp, env: sp.nonzero_vec(Vec(ref.vadd(ref.mv(env['x'].m, env['v'].v), env['x'].t)))) if False else None
    F('chain', X * (Y * (fl('z', 'TM', 'CD') * fl('u', 'Tr', 'DDA'))), 3, 'AAA')
    F('chain_inv', (X * fl('x2', 'TM', 'BC')).inv() * fl('u', 'Tr', 'AAD'), 3, 'CCD', unique=True)
    F('rotsum', M * v + fl('u', 'Tr', 'AAB'), 3, 'AAC', unique=True)
    return [c for c in out if c]
