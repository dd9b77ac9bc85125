"""Dynamic and proxy expressions mean what the wrapped expressions mean, through copies and rebinding."""
from engine.case import *
from c07 import norm, scal

PROPERTY = 'C11'
LEVEL = 'model_checking'
MODE = 'mem'
BOUNDS = 'the listed wrapped expressions (depth up to 4), nested up to three proxies deep, and rebinding histories of up to three steps; every evaluation mode; all input values; every access checked against the lifetime of the object'
OUTSIDE = 'wrapped expressions not listed; finite-difference Jacobians'
PER_TU = 2
BUDGET = 100
PRE = r'''
template <typename P> using lam = decltype(std::declval<P>().eval());
template <typename E> auto px(E &&e) { return makeProxy(std::forward<E>(e)); }
template <int R, int C, typename M> void at(vh::O &o, const M &r, const void *k) { vh::st(o, Eigen::Matrix<double, R, C>{r.second.at(k)}); }
'''


def prog(name, lines, outs, leaves, **kw):
    return Case(name, '\n'.join('  ' + l for l in lines), outs, leaves, **kw)


def allmodes(name, pre, x, e, t, wrt=(), rvs=True, more=()):
    """Everything that can be asked of the C++ expression x, whose meaning is e."""
    ls = list({l.name: l for l in e.leaves}.values())
    rows, nv = rows_of(t), Val.SIZE.get(t, t) if not isinstance(t, int) else t
    tg = [(l.name, l) for l in ls if not l.name.endswith('_')]
    args = ', '.join(a for a, _ in tg)
    b = list(pre) + ['vh::sv(o, %s.eval());' % x, 'auto r0 = %s.evalWithJacobians(%s);' % (x, args), 'vh::sv(o, std::get<0>(r0));']
    o = [Val(t, e), AsFirst(0, nv, 'forward value')]
    k, at = 2 * nv, {}
    for i, (n, l) in enumerate(tg):
        b.append('vh::st(o, std::get<%d>(r0));' % (i + 1))
        o.append(Jac(e, l, rows))
        at[n] = k
        k += rows * tangent(l)
    for n, l in tg:
        b.append('vh::st(o, %s.jacobian(%s));' % (x, n))
        o.append(AsFirst(at[n], rows * tangent(l), 'jacobian() J/%s' % n))
    b += ['auto r1 = internal::evaluateWithDynamicJacobians(%s, %s);' % (x, args), 'vh::sv(o, std::get<0>(r1));']
    o.append(AsFirst(0, nv, 'dynamic value'))
    for i, (n, l) in enumerate(tg):
        b.append('vh::st(o, std::get<%d>(r1));' % (i + 1))
        o.append(AsFirst(at[n], rows * tangent(l), 'dynamic J/%s' % n))
    if rvs:
        b += ['auto r2 = internal::evaluateWithDynamicReverseJacobians(%s);' % x, 'vh::sv(o, r2.first);']
        o.append(AsFirst(0, nv, 'dynamic reverse value'))
        for n, l in tg:
            b.append('at<%d, %d>(o, r2, &%s);' % (rows, tangent(l), n))
            o.append(AsFirst(at[n], rows * tangent(l), 'dynamic reverse J/%s' % n))
    return prog(name, b, o + list(more), e.leaves)


def cases(tier):
    out = []
    M, Q, A = leaf('m', 'RM'), leaf('q', 'RQ'), leaf('a', 'RA')
    X, Y = leaf('x', 'TM'), leaf('y', 'TQ')
    v, w = leaf('v', 'Tr'), leaf('w', 'Tr')
    p = leaf('p', 'Rr', 'polarmid')
    s = leaf('s', 'Sc')
    W = lambda n, e, t, **k: (out.append(allmodes('proxy_' + n, ['const auto P = px(%s);' % e.cpp], 'P', e, t, **k)),
                              out.append(allmodes('dyn_' + n, ['const auto D = makeDynamic(%s);' % e.cpp, 'const auto P = ref(D);'], 'P', e, t, **k)),
                              out.append(allmodes('plain_' + n, ['const auto D = makeDynamic(%s);' % e.cpp], 'D', e, t, **k)))
    H = lambda n, lines, outs, leaves, **k: out.append(prog(n, lines, outs, [l for x in leaves for l in x.leaves], **k))
    th = tier == 'thorough'
    W('mv', M * v, 3)
    W('aqv', A.inv() * Q * v, 3)
    W('xyv', X * Y * v + w, 3)
    W('mm', M * Q.inv() * M, 'R')
    W('exp', p.exp() * Q, 'R')
    W('scale', s * (v - Q * v), 3)
    W('parts', X.rot() * X.trans(), 3)
    if th:
        W('log', leaf('y', 'TQ', 'axang').rot().log(), 3)
        W('invx', (X * Y).inv(), 'T')
    # what an expression built from proxies means
    P, O = (lambda n, e: 'auto %s = px(%s);' % (n, e.cpp)), (lambda n, e: e.wrap(n))
    R3 = lambda n: E(n, None, ())
    out.append(allmodes('use_left', [P('B', M * Q)], '(B * v)', E('(B * v)', (M * Q * v).f, (M * Q * v).leaves), 3))
    out.append(allmodes('use_both', [P('B', M * Q), P('C', Q * v)], '(B * C + C)', E('', (M * Q * (Q * v) + Q * v).f, (M * Q * v).leaves), 3))
    out.append(allmodes('use_twice', [P('B', A * M)], '(B * B.inverse() * B * v)' if False else '(B * inverse(B) * B * v)',
                        E('', (A * M * (A * M).inv() * (A * M) * v).f, (A * M * v).leaves), 3))
    out.append(allmodes('nest', [P('B', M * v), 'auto C = px(q * B);', 'auto D = px(x * C);'], 'D', E('', (X * (Q * (M * v))).f, (X * Q * M * v).leaves), 3))
    out.append(allmodes('nest_sum', [P('B', M * v), 'auto C = px(B + v);', 'auto D = px(B - q * C);'], 'D',
                        E('', (M * v - Q * (M * v + v)).f, (M * Q * v).leaves), 3))
    out.append(allmodes('ref_nest', ['auto b = makeDynamic(M_);'.replace('M_', (M * v).cpp), 'auto B = ref(b);', 'auto c = makeDynamic(q * B);', 'auto C = ref(c);', 'auto d = makeDynamic(C + B);', 'auto D = ref(d);'],
                        'D', E('', (Q * (M * v) + M * v).f, (M * Q * v).leaves), 3))
    out.append(allmodes('mixed', ['auto b = makeDynamic(inverse(m) * v);', 'auto B = ref(b);', 'auto C = px(y * B);'], '(C - B)',
                        E('', (Y * (M.inv() * v) - M.inv() * v).f, (Y * M * v).leaves), 3))
    # Jacobians with respect to an intermediate proxy: the derivative for a change of its value
    z = leaf('z_', 'Tr')

    def wrt(name, pre, x, e, t, inter, it, val, leaves, arg=None):
        """inter: proxy variable; e in terms of an auxiliary leaf whose value is val."""
        l = leaf('iz', it).leaves[0]
        rows = rows_of(t)

        def f(env):
            base = val.f(env)
            env2 = dict(env)
            env2['iz'] = base
            return e.f(env2)
        n = tangent(l)
        outs = []
        b = list(pre)
        for txt in ('std::get<1>(%s.evalWithJacobians(%s))' % (x, inter), 'std::get<1>(internal::evaluateWithDynamicJacobians(%s, %s))' % (x, inter)):
            b.append('vh::st(o, %s);' % txt)
            outs.append(Nodes(rows * n, lambda env: colmaj(env, e, val, it), 'J/' + inter))
        out.append(prog(name, b, outs, [q for y in leaves for q in y.leaves]))

    def colmaj(env, e, val, it):
        base = val.f(env)
        cols = []
        if it == 'Tr':
            from engine.ref import Vec
            for k in range(3):
                v2 = Vec([D(lift(c).v, {('iz', k): dag.ONE if i == k else dag.ZERO}) for i, c in enumerate(base.v)])
                r = e.f(dict(env, iz=v2))
                cols += [dpart(c, ('iz', k)).v for c in r.v]
        return cols
    out_z = leaf('iz', 'Tr')
    wrt('wrt_vec', ['auto B = px(m * v);', 'auto C = px(q * B);'], 'C', Q * out_z, 3, 'B', 'Tr', M * v, [M, Q, v])
    wrt('wrt_vec2', ['auto B = px(m * v);', 'auto C = px(q * B + B);', 'auto D = px(x * C);'], 'D', X * (Q * out_z + out_z), 3, 'B', 'Tr', M * v, [M, Q, X, v])
    wrt('wrt_vec3', ['auto B = px(m * v);', 'auto C = px(q * B + B);', 'auto D = px(x * C + B);'], 'D', X * out_z + M * v, 3, 'C', 'Tr', Q * (M * v) + M * v, [M, Q, X, v])
    wrt('wrt_ref', ['auto b = makeDynamic(m * v);', 'auto B = ref(b);', 'auto C = px(q * B - v);'], 'C', Q * out_z - v, 3, 'B', 'Tr', M * v, [M, Q, v])
    wrt('wrt_ref_dyn', ['auto b = makeDynamic(m * v);', 'auto B = ref(b);', 'auto C = px(q * B - v);'], 'C', Q * out_z - v, 3, 'b', 'Tr', M * v, [M, Q, v])
    # rebinding histories
    H('rebind', ['Proxy<Translationd> P = m * v;', 'auto e = q * P;', 'vh::sv(o, e.eval());', 'P = q * w;', 'vh::sv(o, P.eval());', 'vh::sv(o, e.eval());', 'auto e2 = q * P;', 'vh::sv(o, e2.eval());', 'vh::st(o, e2.jacobian(w));', 'vh::st(o, e2.jacobian(q));'],
      [Val(3, Q * (M * v), 'before'), Val(3, Q * w, 'rebound'), Val(3, Q * (M * v), 'kept by expression'), Val(3, Q * (Q * w), 'new expression'),
       Jac(Q * (Q * w), w.leaves[0], 3), Jac(Q * (Q * w), Q.leaves[0], 3)], [M, Q, v, w])
    H('copies', ['Proxy<Translationd> P = m * v;', 'auto P2 = P;', 'P = x * P2;', 'auto P3 = P;', 'P = P3 - P2;', 'vh::sv(o, P.eval());', 'vh::sv(o, P2.eval());', 'vh::sv(o, P3.eval());', 'vh::st(o, P.jacobian(v));', 'vh::st(o, P.jacobian(x));', 'vh::st(o, P2.jacobian(v));'],
      [Val(3, X * (M * v) - M * v, 'P'), Val(3, M * v, 'P2'), Val(3, X * (M * v), 'P3'), Jac(X * (M * v) - M * v, v.leaves[0], 3), Jac(X * (M * v) - M * v, X.leaves[0], 3), Jac(M * v, v.leaves[0], 3)], [M, X, v])
    H('self', ['Proxy<Translationd> P = vh::cp(v);', 'P = q * P;', 'P = m * P;', 'P = P + P;', 'vh::sv(o, P.eval());', 'vh::st(o, P.jacobian(q));', 'vh::st(o, P.jacobian(m));'],
      [Val(3, M * (Q * v) + M * (Q * v)), Jac(M * (Q * v) + M * (Q * v), Q.leaves[0], 3), Jac(M * (Q * v) + M * (Q * v), M.leaves[0], 3)], [M, Q, v])
    H('moved', ['Proxy<Translationd> P = m * v;', 'auto P2 = std::move(P);', 'Proxy<Translationd> P3 = q * w;', 'P3 = std::move(P2);', 'vh::sv(o, P3.eval());', 'vh::st(o, P3.jacobian(m));'],
      [Val(3, M * v), Jac(M * v, M.leaves[0], 3)], [M, Q, v, w])
    H('scope', ['auto make = [&] { auto B = px(m * v); auto C = px(q * B); { auto D = px(C + B); B = px(vh::cp(w)); C = D; } return C; };', 'auto P = make();', 'vh::sv(o, P.eval());', 'vh::st(o, P.jacobian(m));', 'vh::st(o, P.jacobian(q));'],
      [Val(3, Q * (M * v) + M * v), Jac(Q * (M * v) + M * v, M.leaves[0], 3), Jac(Q * (M * v) + M * v, Q.leaves[0], 3)], [M, Q, v, w])
    H('temps', ['auto P = [&] { auto m1 = m; return px(vh::cp(m1) * (vh::cp(q) * vh::cp(v))); }();', 'auto P2 = P;', 'vh::sv(o, P2.eval());', 'vh::sv(o, P.eval());'],
      [Val(3, M * (Q * v)), Val(3, M * (Q * v))], [M, Q, v])
    # the wrapped expression sees the current value of the objects it names
    NM = leaf('n', 'RM')
    H('track', ['auto P = px(m * v);', 'auto P2 = P;', 'auto e = q * P;', 'vh::sv(o, P.eval());', 'v = w;', 'vh::sv(o, P.eval());', 'vh::sv(o, P2.eval());', 'vh::sv(o, e.eval());', 'vh::st(o, e.jacobian(m));', 'm = n;', 'vh::st(o, P2.jacobian(m));', 'vh::sv(o, e.eval());'],
      [Val(3, M * v, 'before'), Val(3, M * w, 'after'), Val(3, M * w, 'copy'), Val(3, Q * (M * w), 'expression'), Jac(Q * (M * w), M.leaves[0], 3),
       Jac(NM * w, NM.leaves[0], 3), Val(3, Q * (NM * w), 'last')], [M, Q, v, w, NM])
    H('track_ref', ['auto d = makeDynamic(m * v);', 'auto P = ref(d);', 'auto P2 = P;', 'auto c = makeDynamic(q * P);', 'P = ref(c);', 'vh::sv(o, P.eval());', 'vh::sv(o, P2.eval());', 'v = w;', 'vh::sv(o, P.eval());', 'vh::sv(o, P2.eval());', 'vh::st(o, P.jacobian(m));', 'P = P2;', 'vh::sv(o, P.eval());'],
      [Val(3, Q * (M * v)), Val(3, M * v), Val(3, Q * (M * w)), Val(3, M * w), Jac(Q * (M * w), M.leaves[0], 3), Val(3, M * w)], [M, Q, v, w])
    H('two', ['auto P = px(m * v);', 'auto P2 = px(m * v);', 'auto e = P - q * P2;', 'vh::sv(o, e.eval());', 'vh::st(o, std::get<1>(e.evalWithJacobians(P)));', 'vh::st(o, std::get<1>(e.evalWithJacobians(P2)));', 'P2 = P;', 'auto f = P - q * P2;', 'vh::st(o, std::get<1>(f.evalWithJacobians(P)));', 'vh::st(o, std::get<1>(f.evalWithJacobians(P2)));'],
      [Val(3, M * v - Q * (M * v)), Nodes(9, lambda env: eye9(), 'J/P'), Nodes(9, lambda env: negq(env, 0), 'J/P2'), Nodes(9, lambda env: negq(env, 1), 'J/P rebound'), Nodes(9, lambda env: negq(env, 1), 'J/P2 rebound')], [M, Q, v])
    N = leaf('n', 'RQ')
    H('vector', ['std::vector<Proxy<RotationQd>> r;', 'r.emplace_back(vh::cp(q));', 'r.emplace_back(r[0] * n);', 'r.emplace_back(r[1] * inverse(r[0]));', 'Proxy<Translationd> t = vh::cp(v);', 'for (auto &k : r) t = k * t;', 'vh::sv(o, t.eval());', 'vh::st(o, t.jacobian(n));'],
      [Val(3, (Q * N * Q.inv()) * ((Q * N) * (Q * v))), Jac((Q * N * Q.inv()) * ((Q * N) * (Q * v)), N.leaves[0], 3)], [Q, N, v])
    return out


def eye9():
    return [ref.lift(1 if i == j else 0) for j in range(3) for i in range(3)]


def negq(env, add):
    m = env['q'].m
    return [ref.lift(add if i == j else 0) - D(lift(m[i][j]).v) for j in range(3) for i in range(3)]
