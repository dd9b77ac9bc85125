"""Arithmetic on vectors, points and scalars is componentwise real arithmetic."""
from engine.case import *
from c07 import modes, fn, norm, scal

PROPERTY = 'C14'
LEVEL = 'model_checking'
BOUNDS = 'the listed expressions (each operation with named and temporary operands and with plain numbers, nesting up to depth 6); all real components, nonzero divisors and norms'
OUTSIDE = 'expressions not listed; single precision (C24)'
PER_TU = 5
BUDGET = 40
VEC = {'Tr': 3, 'Rr': 3, 'Tw': 6, 'Sc': 1}


def vec(f):
    return lambda env: keepv(f(env))


def keepv(x):
    return x if isinstance(x, Vec) else Vec(x)


def lin(name, f, n, leaves, forms, **kw):
    """Every form (C++ text) evaluates to f(env)."""
    body = []
    outs = []
    for i, t in enumerate(forms):
        body.append('  { auto ex = %s; vh::sv(o, ex.eval()); std::decay_t<decltype(ex.eval())> y{ex}; y = ex; vh::sv(o, y); }' % t)
        outs += [Val(n, vec(f), t), Val(n, vec(f), t + ' assigned')]
    return Case(name, '\n'.join(body), outs, leaves, **kw)


def two(op, a, b):
    """Operand forms: named and temporary."""
    return [op % (x, y) for x in (a, 'vh::cp(%s)' % a) for y in (b, 'vh::cp(%s)' % b)]


def one(op, a):
    return [op % a, op % ('vh::cp(%s)' % a)]


def cases(tier):
    out = []
    d, k = leaf('d', 'dbl').leaves[0], leaf('k', 'Sc').leaves[0]
    nz = lambda *ns: lambda sp, env: [sp.nonzero_vec(env[n]) for n in ns]
    for t, n in VEC.items():
        a, b = leaf('a', t).leaves[0], leaf('b', t).leaves[0]
        V = lambda env, x: env[x].v
        A = lambda nm, f, ls, forms, m=n, **kw: out.append(lin('%s_%s' % (nm, t), f, m, ls, forms, **kw))
        A('sum', lambda e: [x + y for x, y in zip(e['a'].v, e['b'].v)], [a, b], two('(%s + %s)', 'a', 'b'))
        A('sub', lambda e: [x - y for x, y in zip(e['a'].v, e['b'].v)], [a, b], two('(%s - %s)', 'a', 'b'))
        A('neg', lambda e: [-x for x in e['a'].v], [a], one('(-%s)', 'a'))
        A('scale', lambda e: [e['k'].v[0] * x for x in e['a'].v], [a, k], two('(%s * %s)', 'a', 'k') + two('(%s * %s)', 'k', 'a'))
        A('div', lambda e: [x / e['k'].v[0] for x in e['a'].v], [a, k], two('(%s / %s)', 'a', 'k'), extra=nz('k'))
        A('dscale', lambda e: [e['d'].v[0] * x for x in e['a'].v], [a, d], two('(%s * %s)', 'a', 'd') + two('(%s * %s)', 'd', 'a'))
        A('ddiv', lambda e: [x / e['d'].v[0] for x in e['a'].v], [a, d], two('(%s / %s)', 'a', 'd'), extra=nz('d'))
        A('lit', lambda e: [x * Fraction(5, 2) for x in e['a'].v], [a], ['(a * 2.5)', '(2.5 * a)', '(vh::cp(a) * 2.5)', '(a / 0.4)', '(5 * a / 2)', '(a * 5.f / 2.f)', '((5 * a) * 0.5)'])
        A('nest', lambda e: [(x + y) - e['k'].v[0] * (x - e['d'].v[0] * y) for x, y in zip(e['a'].v, e['b'].v)], [a, b, k, d],
          ['((a + b) - k * (a - d * b))', '((a + b) - (a - b * d) * k)', '(-(k * (a + -(d * b))) + (b + a))', '((vh::cp(a) + b) - k * (a - vh::cp(b) * d))'])
        if t == 'Sc':
            continue
        A('norm', lambda e: [ref.dsqrt(ref.dot(e['a'].v, e['a'].v))], [a], one('%s.norm()', 'a'), m=1, extra=nz('a'))
        A('sqn', lambda e: [ref.dot(e['a'].v, e['a'].v)], [a], one('%s.squaredNorm()', 'a'), m=1)
        A('dot', lambda e: [ref.dot(e['a'].v, e['b'].v)], [a, b], two('dot(%s, %s)', 'a', 'b'), m=1)
        A('normalized', lambda e: [x / ref.dsqrt(ref.dot(e['a'].v, e['a'].v)) for x in e['a'].v], [a], one('%s.normalized()', 'a'), extra=nz('a'))
    p, q = leaf('p', 'Pt').leaves[0], leaf('q', 'Pt').leaves[0]
    v, w = leaf('v', 'Tr').leaves[0], leaf('w', 'Tr').leaves[0]
    add = lambda x, y: [a + b for a, b in zip(x, y)]
    sub = lambda x, y: [a - b for a, b in zip(x, y)]
    out.append(lin('pt_plus', lambda e: add(e['p'].v, e['v'].v), 3, [p, v], two('(%s + %s)', 'p', 'v') + two('(%s + %s)', 'v', 'p')))
    out.append(lin('pt_minus_v', lambda e: sub(e['p'].v, e['v'].v), 3, [p, v], two('(%s - %s)', 'p', 'v')))
    out.append(lin('pt_minus', lambda e: sub(e['p'].v, e['q'].v), 3, [p, q], two('(%s - %s)', 'p', 'q')))
    out.append(lin('pt_nest', lambda e: add(e['q'].v, sub(e['p'].v, e['q'].v)), 3, [p, q], ['(q + (p - q))', '((p - q) + q)', '(p + ((p - q) - (p - q)))']))
    # scalars
    s, t = leaf('s', 'Sc').leaves[0], leaf('t', 'Sc').leaves[0]
    X = lambda e, n: e[n].v[0]
    S = lambda nm, f, ls, forms, **kw: out.append(lin('sc_' + nm, lambda e: [f(e)], 1, ls, forms, **kw))
    S('prod', lambda e: X(e, 's') * X(e, 't'), [s, t], two('(%s * %s)', 's', 't'))
    S('quot', lambda e: X(e, 's') / X(e, 't'), [s, t], two('(%s / %s)', 's', 't'), extra=nz('t'))
    S('dprod', lambda e: X(e, 's') * X(e, 'd'), [s, d], two('(%s * %s)', 's', 'd') + two('(%s * %s)', 'd', 's'))
    S('dquot', lambda e: X(e, 's') / X(e, 'd'), [s, d], two('(%s / %s)', 's', 'd'), extra=nz('d'))
    S('dquot_r', lambda e: X(e, 'd') / X(e, 's'), [s, d], two('(%s / %s)', 'd', 's'), extra=nz('s'))
    S('dsum', lambda e: X(e, 's') + X(e, 'd'), [s, d], two('(%s + %s)', 's', 'd') + two('(%s + %s)', 'd', 's'))
    S('dsub', lambda e: X(e, 's') - X(e, 'd'), [s, d], two('(%s - %s)', 's', 'd'))
    S('dsub_r', lambda e: X(e, 'd') - X(e, 's'), [s, d], two('(%s - %s)', 'd', 's'))
    S('lits', lambda e: (X(e, 's') * 3 - 2) / 4 + 1, [s], ['((s * 3. - 2.) / 4. + 1.)', '(1. + (-2. + 3. * s) / 4.)', '((s * 3 - 2) / 4 + 1)', '(1 - (2 - 3 * s) / 4)', '(s * 0.75f + 0.5f)'])
    S('ints', lambda e: 1 + X(e, 's'), [s], ['(1 + s)', '(s + 1)', '(1 - -s)', '(2 - (1 - s))', '(1.f + s)', '(1u + s)', '(3 - (2.f - s))', '(short(1) + vh::cp(s))'])
    S('recip', lambda e: 2 / X(e, 's'), [s], ['(2. / s)', '(2 / s)', '(1. / (s / 2.))'], extra=nz('s'))
    S('poly', lambda e: X(e, 's') * X(e, 's') * X(e, 't') - X(e, 't') / X(e, 's'), [s, t], ['(s * s * t - t / s)', '(s * (s * t) + -(t / s))', '((s * t) * s - vh::cp(t) / vh::cp(s))'], extra=nz('s'))
    # scalar results inside vector expressions, and the implicit conversion to a number
    out.append(lin('mixed', lambda e: [ref.dot(e['v'].v, e['w'].v) * x + X(e, 's') * y for x, y in zip(e['v'].v, e['w'].v)], 3, [v, w, s],
                   ['(dot(v, w) * v + s * w)', '(v * dot(w, v) + w * s)', '(double(dot(v, w)) * v + s.value() * w)', '(v.squaredNorm() * 0.0 * v + (dot(v, w) * v + w * s))']))
    out.append(lin('unit', lambda e: [x / ref.dsqrt(ref.dot(e['v'].v, e['v'].v)) for x in e['v'].v], 3, [v],
                   ['v.normalized()', '(v / v.norm())', '((1. / v.norm()) * v)', '(v * (1 / v.norm()))'], extra=nz('v')))
    out.append(Case('assign', '  wave::Scalar<double> a = d; vh::st(o, a); a = s; vh::st(o, a); a = 3.0; vh::st(o, a); a = s * d; vh::st(o, a); double b = s * s; vh::st(o, b);'
                    ' b = v.norm(); vh::st(o, b); wave::Scalar<double&> r{d}; d = d * 2; a = r; vh::st(o, a);'
                    ' wave::Translationd y{1, 2, 3}; y = v; vh::st(o, y); y = wave::Translationd{w}; vh::st(o, y); y.value() = v.value(); vh::st(o, y);',
                    [Nodes(7, lambda e: [X(e, 'd'), X(e, 's'), 3, X(e, 's') * X(e, 'd'), X(e, 's') * X(e, 's'), ref.dsqrt(ref.dot(e['v'].v, e['v'].v)), 2 * X(e, 'd')], 'assigned'),
                     Nodes(9, lambda e: e['v'].v + e['w'].v + e['v'].v, 'vector')], [s, d, v, w], extra=nz('v')))
    # derivatives with respect to plain numbers and through nested scalar expressions
    U = lambda n, e, ty, **kw: out.extend(modes(n, e, ty, True, **kw))
    N = lambda n, e, ty, **kw: out.extend(modes(n, e, ty, False, **kw))
    sE, tE, vE, wE, dE = leaf('s', 'Sc'), leaf('t', 'Sc'), leaf('v', 'Tr'), leaf('w', 'Tr'), leaf('d', 'dbl')
    N('j_poly', fn('(%s * %s + %s / %s)', lambda a, b, c, dd: scal(a.v[0] * b.v[0] + c.v[0] / dd.v[0]), sE, tE, sE, tE), 1, extra=nz('t'))
    N('j_dotn', fn('(dot(%s, %s) * %s.norm())', lambda a, b, c: scal(ref.dot(a.v, b.v) * ref.dsqrt(ref.dot(c.v, c.v))), vE, wE, wE), 1, extra=nz('w'))
    U('j_sv', fn('(%s * %s / %s.norm())', lambda a, b, c: Vec([a.v[0] * x / ref.dsqrt(ref.dot(c.v, c.v)) for x in b.v]), sE, leaf('u', 'Rr'), wE), 3, extra=nz('w'))
    U('j_sqn', fn('(%s.squaredNorm() * %s)', lambda a, b: Vec([ref.dot(a.v, a.v) * x for x in b.v]), wE, leaf('z', 'Tw')), 6)
    U('j_pt', fn('(%s + %s)', lambda a, b: Vec(add(a.v, b.v)), leaf('p', 'Pt'), vE), 3)
    U('j_ptd', fn('(%s * (%s - %s).norm())', lambda a, b, c: scal(a.v[0] * ref.dsqrt(ref.dot(sub(b.v, c.v), sub(b.v, c.v)))), sE, leaf('p', 'Pt'), leaf('w', 'Pt')), 1,
      extra=lambda sp, env: sp.nonzero_vec(Vec(sub(env['p'].v, env['w'].v)))) if False else None
    return out
