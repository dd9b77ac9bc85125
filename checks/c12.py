"""Expressions keep temporaries, refer to named objects and are evaluated before anything is written."""
from itertools import product
from engine.case import *
from c07 import norm, scal
from c08 import flat

PROPERTY = 'C12'
LEVEL = 'model_checking'
MODE = 'mem'
BOUNDS = 'expressions of up to five operands, each named, temporary or moved from; named objects overwritten between building and evaluating; every read checked against the lifetime of the object it reads; all input values'
OUTSIDE = 'expression shapes not listed'
PER_TU = 4
BUDGET = 40
PRE = '#include "vh_compound.hpp"\n'
NEW = {}


def shape(name, mk, ops, t, forms=None, jac=None, use=None):
    """mk(*E) builds the expression; ops are leaves; forms is a string of n(amed) t(emporary) m(oved) per operand."""
    out = []
    for form in forms or [''.join(f) for f in product('nt', repeat=len(ops))]:
        new = [leaf(o.leaves[0].name + '2', o.leaves[0].t, o.leaves[0].mode) for o in ops]
        args = []
        for o, nw, f in zip(ops, new, form):
            if f == 'n':
                args.append(E(o.cpp, nw.f, o.leaves))
            else:
                args.append(o.wrap('vh::cp(%s)' if f == 't' else 'std::move(%s)'))
        e = mk(*args)
        body = ['  auto build = [&] { return %s; };' % e.cpp, '  auto e = build();']
        for o, nw in zip(ops, new):
            body.append('  %s = vh::cp(%s);' % (o.cpp, nw.cpp))
        body.append('  ' + (use or 'vh::sv(o, e.eval());'))
        outs = [Val(t, e)] * (use.count('sv(') if use else 1)
        for o, nw, f in zip(ops, new, form):
            if jac and f == 'n':
                body.append('  vh::st(o, e.jacobian(%s));' % o.cpp)
                l = nw.leaves[0]
                outs.append(Jac(e, l, rows_of(t)))
        ls = tuple(e.leaves) + tuple(l for o in ops for l in o.leaves) + tuple(l for o in new for l in o.leaves)
        out.append(Case('%s_%s' % (name, form), '\n'.join(body), outs, ls))
    return out


def alias(name, x, t, stmt, e, extra=()):
    """x = expression in x."""
    return Case('alias_' + name, '  %s vh::st(o, %s);' % (stmt, x.cpp), [Val(t, e)], tuple(x.leaves) + tuple(e.leaves) + tuple(extra))


def cases(tier):
    out = []
    th = tier == 'thorough'
    S = lambda *a, **k: out.extend(shape(*a, **k))
    m, n, q, a = leaf('m', 'RM'), leaf('n', 'RM'), leaf('q', 'RQ'), leaf('a', 'RA')
    x, y = leaf('x', 'TM'), leaf('y', 'TQ')
    v, w, u = leaf('v', 'Tr'), leaf('w', 'Tr'), leaf('u', 'Tr')
    p, r = leaf('p', 'Rr'), leaf('r', 'Rr')
    s, k = leaf('s', 'Sc'), leaf('k', 'Sc')
    p2 = leaf('p3', 'Rr')
    pt, tw, tz = leaf('pt', 'Pt'), leaf('tw', 'Tw'), leaf('tz', 'Tw')
    S('mul', lambda A, B: A * B, [m, n], 'R', jac=True)
    S('mulq', lambda A, B: A * B, [q, m], 'R', forms=['nt', 'tn', 'tt', 'mt', 'mm', 'nm'])
    S('rot', lambda A, B: A * B, [q, v], 3, jac=True)
    S('rota', lambda A, B: A * B, [a, v], 3)
    S('tf', lambda A, B: A * B, [x, v], 3, jac=True)
    S('tfq', lambda A, B: A * B, [y, v], 3, forms=['nt', 'tn', 'tt', 'mm'])
    S('tmul', lambda A, B: A * B, [x, y], 'T', forms=['nt', 'tn', 'tt'])
    S('inv', lambda A: A.inv(), [m], 'R', forms='ntm')
    S('invy', lambda A: A.inv(), [y], 'T', forms='ntm')
    S('sum', lambda A, B: A + B, [v, w], 3, jac=True)
    S('sub', lambda A, B: A - B, [p, r], 3, forms=['nt', 'tn', 'tt', 'mm'])
    S('subt', lambda A, B: A - B, [tw, tz], 6, forms=['nt', 'tn', 'tt'])
    S('ptadd', lambda A, B: A + B, [pt, v], 3, forms=['nt', 'tn', 'tt'])
    S('neg', lambda A: -A, [v], 3, forms='ntm')
    S('scale', lambda A, B: A * B, [s, v], 3, jac=True)
    S('scaler', lambda A, B: A * B, [v, s], 3, forms=['nt', 'tn', 'tt'])
    S('lit', lambda A: E('(2.5 * %s)' % A.cpp, lambda env: scale(lift(Fraction(5, 2)), A.f(env)), A.leaves), [v], 3, forms='nt')
    S('sprod', lambda A, B: A * B, [s, k], 1, forms=['nt', 'tn', 'tt'])
    S('norm', lambda A: E('%s.squaredNorm()' % A.cpp, lambda env: scal(ref.dot(A.f(env).v, A.f(env).v)), A.leaves), [v], 1, forms='ntm')
    S('dot', lambda A, B: E('dot(%s, %s)' % (A.cpp, B.cpp), lambda env: scal(ref.dot(A.f(env).v, B.f(env).v)), A.leaves + B.leaves), [v, w], 1)
    for X in (x, y):
        S('part_r%s' % X.cpp, lambda A: A.rot(), [X], 'R', forms='ntm')
        S('part_t%s' % X.cpp, lambda A: A.trans(), [X], 3, forms='ntm')
    # nested
    S('nest3', lambda A, B, C: A * (B * C), [m, q, v], 3, jac=True)
    S('nest3l', lambda A, B, C: (A * B) * C, [q, n, v], 3)
    S('nest_sum', lambda A, B, C: A * B + C, [m, v, w], 3, forms=['nnt', 'ntn', 'tnn', 'ttn', 'ttt', 'ntt', 'mmm'])
    S('nest_inv', lambda A, B: A.inv() * -B, [x, v], 3)
    S('nest_part', lambda A, B, C: (A * B).rot() * C, [x, y, v], 3, forms=['nnt', 'ttn', 'ttt', 'ntn', 'tnt'])
    S('nest_parts', lambda A, B, C: A.rot() * C + B.trans(), [x, y, v], 3, forms=['nnn', 'nnt', 'tnn', 'ntn', 'ttt', 'mmm'])
    S('nest5', lambda A, B, C, D_, F: A * (B.inv() * (C + D_)) - F * C, [m, q, v, w, s], 3, forms=['nntnt', 'ttntn', 'ntntn', 'tntnt', 'ttttt'][:5 if th else 3])
    # the whole expression copied, moved, kept in containers, extended
    for nm, use in [('copy', 'auto f = e; auto g = f; vh::sv(o, g.eval()); vh::sv(o, e.eval());'),
                    ('move', 'auto f = std::move(e); auto g = std::move(f); vh::sv(o, g.eval());'),
                    ('tuple', 'auto f = std::make_tuple(e, 1); auto g = std::move(f); vh::sv(o, std::get<0>(g).eval());'),
                    ('twice', 'vh::sv(o, e.eval()); vh::sv(o, e.eval()); vh::sv(o, std::move(e).eval());'),
                    ('ptr', 'auto f = std::make_unique<decltype(e)>(e); vh::sv(o, f->eval()); auto g = std::move(*f); f.reset(); vh::sv(o, g.eval());'),
                    ('lambda', 'auto f = [g = std::move(e)] { return g.eval(); }; auto h = f; vh::sv(o, h());'),
                    ('ret', 'auto f = [](auto z) { return z; }; auto g = f(f(e)); vh::sv(o, g.eval());')]:
        S('whole_' + nm, lambda A, B, C: A * (B + C), [m, v, w], 3, forms=['tnt', 'ttt', 'nnt'], use=use)
        S('wholey_' + nm, lambda A, B: A.inv() * B, [y, v], 3, forms=['tt', 'nt'], use=use)
    ext = lambda c, f: (lambda A, B: E('(%s)' % c.replace('SUB', '(%s * %s)' % (A.cpp, B.cpp)), lambda env: f((A * B).f(env)), A.leaves + B.leaves))
    S('lazy', lambda A, B: E('[&] { auto sub = %s; return -std::move(sub); }()' % (A * B).cpp, lambda env: Vec(ref.vneg((A * B).f(env).v)), A.leaves + B.leaves), [m, v], 3)
    S('lazy2', lambda A, B: E('[&] { auto sub = %s; auto sub2 = sub; return std::move(sub) + std::move(sub2); }()' % (A * B).cpp,
                              lambda env: Vec(ref.vadd((A * B).f(env).v, (A * B).f(env).v)), A.leaves + B.leaves), [q, v], 3)
    S('nary', lambda A, B, C: flat('PV', A, B, C), [p, v, s], 7, forms=['nnn', 'ttt', 'ntn', 'tnt', 'mmm'])
    S('nary_nest', lambda A, B, C: flat("PV", A + p2, m * B, C), [p, v, s], 7, forms=["nnn"])
    S('boxplus', lambda A, B: A + B, [q, leaf('p', 'Rr', 'polarmid')], 'R', forms=['nt', 'tn', 'tt'])
    # evaluated before it is written
    L = lambda *b: out.append(alias(*b))
    L('m1', m, 'RM', 'm = m * n;', m * n)
    L('m2', m, 'RM', 'm = n * m;', n * m)
    L('m3', m, 'RM', 'm = inverse(m);', m.inv())
    L('m4', m, 'RM', 'm = m * (n * inverse(m));', m * (n * m.inv()))
    L('m5', m, 'RM', 'm = m * m;', m * m)
    L('m6', m, 'RM', 'auto e = m * m; m = e; m = e;', (m * m) * (m * m))
    L('q1', q, 'RQ', 'q = q * q;', q * q)
    L('q2', q, 'RQ', 'q = inverse(q);', q.inv())
    L('q3', q, 'RQ', 'auto e = q * m; q = inverse(q); q = e;' if th else 'auto e = inverse(q); q = inverse(q); q = e;', q.inv() * m if th else q)
    L('x1', x, 'TM', 'x = x * x;', x * x)
    L('x2', x, 'TM', 'x = inverse(x);', x.inv())
    L('y1', y, 'TQ', 'y = y * y;', y * y)
    L('y2', y, 'TQ', 'y = inverse(y);', y.inv())
    L('v1', v, 3, 'v = m * v;', m * v)
    L('v2', v, 3, 'v = v - (v + w);', -w)
    L('v3', v, 3, 'v = x * v + v;', x * v + v)
    L('v4', v, 3, 'auto e = m * v; v = e + v; v = e;', m * (m * v + v))
    L('v5', v, 3, 'v = y * v;', y * v)
    L('p1', p, 3, 'p = p + p;', p + p)
    L('tw1', tw, 6, 'tw = tz - tw;', tz - tw)
    L('pt1', pt, 3, 'pt = pt + v;', pt + v)
    L('pt2', pt, 3, 'pt = x * v + pt;', x * v + pt)
    L('s1', s, 1, 's = s * s;', s * s)
    L('s2', s, 1, 's = k - s;', k - s)
    return out
