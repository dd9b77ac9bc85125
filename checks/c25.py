"""Evaluation is repeatable and has no side effects."""
from engine import dag, decide
from engine.case import *

PROPERTY = 'C25'
LEVEL = 'model_checking'
MODE = 'mem'
PER_TU = 2
BUDGET = 60
BOUNDS = 'orders of up to three calls (two in the quick tier), chosen by symbolic inputs, among evaluation, Jacobians in every mode, evaluation of a copy and evaluation of another expression over the same operands; named, kept and proxied operands; factors, noise and matrix maps evaluated repeatedly; results compared as identical expressions of the inputs, hence bit for bit'
OUTSIDE = 'concurrent evaluation; more than three calls; expressions not listed'
ASSUMPTIONS = []
PRE = '''#include "vh_compound.hpp"
#include "vh_estimation.hpp"
#include <vector>
struct Rec { double a[220]; Rec() { for (double &x : a) x = 0; } };
template <typename E> auto prox(E &&e) { return makeProxy(std::forward<E>(e)); }
template <typename R, std::size_t... I> void jacs(vh::O &o, const R &r, std::index_sequence<I...>) { (void) std::initializer_list<int>{(vh::st(o, std::get<I + 1>(r)), 0)...}; }
template <typename... T> void all(vh::O &o, const std::tuple<T...> &r) { vh::sv(o, std::get<0>(r)); jacs(o, r, std::make_index_sequence<sizeof...(T) - 1>{}); }
'''


class DECIDER(decide.Decider):
    """Results of the same call must be the same expression of the inputs; anything else goes to the solver and replay."""

    def path(self, i, p, rng):
        if p.end == 'ret' and all(isinstance(o, dag.Node) for o in p.outs):
            if all(b.lhs is b.rhs for b in self.case.obligations(p.outs, self.env)):
                self.res.paths += 1
                self.res.proved += self.case.n_out
                self.res.pathinfo.append({'end': 'ret', 'branches': len(p.conds)})
                return
        decide.Decider.path(self, i, p, rng)

    def refuted(self, pc):
        return sum(1 for _ in dag.topo([c for c, _ in pc])) < 400 and decide.Decider.refuted(self, pc)


def chooser(n, kinds):
    def f(sp, env):
        def s(rng, fl):
            return {'k%d_0' % i: decide.mp.mpf(rng.randrange(kinds) + .5) for i in range(n)}
        sp.samplers.append(s)
    return f


def prog(name, pre, mk, calls, ops, n, leaves, size):
    """mk builds the expression `e` from the operands in scope; calls are statements writing to `z`."""
    ks = [leaf('k%d_' % i, 'dbl') for i in range(n)]
    sel = lambda c, call: '\n      '.join('%s { %s }' % ('if (%s < %d)' % (c, i + 1) if i < len(calls) - 1 else '', x) + (' else' if i < len(calls) - 1 else '') for i, x in enumerate(calls))
    b = list(pre)
    copies = ' '.join('auto %s = %s0_;' % (x, x) for x in ops)
    keep = ' '.join('const auto %s0_ = %s;' % (x, x) for x in ops)
    store = ' '.join('vh::st(o, %s);' % x for x in ops)
    b += [keep, store]
    b += ['Rec want[%d], got[%d];' % (n, n)]
    for i in range(n):
        b.append('{ %s %s vh::O z{want[%d].a}; %s }' % (copies, mk, i, sel('k%d_' % i, 0)))
    b.append('{ %s' % mk)
    for i in range(n):
        b.append('{ vh::O z{got[%d].a}; %s }' % (i, sel('k%d_' % i, 0)))
    b.append('}')
    b.append(store)
    k = sum({'Sc': 1, 'Tw': 6, 'RM': 9, 'RQ': 4, 'RA': 4, 'TM': 16, 'TQ': 7}.get(l.leaves[0].t, 3) for l in leaves if l.cpp in ops)
    b.append('for (int i = 0; i < %d; ++i) for (int j = 0; j < %d; ++j) { vh::st(o, want[i].a[j]); vh::st(o, got[i].a[j]); }' % (n, size))
    outs = [Free(k), AsFirst(0, k, 'operands unchanged'),
            Free(2 * n * size, lambda o, env: [('call %d, number %d' % (i, j), o[2 * (i * size + j) + 1], o[2 * (i * size + j)]) for i in range(n) for j in range(size)])]
    ls = [l for x in leaves for l in x.leaves] + [l for x in ks for l in x.leaves]
    return Case(name, '\n'.join('  ' + l for l in b), outs, ls, extra=chooser(n, len(calls)), max_paths=4 * len(calls) ** n + 60)


def cases(tier):
    out = []
    n = 2 if tier == 'quick' else 3
    m, m2, q, a = leaf('m', 'RM'), leaf('m2', 'RM'), leaf('q', 'RQ'), leaf('a', 'RA')
    x, x2, y = leaf('x', 'TM'), leaf('x2', 'TM'), leaf('y', 'TQ')
    v, w, p, s, tw = leaf('v', 'Tr'), leaf('w', 'Tr'), leaf('rr', 'Rr'), leaf('s', 'Sc'), leaf('tw', 'Tw')
    # (name, expression, leaves, targets, rows, another expression over the same operands)
    L = [('mqv', 'm * (q * v)', [m, q, v], 3, 'inverse(m) * v'), ('sum', 'm * v - q * w', [m, q, v, w], 3, 'w - v'), ('rep', 'm * v + v', [m, v], 3, 'm * (v + v)'),
         ('inv', 'inverse(m * m2) * q', [m, m2, q], 3, 'inverse(q)'), ('exp', 'exp(rr) * v', [p, v], 3, 'exp(rr) * exp(rr)'),
         ('plus', 'm + rr', [m, p], 3, 'exp(rr) * m'), ('xv', 'x * (y * v)', [x, y, v], 3, 'inverse(y) * v'), ('xx', 'x * x2', [x, x2], 6, 'x2 * x'), ('invx', 'inverse(y) * x', [x, y], 6, 'inverse(x)'),
         ('sc', 's * (m * v)', [s, m, v], 3, 'v / s'), ('neg', '-(q * v)', [q, v], 3, 'v + v'), ('ang', 'a * (q * v)', [a, q, v], 3, 'inverse(a) * v'), ('expt', 'exp(tw) * v', [tw, v], 3, 'tw + tw')]
    big = {'xx', 'invx', 'expt'}
    for nm, e, ls, rows, g in L:
        ops = [l.cpp for l in ls]
        args = ', '.join(ops)
        dims = {'Sc': 1, 'Tw': 6, 'TM': 6, 'TQ': 6}
        jn = sum(rows * dims.get(l.leaves[0].t, 3) for l in ls)
        k = {3: 10, 6: 17}[rows]
        size = k + jn
        calls = ['vh::sv(z, e.eval());', 'all(z, e.evalWithJacobians(%s));' % args, 'vh::st(z, e.jacobian(%s));' % ops[-1],
                 'auto c = e; vh::sv(z, c.eval()); vh::sv(z, (%s).eval());' % g, 'all(z, internal::evaluateWithDynamicJacobians(e, %s));' % args]
        if tier == 'quick' and nm in big:
            calls = calls[:4]
        out.append(prog('named_' + nm, [], 'auto e = %s;' % e, calls, ops, n, ls, size))
        import re
        held = re.sub(r'\b(%s)\b' % '|'.join(ops), r'vh::cp(\1)', e)
        calls = ['vh::sv(z, e.eval());', 'auto c = e; vh::sv(z, c.eval());', 'const auto &c = e; vh::sv(z, c.eval()); vh::sv(z, (c).eval());',
                 'vh::sv(z, (%s).eval()); vh::sv(z, e.eval());' % g]
        if len({l.leaves[0].t for l in ls}) == len(ls) and nm not in ('rep',):
            calls.append('all(z, e.evalWithJacobians());')
        out.append(prog('held_' + nm, [], 'auto e = %s;' % held, calls, ops, n, ls, max(2 * 17, k + jn)))
        if nm in ('mqv', 'sum', 'rep', 'xv', 'neg', 'xx', 'inv'):
            calls = ['vh::sv(z, e.eval());', 'all(z, e.evalWithJacobians(%s));' % args, 'auto c = e; vh::sv(z, c.eval());', 'all(z, internal::evaluateWithDynamicJacobians(e, %s));' % args,
                     'auto r = internal::evaluateWithDynamicReverseJacobians(e); vh::sv(z, r.first); const Eigen::Matrix<double, %d, %d> j_ = r.second.at(&%s); vh::st(z, j_);' % (rows, dims.get(ls[-1].leaves[0].t, 3), ops[-1])]
            out.append(prog('proxy_' + nm, [], 'auto e = prox(%s);' % e, calls, ops, n, ls, size))
    # the same expression type over other operands: nothing is remembered between evaluations
    def two(nm, mk, mode=None, t=3, rows=3):
        A = {k: leaf(k, T) for k, T in OPS.items()}
        B = {k: leaf(k + 'b', T) for k, T in OPS.items()}
        e, f = mk(**A), mk(**B)
        wrap = {'proxy': 'prox(%s)'}.get(mode, '%s')
        le = list({l.name: l for l in e.leaves}.values())
        lf = list({l.name: l for l in f.leaves}.values())
        b = ['auto e = %s;' % (wrap % e.cpp), 'auto f = %s;' % (wrap % f.cpp), 'vh::sv(o, e.eval());', 'vh::sv(o, f.eval());', 'vh::sv(o, e.eval());']
        outs = [Val(t, e), Val(t, f, 'other operands'), Val(t, e, 'again')]
        for x, y, l in (('e', e, le[0]), ('f', f, lf[0]), ('e', e, le[-1])):
            b.append('vh::st(o, %s.jacobian(%s));' % (x, l.name))
            outs.append(Jac(y, l, rows))
        out.append(Case('two_%s%s' % (nm, mode or ''), '\n'.join('  ' + x for x in b), outs, le + lf))
    OPS = {'a': 'RA', 'm': 'RM', 'q': 'RQ', 'v': 'Tr', 'w': 'Tr', 'x': 'TM', 's': 'Sc', 'p': 'Rr'}
    for mode in (None, 'proxy'):
        two('mqv', lambda m, q, v, **k: m * (q * v), mode)
        two('sum', lambda m, q, v, w, **k: m * v - q * w, mode)
        two('inv', lambda m, v, **k: m.inv() * v, mode)
        two('xv', lambda x, v, w, **k: x * (v + w), mode)
        two('sc', lambda s, m, v, **k: s * (m * v), mode)
        two('neg', lambda v, q, **k: -(q * v), mode)
        two('ang', lambda a, q, v, **k: a * (q * v), mode)
        two('comp', lambda m, q, **k: m * q, mode, 'R')
    # expressions that hold proxies by value
    for nm, pre, ex in (('rot', 'auto P = prox(m * v);', 'q * vh::cp(P)'), ('twice', 'auto P = prox(m * v);', 'vh::cp(P) + q * vh::cp(P)'), ('nest', 'auto P = prox(m * v); auto R = prox(q * vh::cp(P));', 'vh::cp(R) - vh::cp(P)'),
                        ('named', 'auto P = prox(m * v);', 'q * P - v')):
        calls = ['vh::sv(z, e.eval());', 'all(z, e.evalWithJacobians(m, v));', 'auto c = e; vh::sv(z, c.eval()); vh::sv(z, e.eval());', 'vh::st(z, e.jacobian(m)); vh::sv(z, e.eval());']
        out.append(prog('holds_' + nm, [], '%s auto e = %s;' % (pre, ex), calls, ['m', 'q', 'v'], n, [m, q, v], 21))
    if tier == 'quick':
        slow = ('held_xv', 'held_plus', 'named_plus', 'held_expt', 'held_exp', 'proxy_inv', 'held_invx', 'proxy_xv', 'held_xx', 'named_inv')
        out = [c for c in out if c.name not in slow]
    return out
