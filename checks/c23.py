"""Evaluation stays inside valid memory and reads only initialised values."""
import copy
import importlib
from engine import dag, decide
from engine.case import *

PROPERTY = 'C23'
LEVEL = 'model_checking'
MODE = 'mem'
LEAKS = True
PER_TU = 5
BUDGET = 45
BOUNDS = 'the listed programs: expressions over named, temporary and moved operands kept, copied, moved, dropped and evaluated; proxies and dynamic expressions copied, reassigned and kept in containers; results outliving their expression; factors, noise, compounds, maps into buffers and matrix maps of the other checks; every path of every program'
OUTSIDE = 'allocation failure; exceptions; threads; Eigen alignment beyond 16 bytes; programs not listed'
ASSUMPTIONS = ['operator new succeeds and returns fresh memory']
# programs of the other checks, and which of them the quick tier takes
SOURCES = {'c06': 10, 'c07': 3, 'c08': 3, 'c09': 4, 'c11': 4, 'c12': 8, 'c13': 5, 'c15': 30, 'c16': 50, 'c18': 2, 'c19': 3, 'c20': 12, 'c22': 24}


class DECIDER(decide.Decider):
    """Every path the solver does not refute must end normally: each access resolved to a live object of sufficient
    size, no indeterminate value read or output, nothing freed twice, nothing left allocated."""

    def path(self, i, p, rng):
        if p.end == 'ret' and all(isinstance(o, dag.Node) for o in p.outs):
            self.res.paths += 1
            self.res.pathinfo.append({'end': 'ret', 'branches': len(p.conds)})
            self.res.proved += 1
            return
        decide.Decider.path(self, i, p, rng)

    def refuted(self, pc):
        # very large conditions are taken as satisfiable: their paths are checked as well
        return sum(1 for _ in dag.topo([c for c, _ in pc])) < 400 and decide.Decider.refuted(self, pc)

    def prove_path(self, tag, p, samples, dens, allsamples):
        self.res.proved += 1


class Anything:
    """Outputs of which only their being initialised is demanded."""

    def __init__(self, n):
        self.n = n

    def obls(self, o, env):
        return []


def borrowed(tier):
    out = []
    for s in SOURCES:
        mod = importlib.import_module(s)
        cs = mod.cases(tier)
        if tier == 'quick':
            cs = cs[::SOURCES[s]]
        for c in cs:
            d = copy.copy(c)
            d.name = '%s_%s' % (s, c.name)
            d.outs = [Anything(c.n_out)]
            out.append(d)
    return out


_pre = []
for s in SOURCES:
    x = getattr(importlib.import_module(s), 'PRE', '')
    if x not in _pre:
        _pre.append(x)
PRE = '\n'.join(_pre)


CT = {'RM': 'RotationMd', 'RQ': 'RotationQd', 'RA': 'RotationAd', 'TM': 'RigidTransformMd', 'TQ': 'RigidTransformQd',
      'Tr': 'Translationd', 'Rr': 'RelativeRotationd', 'Sc': 'wave::Scalar<double>', 'Tw': 'Twistd'}


def kept():
    """Histories of building, keeping, copying, moving, dropping and evaluating."""
    out = []
    m, n, q, a = leaf('m', 'RM'), leaf('n', 'RM'), leaf('q', 'RQ'), leaf('a', 'RA')
    x, y = leaf('x', 'TM'), leaf('y', 'TQ')
    v, w, p, s, tw = leaf('v', 'Tr'), leaf('w', 'Tr'), leaf('rr', 'Rr'), leaf('s', 'Sc'), leaf('tw', 'Tw')
    # expressions over temporaries that outlive the scope they were built in
    T = [('rot', m * (q * v), 'Tr'), ('neg', -(q * v + w), 'Tr'), ('diff', m * v - w, 'Tr'), ('inv', m.inv() * v, 'Tr'), ('inv3', m.inv() * (q * n), 'R'),
         ('trans', x * v, 'Tr'), ('comp', x * y, 'T'), ('exp', p.exp() * v, 'Tr'), 
         ('plus', m + p, 'R'), ('scale', s * (m * v), 'Tr'), ('div', (v - w) / s, 'Tr'), ('expt', tw.exp(), 'T')]
    for nm, e, t in T:
        cpp, call = e.cpp, []
        ls = list({l.name: l for l in e.leaves}.values())
        import re
        tmp = re.sub(r'\b(%s)\b' % '|'.join(l.name for l in ls), r'vh::cp(\1)', cpp)
        mov = re.sub(r'\b(%s)\b' % '|'.join(l.name for l in ls), r'std::move(\1)', cpp)
        mix = re.sub(r'\b(%s)\b' % ls[0].name, r'vh::cp(\1)', cpp)
        k = {'R': 10, 'T': 17, 'Tw': 6}.get(t, 3)
        for form, c in (('tmp', tmp), ('mov', mov), ('mix', mix)):
            if form == 'mov' and len(re.findall(r'std::move', c)) != len(ls):
                continue
            b = ['auto make = [&] { return %s; };' % c, 'auto e = make();', 'auto f = e;', 'auto g = std::move(f);',
                 'auto *h = new auto(g);', 'auto r = h->eval();', 'delete h;', 'vh::sv(o, r);', 'vh::sv(o, e.eval());', 'vh::sv(o, std::move(g).eval());',
                 'vh::sv(o, make_eval(%s));' % (c if form != 'mov' else 'std::move(e)')]
            out.append(Case('keep_%s_%s' % (nm, form), '\n'.join('  ' + l for l in b), [Anything(4 * k)], e.leaves))
            if form == 'mov':
                continue
            d = ['using T = decltype(prox(%s).eval());' % c, 'Proxy<T> P = %s;' % c, 'auto *Q = new Proxy<T>(P);', 'Proxy<T> R = *Q;', 'delete Q;', 'vh::sv(o, R.eval());',
                 '{ Proxy<T> S = std::move(R); P = S; R = P; }', 'vh::sv(o, P.eval());', 'vh::sv(o, R.eval());', 'R = R;', 'vh::sv(o, R.eval());']
            out.append(Case('proxy_%s_%s' % (nm, form), '\n'.join('  ' + l for l in d), [Anything(4 * k)], e.leaves))
            d = ['auto d = makeDynamic(%s);' % c, 'auto d2 = d;', 'auto d3 = std::move(d2);', 'auto P = ref(d3);', 'auto P2 = P;', 'vh::sv(o, d.eval());', 'vh::sv(o, P2.eval());',
                 'auto r = internal::evaluateWithDynamicReverseJacobians(d3);', 'auto r2 = std::move(r);', 'vh::sv(o, r2.first);']
            out.append(Case('dyn_%s_%s' % (nm, form), '\n'.join('  ' + l for l in d), [Anything(3 * k)], e.leaves))
        # results kept after the expression is gone
        args = ', '.join(l.name for l in ls if not l.name.endswith('_'))
        d = ['auto *e = new auto(%s);' % (cpp if nm != 'rot' else cpp), 'auto r = e->evalWithJacobians(%s);' % args, 'delete e;', 'vh::sv(o, std::get<0>(r));', 'vh::stm(o, std::get<1>(r));',
             'auto r2 = r;', 'vh::sv(o, std::get<0>(std::move(r2)));']
        rows = {'T': 6, 'Tw': 6}.get(t, 3)
        out.append(Case('result_%s' % nm, '\n'.join('  ' + l for l in d), [Anything(2 * k + rows * tangent(ls[0]))], e.leaves))
    # copies of dynamic expressions that were already evaluated and whose original is gone
    for nm, e, t in T[:6]:
        k = {'R': 10, 'T': 17, 'Tw': 6}.get(t, 3)
        ls = list({l.name: l for l in e.leaves}.values())
        c = re.sub(r'\b(%s)\b' % '|'.join(l.name for l in ls), r'vh::cp(\1)', e.cpp)
        d = ['auto *d = new auto(makeDynamic(%s));' % c, 'vh::sv(o, ref(*d).eval());', 'auto r0 = internal::evaluateWithDynamicReverseJacobians(ref(*d));', 'auto d2 = *d;', 'auto d3 = std::move(*d);', 'delete d;',
             'vh::sv(o, ref(d2).eval());', 'auto r1 = internal::evaluateWithDynamicReverseJacobians(ref(d3));', 'vh::sv(o, r1.first);', 'auto d4 = d3;', 'vh::sv(o, d4.eval());', 'vh::sv(o, r0.first);']
        out.append(Case('again_%s' % nm, '\n'.join('  ' + l for l in d), [Anything(5 * k)], e.leaves))
    # objects that take part in their own replacement
    for nm, st, ty in (('rot', 'm = m * (q * n)', 'm'), ('inv', 'm = inverse(m)', 'm'), ('minv', 'm = inverse(m) * m', 'm'), ('vec', 'v = m * v + v', 'v'), ('neg', 'v = -v', 'v'),
                       ('tr', 'x = x * x', 'x'), ('trinv', 'x = inverse(x) * y', 'x'), ('plus', 'm = m + rr', 'm'), ('cmp', 'y = y * inverse(y)', 'y'), ('self', 'm = m', 'm'),
                       ('swap', 'std::swap(v, w)', 'v'), ('move', 'v = std::move(w)', 'v')):
        l = {'m': m, 'v': v, 'x': x, 'y': y}[ty]
        out.append(Case('assign_' + nm, '  %s; vh::st(o, %s);' % (st, ty), [Anything(Val.SIZE.get(l.leaves[0].t) or l.leaves[0].n)], tuple(z for c in (m, n, q, x, y, v, w, p) for z in c.leaves)))
    # containers of proxies, growing and shrinking
    b = ['std::vector<Proxy<Translationd>> r;', 'r.emplace_back(m * v);', 'for (int i = 0; i < 4; ++i) r.emplace_back(q * r.back() + w);', 'auto c = r;', 'r.erase(r.begin() + 1);', 'auto last = r.back();', 'r.clear();',
         'vh::sv(o, last.eval());', 'c.front() = c.back();', 'vh::sv(o, c.front().eval());', 'std::swap(c[1], c[2]);', 'vh::sv(o, c[1].eval());']
    out.append(Case('vector', '\n'.join('  ' + l for l in b), [Anything(9)], [z for c in (m, q, v, w) for z in c.leaves]))
    b = ['std::unique_ptr<Proxy<Translationd>> a{new Proxy<Translationd>(m * v)};', 'Proxy<Translationd> b = q * *a;', 'a.reset();', 'vh::sv(o, b.eval());', 'b = vh::cp(w);', 'vh::sv(o, b.eval());',
         'auto mk = [&](auto t) { Proxy<Translationd> z = t; return q * z; };', 'auto e = mk(b);', 'b = q * v;', 'vh::sv(o, e.eval());', 'vh::sv(o, mk(b).eval());']
    out.append(Case('owner', '\n'.join('  ' + l for l in b), [Anything(12)], [z for c in (m, q, v, w) for z in c.leaves]))
    return out


PRE += """
#include <memory>
#include <vector>
template <typename E> auto make_eval(E &&e) { return std::forward<E>(e).eval(); }
template <typename E> auto prox(E &&e) { return makeProxy(std::forward<E>(e)); }
"""


def cases(tier):
    own = kept()
    if tier == 'quick':
        own = [c for c in own if not c.name.endswith('_mix')]
    return own + borrowed(tier)
