"""Compound objects act component by component."""
from engine.case import *
from engine.case import tangent, Ob
from engine import ref
from c07 import fn, norm
from c08 import flat

PROPERTY = 'C19'
LEVEL = 'model_checking'
PRE = '#include "vh_compound.hpp"\n'
BOUNDS = 'compounds of two and three parts: scalars, vectors, twists, rotations of every representation and transforms; all values of all parts'
OUTSIDE = 'Jacobians of compound box-plus and box-minus and with respect to a whole compound, and compounds within compounds, which the library does not compile'
PER_TU = 4
BUDGET = 60
SZ = {'Sc': 1, 'Tr': 3, 'Rr': 3, 'Tw': 6}
CT = {'Tr': 'Translationd', 'Rr': 'RelativeRotationd', 'Sc': 'wave::Scalar<double>', 'Tw': 'Twistd', 'RM': 'RotationMd', 'RQ': 'RotationQd', 'RA': 'RotationAd', 'TM': 'RigidTransformMd', 'TQ': 'RigidTransformQd'}
K = {'RM': 'R', 'RQ': 'R', 'RA': 'R', 'TM': 'T', 'TQ': 'T'}
TAN = {'RM': 'Rr', 'RQ': 'Rr', 'RA': 'Rr', 'TM': 'Tw', 'TQ': 'Tw'}


def kinds(ts):
    return [K.get(t) or SZ[t] for t in ts]


class Part:
    """A compound's parts as they come out of sv()."""

    def __init__(self, ts, f, label='value'):
        self.ts, self.f, self.label = ts, f, label
        self.vals = [Val(k, None, '%s part %d' % (label, i)) for i, k in enumerate(kinds(ts))]
        self.n = sum(v.n for v in self.vals)

    def obls(self, o, env):
        out, k = [], 0
        for v, x in zip(self.vals, self.f(env)):
            v.e = x
            out += v.obls(o[k:k + v.n], env)
            k += v.n
        return out


def ctype(tmpl, ts):
    return 'vx::%s<%s>' % (tmpl, ', '.join(CT[t] for t in ts))


def leaves_for(prefix, ts, modes=None):
    return [leaf('%s%d_' % (prefix, i), t, (modes or {}).get(t)) for i, t in enumerate(ts)]


def mk(tmpl, ts, ls):
    return '%s{%s}' % (ctype(tmpl, ts), ', '.join(l.cpp for l in ls))


def vals(ls):
    return lambda env: [l.f(env) for l in ls]


def alls(*groups):
    return sum((l.leaves for g in groups for l in g), ())


def cases(tier):
    out = []
    th = tier == 'thorough'
    SETS = [('RB', ('Sc', 'Sc')), ('PV', ('Rr', 'Tr', 'Sc')), ('RP', ('Tr', 'Tw')), ('RP', ('Rr', 'Tr')), ('Pose', ('RM', 'Tr')), ('Pose', ('RQ', 'Tr')), ('Pose', ('Tr', 'RQ')), ('Pose', ('RA', 'RM')), ('State', ('TM', 'Tr', 'Sc')), ('State', ('TQ', 'Tr', 'Sc')), ('State', ('RQ', 'TM', 'Tr'))]
    for tmpl, ts in SETS:
        name = '_'.join((tmpl,) + ts)
        x, y = leaves_for('a', ts), leaves_for('b', ts)
        n = len(ts)
        T = ctype(tmpl, ts)
        # construction, copies, access, assignment
        get = lambda v: ' '.join('vh::sv(o, %s.get<%d>());' % (v, i) for i in range(n))
        body = ['  %s x = %s; const %s cx = x; %s m = x; auto mv = std::move(m); %s y{%s}; y = x; vh::sv(o, x); vh::sv(o, cx); vh::sv(o, mv); vh::sv(o, y);' % (T, mk(tmpl, ts, x), T, T, T, ', '.join(l.cpp for l in y)),
                '  ' + get('x') + get('cx') + get('std::move(mv)'),
                '  y = %s; vh::sv(o, y); y.get<%d>() = x.get<%d>(); vh::sv(o, y); vh::sv(o, x); vh::sv(o, x.eval()); %s e{internal::makeCompound<vx::%s>(%s)}; vh::sv(o, e); y = internal::makeCompound<vx::%s>(%s); vh::sv(o, y);' % (
                    mk(tmpl, ts, y), n - 1, n - 1, T, tmpl, ', '.join(l.cpp for l in y), tmpl, ', '.join(l.cpp for l in x))]
        outs = [Part(ts, vals(x), w) for w in ('made', 'const copy', 'moved', 'assigned', 'parts', 'const parts', 'moved parts')] + \
            [Part(ts, vals(y), 'move assigned'), Part(ts, vals(y[:-1] + x[-1:]), 'after assigning the last part'), Part(ts, vals(x), 'source untouched'), Part(ts, vals(x), 'eval'),
             Part(ts, vals(y), 'from expression'), Part(ts, vals(x), 'assigned expression')]
        out.append(Case('make_' + name, '\n'.join(body), outs, alls(x, y)))
        # parts computed by expressions
        dt = [TAN.get(t, t) for t in ts]
        if all(t in SZ for t in ts):
            comp = [a + b for a, b in zip(x, y)]
        else:
            comp = [a * b if t in TAN else a + b for t, a, b in zip(ts, x, y)]
        mix = comp[:1] + x[1:]
        neg = [c.inv() if t in TAN else -c for t, c in zip(ts, x)]
        for nm, cs in (('all', comp), ('mixed', mix), ('negated', neg)):
            args = ', '.join(c.cpp for c in cs)
            # the value of a part may come in another representation of the same rotation or transform
            res = ts
            body = ['  auto ex = internal::makeCompound<vx::%s>(%s); vh::sv(o, ex.eval());' % (tmpl, args)]
            outs = [Part(res, vals(cs), 'value')]
            # there is no conversion between compounds: only where the parts come out in the declared types
            same = not any(t == 'RA' and nm != 'mixed' or t == 'RA' and i == 0 or t == 'RM' and nm == 'negated' for i, t in enumerate(ts))
            if same:
                body.append('  %s z{ex}; vh::sv(o, z); z = ex; vh::sv(o, z);' % T)
                outs += [Part(res, vals(cs), 'constructed'), Part(res, vals(cs), 'assigned')]
            if nm == 'all' and same:
                body.append('  auto in_place = %s; in_place = internal::makeCompound<vx::%s>(%s); vh::sv(o, in_place);' % (mk(tmpl, ts, x), tmpl, ', '.join(
                    ('in_place.get<%d>() * %s' if t in TAN else 'in_place.get<%d>() + %s') % (i, l.cpp) for i, (t, l) in enumerate(zip(ts, y)))))
                outs.append(Part(res, vals(cs), 'assigned to itself'))
            # Jacobians in all parts' variables, in both orders
            w = [l for c in cs for l in c.leaves]
            w = list({l.name: l for l in w}.values())
            rows = sum(tangent(c.leaves[0]) for c in x)
            e = E('', lambda env, cs=cs: ref.Comp([('part %d' % i, c.f(env)) for i, c in enumerate(cs)]), sum((c.leaves for c in cs), ()))
            for sfx, call in (('', 'ex.evalWithJacobians'), (' forward', 'internal::evaluateWithJacobians(ex, ')):
                ww = w if not sfx else w[::-1]
                body.append('  auto r%d = %s%s%s); vh::sv(o, std::get<0>(r%d));' % (len(sfx), call, '(' if not sfx else '', ', '.join(l.name for l in ww), len(sfx)))
                outs.append(Part(res, vals(cs), 'value with Jacobians' + sfx))
                for i, l in enumerate(ww):
                    body.append('  vh::st(o, std::get<%d>(r%d));' % (i + 1, len(sfx)))
                    outs.append(Jac(e, l, rows, 'J/%s%s' % (l.name, sfx)))
            for l in w:
                body.append('  vh::st(o, ex.jacobian(%s));' % l.name)
                outs.append(Jac(e, l, rows, 'jacobian(%s)' % l.name))
            out.append(Case('expr_%s_%s' % (nm, name), '\n'.join(body), outs, e.leaves + alls(y if nm == 'all' else [])))
        # box-plus and box-minus (not of angle-axis parts, whose sums come out in another type: there is no conversion between compounds)
        if 'RA' not in ts:
            vt = {'RB': 'RB', 'PV': 'PV', 'RP': 'RP', 'Pose': 'RP', 'State': 'StateT'}[tmpl]
            d = [leaf('d%d_' % i, t, 'polarmid' if ts[i] in TAN else None) for i, t in enumerate(dt)]
            plus = [a + b for a, b in zip(x, d)]
            body = '  %s x = %s; %s d = %s; vh::sv(o, (x + d).eval()); auto p = (x + d).eval(); vh::sv(o, p); %s q{x + d}; vh::sv(o, q); x = x + d; vh::sv(o, x); vh::sv(o, d);' % (T, mk(tmpl, ts, x), ctype(vt, dt), mk(vt, dt, d), T)
            res = ts
            out.append(Case('plus_' + name, body, [Part(res, vals(plus), w) for w in ('sum', 'sum', 'constructed', 'assigned')] + [Part(dt, vals(d), 'operand')], alls(x, d)))
            # differences: x = e * y with e known
            en = leaves_for('e', ts, {t: 'axangbig' for t in TAN})
            xe = [e_ * b if t in TAN else a for t, e_, b, a in zip(ts, en, y, x)]
            diff = [e_.log() if t in TAN else a - b for t, e_, b, a in zip(ts, en, y, x)]
            use = [e_ if t in TAN else a for t, e_, a in zip(ts, en, x)]
            body = '  %s x{%s}; %s y = %s; vh::sv(o, (x - y).eval()); %s d{x - y}; vh::sv(o, d); d = x - y; vh::sv(o, d); vh::sv(o, (y - y).eval());' % (
                T, ', '.join('%s{%s}' % (CT[t], c.cpp) for t, c in zip(ts, xe)), T, mk(tmpl, ts, y), ctype(vt, dt))
            zero = lambda env, dt=dt: [Vec([lift(0)] * SZ[t]) for t in dt]
            out.append(Case('minus_' + name, body, [Part(dt, vals(diff), w) for w in ('difference', 'constructed', 'assigned')] + [Part(dt, zero, 'difference of equals')], alls(use, y)))
        # as a vector
        if all(t in SZ for t in ts):
            nv = sum(SZ[t] for t in ts)
            cat = lambda env, x=x: [c for l in x for c in l.f(env).v]
            out.append(Case('vector_' + name, '  %s x = %s; vh::st(o, valueAsVector(internal::adl{}, x)); vh::st(o, valueAsVector(internal::adl{}, %s{x})); const auto c = x; vh::st(o, valueAsVector(internal::adl{}, c)); vh::st(o, valueAsVector(internal::adl{}, (x + x).eval()));' % (T, mk(tmpl, ts, x), T),
                            [Nodes(nv, cat, 'vector')] * 3 + [Nodes(nv, lambda env, cat=cat: [2 * c for c in cat(env)], 'vector of sum')], alls(x)))
    return out
