"""A case: one harness function over symbolic inputs together with its specification."""
from fractions import Fraction
import mpmath as mp
from . import dag, ref
from .leaf import Spec, Leaf, TYPES
from .ref import D, Rot, RT, Vec, ZERO, ONE, lift
from .alg import mpeval, add as nadd, sub as nsub, mul as nmul, neg as nneg, R as Q


# ------------------------------------------------------------------ expression DSL
class E:
    """C++ text of a wave_geometry expression together with its reference meaning."""

    def __init__(self, cpp, f, leaves=()):
        self.cpp, self.f, self.leaves = cpp, f, tuple(leaves)

    def ev(self, env):
        return self.f(env)

    def __mul__(self, o):
        def f(env):
            a, b = self.f(env), o.f(env)
            if a.kind in ('rot', 'rt') and b.kind in ('rot', 'rt'):
                return ref.compose(a, b)
            if a.kind in ('rot', 'rt'):
                return ref.apply(a, b)
            # scalar scaling
            if len(a.v) == 1 and getattr(a, 'scalar', False):
                return scale(a.v[0], b)
            return scale(b.v[0], a)
        return E('(%s * %s)' % (self.cpp, o.cpp), f, self.leaves + o.leaves)

    def __add__(self, o):
        def f(env):
            a, b = self.f(env), o.f(env)
            if a.kind in ('rot', 'rt'):
                return ref.boxplus(a, b)
            return keep(Vec(ref.vadd(a.v, b.v)), a)
        return E('(%s + %s)' % (self.cpp, o.cpp), f, self.leaves + o.leaves)

    def __sub__(self, o):
        def f(env):
            a, b = self.f(env), o.f(env)
            if a.kind in ('rot', 'rt'):
                return ref.boxminus(a, b)
            return keep(Vec(ref.vadd(a.v, ref.vneg(b.v))), a)
        return E('(%s - %s)' % (self.cpp, o.cpp), f, self.leaves + o.leaves)

    def __truediv__(self, o):
        def f(env):
            a, b = self.f(env), o.f(env)
            return keep(Vec([x / b.v[0] for x in a.v]), a)
        return E('(%s / %s)' % (self.cpp, o.cpp), f, self.leaves + o.leaves)

    def __neg__(self):
        return E('(-%s)' % self.cpp, lambda env: keep(Vec(ref.vneg(self.f(env).v)), self.f(env)), self.leaves)

    def m(self, name, f):
        return E('%s.%s()' % (self.cpp, name), lambda env: f(self.f(env)), self.leaves)

    def inv(self):
        return E('inverse(%s)' % self.cpp, lambda env: ref.inverse(self.f(env)), self.leaves)

    def rot(self):
        return self.m('rotation', lambda a: Rot(a.m, a.q))

    def trans(self):
        return self.m('translation', lambda a: Vec(a.t))

    def exp(self):
        return E('exp(%s)' % self.cpp, lambda env: ref.exp(self.f(env)), self.leaves)

    def log(self):
        return E('log(%s)' % self.cpp, lambda env: ref.log(self.f(env)), self.leaves)

    def wrap(self, cpp):
        """Same meaning, other C++ text (with %s for the original)."""
        return E(cpp % self.cpp if '%' in cpp else cpp, self.f, self.leaves)


def keep(v, a):
    if getattr(a, 'scalar', False):
        v.scalar = True
    return v


def scale(k, v):
    return Vec([k * x for x in v.v])


def leaf(name, t, mode=None, ctype=None):
    l = Leaf(name, t, mode, ctype)

    def f(env):
        o = env[name]
        if t in ('Sc', 'dbl'):
            o.scalar = True
        return o
    return E(name, f, (l,))


def const(x):
    def f(env):
        v = Vec([lift(Fraction(x))])
        v.scalar = True
        return v
    return E(repr(float(x)), f)


# ------------------------------------------------------------------ outputs
class Ob:
    """One obligation: lhs == rhs (nodes); num = (got, expected) nodes for the replay comparison."""
    __slots__ = ('label', 'lhs', 'rhs')

    def __init__(self, label, lhs, rhs):
        self.label, self.lhs, self.rhs = label, lhs, rhs


    def pair(self, e, memo):
        return mpeval([self.lhs, self.rhs], e, memo)


class Dec(Ob):
    """A decision: the stored flag is 1 wherever all of `yes` hold and 0 wherever one of `no` holds."""
    __slots__ = ('yes', 'no', 'lemmas')

    def __init__(self, label, lhs, yes, no, lemmas=()):
        self.label, self.lhs, self.rhs, self.yes, self.no, self.lemmas = label, lhs, None, yes, no, lemmas

    def pair(self, e, memo):
        a = mpeval([self.lhs], e, memo)[0]
        y = bool(self.yes) and all(bool(x) for x in mpeval(self.yes, e, memo))
        n = any(bool(x) for x in mpeval(self.no, e, memo))
        assert not (y and n), 'contradictory decision ' + self.label
        return a, mp.mpf(1) if y else mp.mpf(0) if n else a


def rot_from(t, o):
    """(rows of D, extra constraints [(label, node, expected)]) of a stored rotation."""
    if t == 'RM':
        return [[D(o[3 * j + i]) for j in range(3)] for i in range(3)], []
    if t == 'RQ':
        x, y, z, w = [D(v) for v in o]
        n = x * x + y * y + z * z + w * w
        return ref.quat_rot(w, x, y, z), [('unit norm', n.v, dag.ONE)]
    # angle-axis: Rodrigues
    from .alg import fnode
    c, s = D(fnode('cos', o[0])), D(fnode('sin', o[0]))
    a = [D(v) for v in o[1:4]]
    S = ref.skew(a)
    m = ref.madd(ref.eye(3), ref.madd(ref.mscale(s, S), ref.mscale(1 - c, ref.mm(S, S))))
    return m, [('unit axis', ref.dot(a, a).v, dag.ONE)]


class Val:
    """Stored value of a public type compared with a semantic object."""
    SIZE = {'R': 10, 'T': 17, 'RM': 9, 'RQ': 4, 'RA': 4, 'TM': 16, 'TQ': 7}

    def __init__(self, t, e, label='value'):
        self.t, self.e, self.label = t, e, label
        self.n = t if isinstance(t, int) else self.SIZE[t]

    def obls(self, o, env):
        r = self.e.ev(env) if isinstance(self.e, E) else (self.e(env) if callable(self.e) else self.e)
        L = self.label
        t = self.t
        if t in ('R', 'T'):
            tag = int(o[0].gv)
            t = ('RM', 'RQ', 'RA')[tag] if t == 'R' else ('TM', 'TQ')[tag]
            o = o[1:1 + self.SIZE[t]]
        if isinstance(t, int):
            return [Ob('%s[%d]' % (L, i), o[i], lift(r.v[i]).v) for i in range(t)]
        if t == 'TM':
            out = []
            for i in range(4):
                for j in range(4):
                    if i == 3:
                        x = ONE if j == 3 else ZERO
                    else:
                        x = r.m[i][j] if j < 3 else r.t[i]
                    out.append(Ob('%s(%d,%d)' % (L, i, j), o[4 * j + i], lift(x).v))
            return out
        m, ex = rot_from('RQ' if t == 'TQ' else t, o[:4] if t == 'TQ' else o)
        out = [Ob('%s %s' % (L, a), b, c) for a, b, c in ex]
        out += [Ob('%s R(%d,%d)' % (L, i, j), m[i][j].v, lift(r.m[i][j]).v) for i in range(3) for j in range(3)]
        if t == 'TQ':
            out += [Ob('%s t[%d]' % (L, i), o[4 + i], lift(r.t[i]).v) for i in range(3)]
        return out


def dpart(x, s):
    return lift(lift(x).d.get(s, dag.ZERO))


def jac_obls(label, rows, o, r, seeds):
    """o: column-major rows x len(seeds) nodes."""
    out = []
    for k, s in enumerate(seeds):
        col = [D(v) for v in o[rows * k:rows * (k + 1)]]
        out += col_obls('%s d%s%d' % (label, s[0], s[1]), col, r, s)
    return out


def col_obls(label, col, r, s):
    out = []
    if r.kind == 'vec':
        return [Ob('%s row %d' % (label, i), col[i].v, dpart(r.v[i], s).v) for i in range(len(r.v))]
    if r.kind == 'comp':
        i = 0
        for nm, p in r.parts:
            out += col_obls('%s %s' % (label, nm), col[i:i + p.tangent], p, s)
            i += p.tangent
        return out
    w = col[:3]
    m0 = [[D(lift(x).v) for x in rr] for rr in r.m]
    W = ref.mm(ref.skew(w), m0)
    for i in range(3):
        for j in range(3):
            out.append(Ob('%s R(%d,%d)' % (label, i, j), W[i][j].v, dpart(r.m[i][j], s).v))
    if r.kind == 'rt':
        t0 = [D(lift(x).v) for x in r.t]
        dv = ref.vadd(ref.mv(ref.skew(w), t0), col[3:6])
        for i in range(3):
            out.append(Ob('%s t[%d]' % (label, i), dv[i].v, dpart(r.t[i], s).v))
    return out


class Jac:
    def __init__(self, e, wrt, rows, label=None):
        self.e, self.wrt, self.rows = e, wrt, rows
        self.label = label or ('J/' + wrt.name)
        self.n = rows * tangent(wrt)

    def obls(self, o, env):
        r = self.e.ev(env)
        return jac_obls(self.label, self.rows, o, r, self.wrt.seeds)


def tangent(l):
    return {'RM': 3, 'RQ': 3, 'RA': 3, 'TM': 6, 'TQ': 6}.get(l.t, l.n)


class Nodes:
    """n stored numbers compared with the numbers f(env) -> list of nodes/duals/rationals."""

    def __init__(self, n, f, label='out'):
        self.n, self.f, self.label = n, f, label

    def obls(self, o, env):
        r = self.f(env)
        assert len(r) == self.n, (len(r), self.n)
        return [Ob('%s[%d]' % (self.label, i), o[i], lift(x).v) for i, x in enumerate(r)]


class Holds:
    """A stored flag; f(env) -> (yes, no[, lemmas]): lists of condition nodes, and of nodes whose squares matter, see Dec."""
    n = 1

    def __init__(self, f, label='decision'):
        self.f, self.label = f, label

    def obls(self, o, env):
        return [Dec(self.label, o[0], *self.f(env))]


class Same:
    """Two stored blocks of n numbers each hold the same values."""

    def __init__(self, n, label='agree', k=2):
        self.h, self.n, self.label, self.k = n, k * n, label, k

    def obls(self, o, env):
        h = self.h
        return [Ob('%s#%d[%d]' % (self.label, j, i), o[j * h + i], o[i]) for j in range(1, self.k) for i in range(h)]


class AsFirst:
    """n stored numbers equal to the n numbers stored at offset k of the same case."""
    whole = True

    def __init__(self, k, n, label):
        self.k, self.n, self.label = k, n, label

    def obls(self, o, env, allouts):
        return [Ob('%s[%d]' % (self.label, i), o[i], allouts[self.k + i]) for i in range(self.n)]


class SameRaw(Same):
    """As Same, but the stored numbers are compared with the stored input numbers in order (bit copies)."""


class Free:
    """n stored numbers, no constraint by themselves (used by later outputs through fn)."""

    def __init__(self, n, fn=None, label='raw'):
        self.n, self.fn, self.label = n, fn, label

    def obls(self, o, env):
        return [Ob(*x) for x in self.fn(o, env)] if self.fn else []


class Case:
    def __init__(self, name, body, outs, leaves, pre='', tol=None, note='', timeout=None, extra=None,
                 domain=None, group=None, max_paths=64, nopass=False, nofp=False, expect_end=None, small=True, float_in=False):
        self.name, self.body, self.outs, self.pre = name, body, outs, pre
        seen = {}
        for l in leaves:
            seen.setdefault(l.name, l)
        self.leaves = list(seen.values())
        self.n_in = sum(l.n for l in self.leaves)
        self.n_out = sum(o.n for o in outs)
        self.tol = tol
        self.ntol = None   # rounding of the native run (default 1e-7)
        self.btol = None   # error allowed on bounded small-angle paths (default 1e-7)
        self.note = note
        self.extra = extra
        self.domain = domain
        self.group = group
        self.max_paths = max_paths
        self.timeout = timeout
        self.small = small

    def source(self):
        s = [self.pre, 'extern "C" void %s(const double* in, double* out) {' % self.cname()]
        off = 0
        for l in self.leaves:
            s.append('  auto %s = vh::ld<%s>(in + %d);' % (l.name, l.ctype, off))
            off += l.n
        s.append('  vh::O o{out};')
        s.append(self.body if self.body.rstrip().endswith((';', '}')) else '  ' + self.body + ';')
        s.append('}')
        return '\n'.join(s) + '\n'

    def cname(self):
        return 'h_' + ''.join(c if c.isalnum() else '_' for c in self.name)

    def build(self):
        """(spec, input nodes, env of semantic objects)."""
        spec = Spec()
        ref.HINTS.clear()
        ins, env = [], {}
        for l in self.leaves:
            a, b = l.build(spec)
            ins += a
            env[l.name] = b
        if self.extra:
            self.extra(spec, env)
        for o in self.outs:
            if isinstance(getattr(o, 'e', None), E):
                o.e.ev(env)
        self.hints = [x.v for q in ref.HINTS for x in q]
        return spec, ins, env

    def obligations(self, outs, env):
        res = []
        k = 0
        for o in self.outs:
            a = outs[k:k + o.n]
            res += o.obls(a, env, outs) if getattr(o, 'whole', False) else o.obls(a, env)
            k += o.n
        return res


def value_case(name, e, t, **kw):
    """Store one expression's value."""
    return Case(name, 'vh::sv(o, %s.eval());' % e.cpp, [Val(t, e)], e.leaves, **kw)


HEAD = '#include "vh.hpp"\n'


def rows_of(t):
    return {'R': 3, 'T': 6, 'RM': 3, 'RQ': 3, 'RA': 3, 'TM': 6, 'TQ': 6}.get(t, t)


def jac_case(name, e, t, wrt=None, call=None, **kw):
    """Value and Jacobians of one expression with respect to the given leaves (default: each leaf once)."""
    ls = list({l.name: l for l in e.leaves}.values())
    w = [l for l in ls if wrt is None or l.name in wrt]
    call = call or '(%s).evalWithJacobians(%s)' % (e.cpp, ', '.join(l.name for l in w))
    body = ['  auto r = %s;' % call, '  vh::sv(o, std::get<0>(r));']
    outs = [Val(t, e)]
    for i, l in enumerate(w):
        body.append('  vh::st(o, std::get<%d>(r));' % (i + 1))
        outs.append(Jac(e, l, rows_of(t)))
    return Case(name, '\n'.join(body), outs, e.leaves, **kw)
