"""Symbolic inputs: how each public leaf type is fed to a harness and what it means."""
from fractions import Fraction
import random
import mpmath as mp
from . import dag, ref
from .ref import D, Rot, RT, Vec, lift, ZERO, ONE
from .alg import R as Q, mul as nmul, fnode


MAXLOG = Fraction(499, 1000)     # largest half angle of a logarithm's argument, in units of pi


class Spec:
    """Assumptions about the symbolic inputs of one case, and samplers for them."""

    def __init__(self):
        self.units = []       # lists of var nodes: sum of squares = 1
        self.nonneg = []      # nodes
        self.ranges = []      # (var node, lo, hi) in multiples of pi
        self.samplers = []    # functions (rng, flavour) -> dict
        self.small = []       # angle variables
        self.extra = []       # functions ctx -> None (further assumptions)
        self.nvars = 0
        self.where = []       # condition nodes every input satisfies

    def var(self, name):
        return dag.var(name)

    def free(self, names, scale=2.0):
        vs = [dag.var(n) for n in names]

        def s(rng, fl):
            if fl == 'zero':
                return {n: mp.mpf(0) for n in names}
            return {n: mp.mpf(rng.uniform(-scale, scale)) for n in names}
        self.samplers.append(s)
        self.nvars += len(names)
        return vs

    def unit(self, names):
        vs = [dag.var(n) for n in names]

        def s(rng, fl):
            x = [mp.mpf(rng.gauss(0, 1)) for _ in names]
            n = mp.sqrt(sum(v * v for v in x))
            return {k: v / n for k, v in zip(names, x)}
        self.samplers.append(s)
        self.units.append(vs)
        self.nvars += len(names)
        return vs

    def angle(self, name, lo, hi):
        """Angle variable in [lo*pi, hi*pi]."""
        v = dag.var(name)
        lo, hi = Fraction(lo), Fraction(hi)

        def s(rng, fl):
            l, h = mp.pi * lo.numerator / lo.denominator, mp.pi * hi.numerator / hi.denominator
            if fl == 'small':
                return {name: (h - l) * mp.mpf(rng.uniform(.2, 1)) * mp.mpf(10) ** -10 + (l if lo >= 0 else 0)}
            if fl.startswith('small-'):
                return {name: (h - l) * mp.mpf(rng.uniform(.2, 1)) * mp.mpf(10) ** -int(fl[6:]) + (l if lo >= 0 else 0)}
            if fl == 'zero':
                return {name: mp.mpf(0) if lo <= 0 else l}
            if fl == 'edge':
                # close to either end
                d = (h - l) * mp.mpf(10) ** -rng.uniform(1.5, 5)
                return {name: l + d if lo < 0 and rng.random() < .5 else h - d}
            if fl == 'big':
                return {name: l + (h - l) * mp.mpf(rng.uniform(.97, .99))}
            return {name: l + (h - l) * mp.mpf(rng.uniform(.06, .94))}
        self.samplers.append(s)
        self.ranges.append((v, lo, hi))
        if lo >= 0:
            self.nonneg.append(v)
        self.small.append(v)
        self.nvars += 1
        return v

    def require(self, c):
        self.where.append(c)

    def positive(self, x):
        self.require(dag.lt(dag.ZERO, getattr(x, 'v', x)))

    def nonzero_vec(self, o):
        self.positive(ref.dot(o.v, o.v))

    def sample(self, rng, flavour):
        e = {}
        for s in self.samplers:
            e.update(s(rng, flavour))
        return e

    def setup(self, ctx):
        for v, lo, hi in self.ranges:
            ctx.atom(v)
            ctx.angle_range(v, lo, hi)
        for u in self.units:
            ctx.unit(u)
        for n in self.nonneg:
            ctx.assume_nonneg(ctx.rewrite(n))
        for f in self.extra:
            f(ctx)


# ------------------------------------------------------------------ types
# key -> (C++ type, number of doubles read, semantic kind)
VEC3 = {'Tr': 'Translationd', 'Rr': 'RelativeRotationd', 'Pt': 'Pointd'}
TYPES = {
    'RM': ('RotationMd', 9), 'RQ': ('RotationQd', 4), 'RA': ('RotationAd', 4),
    'TM': ('RigidTransformMd', 12), 'TQ': ('RigidTransformQd', 7),
    'Tr': ('Translationd', 3), 'Rr': ('RelativeRotationd', 3), 'Pt': ('Pointd', 3),
    'Tw': ('Twistd', 6), 'Sc': ('wave::Scalar<double>', 1), 'dbl': ('double', 1),
}


def cols(m):
    return [m[i][j] for j in range(3) for i in range(3)]


def seed_rot(m, seeds):
    """Attach left-perturbation derivatives dR = [e_k] R."""
    out = [[D(x.v) for x in r] for r in m]
    for k in range(3):
        e = [ONE if i == k else ZERO for i in range(3)]
        dm = ref.mm(ref.skew(e), m)
        for i in range(3):
            for j in range(3):
                out[i][j].d[seeds[k]] = dm[i][j].v
    return out


def make_rot(spec, name, t, mode):
    """Returns (input nodes in memory order, rows of the rotation matrix as plain duals)."""
    if t in ('RM',) and mode == 'free':
        vs = spec.free(['%s%d' % (name, i) for i in range(9)])
        m = [[D(vs[3 * j + i]) for j in range(3)] for i in range(3)]
        return vs, m, None
    if mode == 'quat' and t != 'RA':
        w, x, y, z = spec.unit([name + c for c in 'wxyz'])
        q = tuple(D(v) for v in (w, x, y, z))
        m = ref.quat_rot(*q)
        ref.HINTS.append(q)
        if t == 'RM':
            return [v.v for v in cols(m)], m, q
        return [x, y, z, w], m, q
    if mode == 'halfturn':
        a = [D(v) for v in spec.unit([name + 'a' + c for c in 'xyz'])]
        q = (D(dag.ZERO),) + tuple(a)
        m = ref.quat_rot(*q)
        ref.HINTS.append(q)
        if t == 'RM':
            return [v.v for v in cols(m)], m, q
        return [v.v for v in a] + [dag.ZERO], m, q
    # half angle h and axis a
    if mode in ('quat', 'anyang'):
        h = spec.angle(name + 'h', -2, 2)
    else:
        h = spec.angle(name + 'h', Fraction(1, 10 ** 12) if mode.startswith('axangmid') else Fraction(1, 1000) if mode == 'axangbig' else MAXLOG if mode == 'axangpi' else 0, Fraction(1, 2) if mode == 'axangpi' else MAXLOG)
    if mode == 'axang-xz':
        a = spec.unit([name + 'ax', name + 'az'])
        a = [a[0], dag.ZERO, a[1]]
    else:
        a = spec.unit([name + 'a' + c for c in 'xyz'])
    c, s = fnode('cos', h), fnode('sin', h)
    sg = -1 if mode in ('axang-neg', 'axangmid-neg') else 1
    q = [D(nmul(Q(sg), c))] + [D(nmul(Q(sg), nmul(s, v))) for v in a]
    m = ref.quat_rot(*q)
    q = tuple(q)
    ref.HINTS.append(q)
    if t == 'RM':
        return [v.v for v in cols(m)], m, q
    if t == 'RQ':
        return [v.v for v in q[1:]] + [q[0].v], m, q
    return [nmul(Q(2), h)] + list(a), m, q


class Leaf:
    def __init__(self, name, t, mode=None, ctype=None):
        self.name, self.t, self.mode = name, t, mode
        self.ctype = ctype or TYPES[t][0]
        self.n = TYPES[t][1]

    def build(self, spec):
        nm, t = self.name, self.t
        if t in ('RM', 'RQ', 'RA'):
            ins, m, q = make_rot(spec, nm, t, self.mode or 'quat')
            self.seeds = [(nm, k) for k in range(3)]
            return ins, Rot(seed_rot(m, self.seeds), q)
        if t in ('TM', 'TQ'):
            mode = self.mode or 'quat'
            ins, m, q = make_rot(spec, nm, 'RM' if t == 'TM' else 'RQ', mode.replace('+twist', ''))
            tw = None
            if mode.endswith('+twist'):
                # the translation is that of exp(2h a, u)
                u = [D(x) for x in spec.free(['%su%d' % (nm, i) for i in range(3)])]
                ax = [D(dag.var(nm + 'a' + c)) for c in 'xyz']
                th = D(nmul(Q(2), dag.var(nm + 'h')))
                S = ref.skew(ax)
                V = ref.madd(ref.eye(3), ref.madd(ref.mscale((1 - ref.dcos(th)) / th, S), ref.mscale(1 - ref.dsin(th) / th, ref.mm(S, S))))
                tv = [x.v for x in ref.mv(V, u)]
                tw = Vec([th * x for x in ax] + u)
            else:
                tv = spec.free(['%st%d' % (nm, i) for i in range(3)])
            self.seeds = [(nm, k) for k in range(6)]
            mr = seed_rot(m, self.seeds[:3])
            tt = [D(x) for x in tv]
            for k in range(3):
                e = [ONE if i == k else ZERO for i in range(3)]
                dv = ref.mv(ref.skew(e), [D(x) for x in tv])
                for i in range(3):
                    tt[i].d[self.seeds[k]] = dv[i].v
                tt[k].d[self.seeds[3 + k]] = dag.ONE
            r = RT(mr, tt, q)
            r.twist = tw
            return ins + tv, r
        n = self.n
        self.seeds = [(nm, k) for k in range(n)]
        if self.mode in ('polar', 'polarpi', 'polarmid', 'polarmidpi'):
            # first three: theta * axis
            th = spec.angle(nm + 'th', Fraction(1, 1000) if self.mode.startswith('polarmid') else 0, 2 * MAXLOG if self.mode.endswith('pi') else 8)
            a = spec.unit([nm + 'a' + c for c in 'xyz'])
            vs = [nmul(th, x) for x in a]
            if n == 6:
                vs += spec.free(['%su%d' % (nm, i) for i in range(3)])
        else:
            vs = spec.free(['%s%d' % (nm, i) for i in range(n)])
        return vs, Vec([D(v, {s: dag.ONE}) for v, s in zip(vs, self.seeds)])
