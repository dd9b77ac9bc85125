"""Reference semantics: rotations as 3x3 matrices, rigid transforms as (R, t), tangents as vectors.

Every scalar is a dual number (value node, {seed: derivative node}) built with exact real arithmetic, so
the expected local derivative of any composite follows from the definition of the local perturbation
R' = exp(d) R,  T' = exp(xi) T,  v' = v + d  by differentiation alone.
"""
from fractions import Fraction
from . import dag
from .alg import add as nadd, sub as nsub, mul as nmul, div as ndiv, neg as nneg, R as Q, fnode


class D:
    __slots__ = ('v', 'd')

    def __init__(self, v, d=None):
        self.v = v
        self.d = d or {}

    def __add__(self, o):
        o = lift(o)
        d = dict(self.d)
        for k, x in o.d.items():
            d[k] = nadd(d[k], x) if k in d else x
        return D(nadd(self.v, o.v), d)
    __radd__ = __add__

    def __neg__(self):
        return D(nneg(self.v), {k: nneg(x) for k, x in self.d.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) + (-self)

    def __mul__(self, o):
        o = lift(o)
        d = {k: nmul(x, o.v) for k, x in self.d.items()}
        for k, x in o.d.items():
            y = nmul(self.v, x)
            d[k] = nadd(d[k], y) if k in d else y
        return D(nmul(self.v, o.v), d)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        r = ndiv(self.v, o.v)
        d = {k: ndiv(x, o.v) for k, x in self.d.items()}
        for k, x in o.d.items():
            y = nneg(ndiv(nmul(r, x), o.v))
            d[k] = nadd(d[k], y) if k in d else y
        return D(r, d)

    def __rtruediv__(self, o):
        return lift(o) / self

    def chain(self, v, dv):
        return D(v, {k: nmul(dv, x) for k, x in self.d.items()})


def lift(x):
    if isinstance(x, D):
        return x
    if isinstance(x, dag.Node):
        return D(x)
    return D(Q(x))


def dsqrt(x):
    r = fnode('sqrt', x.v)
    return x.chain(r, ndiv(Q(Fraction(1, 2)), r))


def dsin(x):
    return x.chain(fnode('sin', x.v), fnode('cos', x.v))


def dcos(x):
    return x.chain(fnode('cos', x.v), nneg(fnode('sin', x.v)))


def dacos(x):
    return x.chain(fnode('acos', x.v), nneg(ndiv(dag.ONE, fnode('sqrt', nsub(dag.ONE, nmul(x.v, x.v))))))


ZERO = D(dag.ZERO)
ONE = D(dag.ONE)


# ------------------------------------------------------------------ matrices (lists of rows)
def mm(A, B):
    return [[sum_(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def sum_(it):
    r = ZERO
    for x in it:
        r = r + x
    return r


def mv(A, v):
    return [sum_(A[i][k] * v[k] for k in range(len(v))) for i in range(len(A))]


def tr(A):
    return [list(r) for r in zip(*A)]


def madd(A, B):
    return [[x + y for x, y in zip(r, s)] for r, s in zip(A, B)]


def mscale(k, A):
    return [[k * x for x in r] for r in A]


def eye(n):
    return [[ONE if i == j else ZERO for j in range(n)] for i in range(n)]


def skew(v):
    a, b, c = v
    return [[ZERO, -c, b], [c, ZERO, -a], [-b, a, ZERO]]


def vadd(a, b):
    return [x + y for x, y in zip(a, b)]


def vneg(a):
    return [-x for x in a]


def dot(a, b):
    return sum_(x * y for x, y in zip(a, b))


# ------------------------------------------------------------------ semantic objects
class Rot:
    kind = 'rot'
    tangent = 3

    def __init__(self, m, q=None):
        self.m = m
        self.q = q      # unit quaternion (w, x, y, z) of the same rotation, when known


class RT:
    kind = 'rt'
    tangent = 6

    def __init__(self, m, t, q=None):
        self.m, self.t = m, t
        self.q = q


class Vec:
    kind = 'vec'

    def __init__(self, v):
        self.v = v
        self.tangent = len(v)


class Comp:
    """Compound: list of (name, object)."""
    kind = 'comp'

    def __init__(self, parts):
        self.parts = parts
        self.tangent = sum(p.tangent for _, p in parts)


def quat_rot(w, x, y, z):
    """Rotation matrix of a unit quaternion."""
    two = lift(2)
    return [[1 - two * (y * y + z * z), two * (x * y - w * z), two * (x * z + w * y)],
            [two * (x * y + w * z), 1 - two * (x * x + z * z), two * (y * z - w * x)],
            [two * (x * z - w * y), two * (y * z + w * x), 1 - two * (x * x + y * y)]]


def quat_mul(a, b):
    aw, ax, ay, az = a
    bw, bx, by, bz = b
    return (aw * bw - ax * bx - ay * by - az * bz, aw * bx + ax * bw + ay * bz - az * by,
            aw * by - ax * bz + ay * bw + az * bx, aw * bz + ax * by - ay * bx + az * bw)


HINTS = []


def qmul(a, b):
    if a.q is None or b.q is None:
        return None
    q = tuple(D(x.v) for x in quat_mul(a.q, b.q))
    HINTS.append(q)
    return q


def compose(a, b):
    if a.kind == 'rot' and b.kind == 'rot':
        return Rot(mm(a.m, b.m), qmul(a, b))
    ta = a.t if a.kind == 'rt' else [ZERO] * 3
    tb = b.t if b.kind == 'rt' else [ZERO] * 3
    return RT(mm(a.m, b.m), vadd(mv(a.m, tb), ta), qmul(a, b))


def inverse(a):
    q = (a.q[0],) + tuple(-x for x in a.q[1:]) if a.q else None
    if a.kind == 'rot':
        return Rot(tr(a.m), q)
    r = tr(a.m)
    return RT(r, vneg(mv(r, a.t)), q)


def apply(a, v):
    r = mv(a.m, v.v)
    return Vec(vadd(r, a.t) if a.kind == 'rt' else r)


def vee(m):
    return [m[2][1], m[0][2], m[1][0]]


def abc(phi):
    th2 = dot(phi, phi)
    th = dsqrt(th2)
    A = dsin(th) / th
    B = (1 - dcos(th)) / th2
    C = (1 - A) / th2
    return th, th2, A, B, C


def exp3m(phi):
    th, th2, A, B, C = abc(phi)
    S = skew(phi)
    return madd(eye(3), madd(mscale(A, S), mscale(B, mm(S, S)))), th, th2, A, B, C, S


def exp(v):
    v = v.v
    m, th, th2, A, B, C, S = exp3m(v[:3])
    half = D(nmul(Q(Fraction(1, 2)), th.v))
    k = dsin(half) / D(th.v)
    q = (dcos(half),) + tuple(k * D(x.v) for x in v[:3])
    HINTS.append(q)
    if len(v) == 3:
        return Rot(m, q)
    V = madd(eye(3), madd(mscale(B, S), mscale(C, mm(S, S))))
    return RT(m, mv(V, v[3:]), q)


def log3(m):
    """Principal logarithm, 0 < angle < pi.  Derivatives through the inverse left Jacobian."""
    val = [[D(x.v) for x in r] for r in m]
    c = (sum_(val[i][i] for i in range(3)) - 1) / lift(2)
    th = D(fnode('acos', c.v))
    k = th / (2 * dsin(th))
    phi = [k * (val[2][1] - val[1][2]), k * (val[0][2] - val[2][0]), k * (val[1][0] - val[0][1])]
    seeds = sorted({s for r in m for x in r for s in x.d}, key=str)
    if seeds:
        Ji = invleft(phi, th)
        out = [D(p.v) for p in phi]
        for s in seeds:
            dm = [[lift(x.d.get(s, dag.ZERO)) for x in r] for r in m]
            w = mm(dm, tr(val))
            d = mv(Ji, [w[2][1], w[0][2], w[1][0]])
            for i in range(3):
                out[i].d[s] = d[i].v
        phi = out
    return phi, th


def invleft(phi, th):
    S = skew(phi)
    th2 = dot(phi, phi)
    k = 1 / th2 - (1 + dcos(th)) / (2 * th * dsin(th))
    return madd(eye(3), madd(mscale(lift(Fraction(-1, 2)), S), mscale(k, mm(S, S))))


def log(a):
    phi, th = log3(a.m)
    if a.kind == 'rot':
        return Vec(phi)
    # V^-1 with dual phi
    th_, th2, A, B, C = abc(phi)
    S = skew(phi)
    k = (1 - A / (2 * B)) / th2
    Vi = madd(eye(3), madd(mscale(lift(Fraction(-1, 2)), S), mscale(k, mm(S, S))))
    return Vec(phi + mv(Vi, a.t))


def boxplus(a, v):
    return compose(exp(v), a)


def boxminus(a, b):
    return log(compose(a, inverse(b)))
