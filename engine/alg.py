"""Deciding equalities and side conditions of DAG terms over the reals with z3.

A Ctx holds the assumptions about the symbolic inputs (unit quaternions, angle ranges, path conditions).
Special nodes (sqrt, trigonometric and inverse trigonometric functions, fabs) are resolved to algebraic
expressions by lemmas; each lemma is discharged by the solver before it is used.  What stays unresolved
becomes an uninterpreted real constant constrained by its defining axioms.

A goal  a == b  is brought to  N == 0  by clearing denominators structurally; z3 receives N as a term over
the atoms, the assumptions g_k = 0, and hints  c_k * g_k = 0  (consequences of the assumptions), and has to
report unsat for N != 0.
"""
import time
from fractions import Fraction
import z3
import mpmath as mp
from . import dag, poly
from .dag import Node
from .poly import TooBig

mp.mp.dps = 110


class Unresolved(Exception):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0

    def add(self, o):
        for k in self.__dict__:
            self.__dict__[k] += o.__dict__[k]


STATS = Stats()


def check(solver, timeout_ms):
    solver.set('timeout', timeout_ms)
    t = time.time()
    r = solver.check()
    STATS.time += time.time() - t
    STATS.queries += 1
    if r == z3.unsat:
        STATS.unsat += 1
    elif r == z3.sat:
        STATS.sat += 1
    else:
        STATS.unknown += 1
    return r


_lit = {}


def ratlit(x):
    """Exact rational meaning of a floating point literal: decimal/rational literals such as 1.0/6 are
    read as the rational they round."""
    r = _lit.get(x)
    if r is None:
        if x != x or x in (float('inf'), float('-inf')):
            raise Unresolved('constant %r' % x)
        fr = Fraction(x)
        r = fr
        if fr.denominator > 4096 and abs(x) < 1e6:
            c = fr.limit_denominator(2000)
            if c != 0 and abs(float(c) - x) <= abs(x) * 2.3e-16:
                r = c
            elif c != 0 and f32(float(c)) == x:
                r = c
        _lit[x] = r
    return r


def f32(x):
    import struct
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return x


# ------------------------------------------------------------------ ring constructors (exact reals)
def c_of(n):
    if n.op == 'c':
        return ratlit(n.args[0])
    if n.op == 'q':
        return n.args[0]
    return None


def R(x):
    return dag.frac(Fraction(x))


def add(a, b):
    ca, cb = c_of(a), c_of(b)
    if ca == 0:
        return b
    if cb == 0:
        return a
    if ca is not None and cb is not None:
        return R(ca + cb)
    if a.id > b.id:
        a, b = b, a
    return dag.mk('+', (a, b))


def neg(a):
    ca = c_of(a)
    if ca is not None:
        return R(-ca)
    if a.op == 'neg':
        return a.args[0]
    return dag.mk('neg', (a,))


def sub(a, b):
    if a is b:
        return dag.ZERO
    cb = c_of(b)
    if cb == 0:
        return a
    ca = c_of(a)
    if ca is not None and cb is not None:
        return R(ca - cb)
    if ca == 0:
        return neg(b)
    return dag.mk('-', (a, b))


def mul(a, b):
    ca, cb = c_of(a), c_of(b)
    if ca == 0 or cb == 0:
        return dag.ZERO
    if ca == 1:
        return b
    if cb == 1:
        return a
    if ca is not None and cb is not None:
        return R(ca * cb)
    if ca == -1:
        return neg(b)
    if cb == -1:
        return neg(a)
    if a.id > b.id:
        a, b = b, a
    return dag.mk('*', (a, b))


def div(a, b):
    ca, cb = c_of(a), c_of(b)
    if cb is not None and cb != 0:
        if cb == 1:
            return a
        if ca is not None:
            return R(ca / Fraction(cb))
        return mul(a, R(Fraction(1) / Fraction(cb)))
    if ca == 0:
        return dag.ZERO
    return dag.mk('/', (a, b))


def fnode(name, *args):
    return dag.mk(name, args)


# ------------------------------------------------------------------ numeric evaluation (mpmath)
def mpeval(roots, env, memo=None):
    val = {} if memo is None else memo
    for n in dag.topo([r for r in roots if r.id not in val]):
        if n.id in val:
            continue
        o = n.op
        a = n.args
        if o == 'c':
            fr = ratlit(a[0]) if a[0] == a[0] and abs(a[0]) != float('inf') else None
            v = mp.mpf(a[0]) if fr is None else mp.mpf(fr.numerator) / fr.denominator
        elif o == 'q':
            v = mp.mpf(a[0].numerator) / a[0].denominator
        elif o == 'var':
            v = env[a[0]]
        elif o == '+':
            v = val[a[0].id] + val[a[1].id]
        elif o == '-':
            v = val[a[0].id] - val[a[1].id]
        elif o == '*':
            v = val[a[0].id] * val[a[1].id]
        elif o == '/':
            y = val[a[1].id]
            v = val[a[0].id] / y if y != 0 else mp.nan
        elif o == 'neg':
            v = -val[a[0].id]
        elif o == 'f32':
            v = val[a[0].id]
        elif o in ('lt', 'eq'):
            x, y = val[a[0].id], val[a[1].id]
            v = x < y if o == 'lt' else x == y
        elif o == 'not':
            v = not val[a[0].id]
        elif o == 'and':
            v = val[a[0].id] and val[a[1].id]
        elif o == 'true':
            v = True
        elif o == 'false':
            v = False
        elif o == 'atan2':
            y, x = val[a[0].id], val[a[1].id]
            v = mp.atan2(y, x) if (x != 0 or y != 0) else mp.mpf(0)
        else:
            x = val[a[0].id]
            if mp.isnan(x):
                v = mp.nan
            elif o == 'sqrt':
                v = mp.sqrt(x) if x >= 0 else (mp.mpf(0) if x > -1e-30 else mp.nan)
            elif o == 'sin':
                v = mp.sin(x)
            elif o == 'cos':
                v = mp.cos(x)
            elif o == 'tan':
                v = mp.tan(x)
            elif o == 'acos':
                v = mp.acos(x) if abs(x) <= 1 else (mp.acos(mp.sign(x)) if abs(x) < 1 + 1e-30 else mp.nan)
            elif o == 'asin':
                v = mp.asin(x) if abs(x) <= 1 else mp.nan
            elif o == 'atan':
                v = mp.atan(x)
            elif o == 'fabs':
                v = abs(x)
            elif o == 'exp':
                v = mp.exp(x)
            elif o == 'log':
                v = mp.log(x) if x > 0 else mp.nan
            else:
                raise ValueError('mpeval ' + o)
        val[n.id] = v
    return [val[r.id] for r in roots]


# ------------------------------------------------------------------ rational functions (encoder side)
class Rat:
    __slots__ = ('num', 'den')

    def __init__(self, num, den):
        self.num = num      # reduced polynomial
        self.den = den      # dict factor id -> exponent


class Lemma:
    __slots__ = ('what', 'status')

    def __init__(self, what, status):
        self.what, self.status = what, status


class Ctx:
    TRIG_DEN = 4      # base angle = atom / TRIG_DEN is refined from {1, 2, 4}

    def __init__(self, samples, timeout_ms=20000):
        self.samples = samples          # list of env: var name -> mpf
        self.memo = [dict() for _ in samples]
        self.atoms = []                 # nodes
        self.aidx = {}                  # node id -> index
        self.zv = []
        self.rules = {}                 # atom idx -> poly  (v*v -> poly)
        self.gz = {}                    # atom idx -> z3 term v*v - rhs (structural)
        self.ineq = []                  # z3 facts (inequalities etc.)
        self.factors = []               # den factor polys
        self.fkey = {}
        self.cmemo = {}
        self.rw = {}
        self.zmemo = {}
        self.pmemo = {}
        self.hmemo = {}
        self.hcof = {}
        self.certified = set()
        self.ndmemo = {}
        self.timeout = timeout_ms
        self.lemmas = []
        self.nonneg = set()             # atom ids known >= 0
        self.linear = {}                # atom idx -> poly (v -> poly), from equality path conditions
        self.trigden = {}               # atom node id -> denominators
        self.bounds = []
        self.defs = []                  # definedness obligations: (kind, node)
        self.failed = []
        self.fscale = {}
        self.hints = []
        self.pfacts = []
        self.retired = set()            # absolute values whose sign is known

    # -------------------------------------------------------------- numeric
    def nums(self, node):
        return [mpeval([node], e, m)[0] for e, m in zip(self.samples, self.memo)]

    # -------------------------------------------------------------- atoms
    def atom(self, node):
        i = self.aidx.get(node.id)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(node)
            self.aidx[node.id] = i
            self.zv.append(z3.Real('%s_%d' % (node.args[0] if node.op == 'var' else node.op, i)))
        return i

    def assume_square(self, v, rhs):
        """v*v == rhs with v an atom node, rhs a node over other atoms."""
        i = self.atom(v)
        rhs = self.rewrite(rhs)
        p = self.rpoly(rhs)
        pn = self.poly_node(p)
        if not self.prove_eq(rhs, pn, 'normal form of a defining equation'):
            raise Unresolved('defining equation')
        self.rules[i] = p
        self.gz[i] = (dag.mul(v, v), pn)

    def unit(self, vs):
        """sum of squares of the var nodes == 1."""
        rhs = dag.ONE
        for x in vs[1:]:
            rhs = sub(rhs, mul(x, x))
        self.assume_square(vs[0], rhs)

    def assume_nonneg(self, node):
        self.nonneg.add(node.id)
        self.ineq.append(self.z(node) >= 0)

    def assume(self, f):
        self.ineq.append(f)

    def rpoly(self, node):
        r = self.conv(self.rewrite(node))
        if r.den:
            raise Unresolved('denominator in a defining equation')
        return r.num

    # -------------------------------------------------------------- factors
    def add_factor(self, p, den, num, exp):
        """den *= p^exp, splitting content; returns the scaled numerator."""
        if not p:
            raise Unresolved('division by zero')
        if len(p) == 1 and () in p:
            c = p[()]
            return poly.pscale(num, Fraction(1) / (Fraction(c) ** exp))
        ct = poly.content(p)
        if ct:
            for v in ct:
                den[('v', v)] = den.get(('v', v), 0) + exp
            p = {poly.mdiv(m, ct): c for m, c in p.items()}
            if len(p) == 1 and () in p:
                return poly.pscale(num, Fraction(1) / (Fraction(p[()]) ** exp))
        lead = Fraction(p[min(p)])
        q = poly.pscale(p, 1 / lead)
        num = poly.pscale(num, 1 / lead ** exp)
        k = poly.pkey(q)
        f = self.fkey.get(k)
        if f is None:
            f = ('p', len(self.factors))
            self.factors.append(q)
            self.fkey[k] = f
        den[f] = den.get(f, 0) + exp
        return num

    def fpoly(self, f):
        return {(f[1],): 1} if f[0] == 'v' else self.factors[f[1]]

    def red(self, p):
        return poly.reduce(p, self.rules)

    def cancel(self, num, den):
        if not num:
            return num, {}
        if not den:
            return num, den
        ct = poly.content(num)
        if ct:
            for v in set(ct):
                e = den.get(('v', v), 0)
                if e:
                    k = min(e, ct.count(v))
                    num = {poly.mdiv(m, (v,) * k): c for m, c in num.items()}
                    if e == k:
                        del den[('v', v)]
                    else:
                        den[('v', v)] = e - k
        for f in [f for f in den if f[0] == 'p']:
            q = self.factors[f[1]]
            if len(q) == len(num):
                m0 = min(num)
                k = min(q)
                if m0 in q:
                    c = Fraction(num[m0]) / q[m0]
                    if all(m in num and num[m] == c * cc for m, cc in q.items()):
                        num = poly.pconst(c)
                        den[f] -= 1
                        if not den[f]:
                            del den[f]
        return num, den

    def radd(self, a, b, kb=1):
        if a.den == b.den:
            n = poly.padd(a.num, b.num, kb)
            d = dict(a.den)
        else:
            na, nb = a.num, b.num
            d = dict(a.den)
            for f, e in b.den.items():
                ea = a.den.get(f, 0)
                if e > ea:
                    na = poly.pmul(na, poly.ppow(self.fpoly(f), e - ea))
                    d[f] = e
            for f, e in a.den.items():
                eb = b.den.get(f, 0)
                if e > eb:
                    nb = poly.pmul(nb, poly.ppow(self.fpoly(f), e - eb))
            n = self.red(poly.padd(na, nb, kb))
        n, d = self.cancel(n, d)
        return Rat(n, d)

    def rmul(self, a, b):
        n = self.red(poly.pmul(a.num, b.num))
        d = dict(a.den)
        for f, e in b.den.items():
            d[f] = d.get(f, 0) + e
        n, d = self.cancel(n, d)
        return Rat(n, d)

    def rinv(self, b):
        d = {}
        n = {(): 1}
        for f, e in b.den.items():
            n = poly.pmul(n, poly.ppow(self.fpoly(f), e))
        n = self.red(n)
        n = self.add_factor(b.num, d, n, 1)
        n, d = self.cancel(n, d)
        return Rat(n, d)

    def conv(self, node):
        """Normal form of a rewritten node."""
        r = self.cmemo.get(node.id)
        if r is not None:
            return r
        for n in dag.topo([node]):
            if n.id in self.cmemo:
                continue
            c = c_of(n)
            o = n.op
            if c is not None:
                r = Rat(poly.pconst(c), {})
            elif o == '+':
                r = self.radd(self.cmemo[n.args[0].id], self.cmemo[n.args[1].id])
            elif o == '-':
                r = self.radd(self.cmemo[n.args[0].id], self.cmemo[n.args[1].id], -1)
            elif o == 'neg':
                x = self.cmemo[n.args[0].id]
                r = Rat(poly.pscale(x.num, -1), x.den)
            elif o == '*':
                r = self.rmul(self.cmemo[n.args[0].id], self.cmemo[n.args[1].id])
            elif o == '/':
                r = self.rmul(self.cmemo[n.args[0].id], self.rinv(self.cmemo[n.args[1].id]))
            else:
                r = Rat({(self.atom(n),): 1}, {})
            self.cmemo[n.id] = r
        return self.cmemo[node.id]

    # -------------------------------------------------------------- rewriting of special nodes
    def rewrite(self, root):
        r = self.rw.get(root.id)
        if r is not None:
            return r
        for n in dag.topo([root]):
            if n.id in self.rw:
                continue
            o = n.op
            if o in ('var', 'q'):
                r = n
            elif o == 'c':
                r = R(ratlit(n.args[0]))
            else:
                a = [self.rw[x.id] for x in n.args]
                if o == '+':
                    r = add(*a)
                elif o == '-':
                    r = sub(*a)
                elif o == '*':
                    r = mul(*a)
                elif o == '/':
                    if c_of(a[1]) is None:
                        self.defs.append(('nonzero', a[1], False))
                    elif c_of(a[1]) == 0:
                        raise Unresolved('division by a constant zero')
                    r = div(*a)
                elif o == 'neg':
                    r = neg(a[0])
                elif o == 'f32':
                    r = a[0]
                else:
                    r = self.special(o, a)
                    if r.id not in self.rw:
                        self.rw[r.id] = r
            self.rw[n.id] = r
        return self.rw[root.id]

    def special(self, o, a):
        # congruence: arguments with the same normal form give the same atom
        x = a[0]
        if o in ('sin', 'cos'):
            return self.trig(o, x)
        if o == 'tan':
            return div(self.trig('sin', x), self.trig('cos', x))
        if o == 'sqrt':
            return self.sqrt(x)
        if o == 'fabs':
            return self.fabs(x)
        if o in ('acos', 'atan2', 'asin', 'atan'):
            return self.invtrig(o, a)
        return self.opaque(o, a)

    def rkey(self, node):
        r = self.conv(node)
        return (poly.pkey(r.num), tuple(sorted(r.den.items())))

    def opaque(self, o, a):
        k = (o,) + tuple(self.rkey(x) for x in a)
        n = self.zmemo.get(k)
        if n is None:
            n = fnode(o, *a)
            self.zmemo[k] = n
        return n

    # sqrt ---------------------------------------------------------
    def const_value(self, node):
        r = self.conv(node)
        if r.den:
            return None
        if not r.num:
            return Fraction(0)
        if len(r.num) == 1 and () in r.num:
            return Fraction(r.num[()])
        return None

    def sqrt(self, x):
        c = self.const_value(x)
        if c is not None:
            s = frac_sqrt(c)
            if s is not None:
                if self.prove_eq(x, R(c), 'sqrt argument constant'):
                    return R(s)
        r = self.conv(x)
        # numeric candidate: k * monomial
        sv = [mp.sqrt(v) if v >= 0 else mp.nan for v in self.nums(x)]
        cand = self.guess(sv)
        if cand is not None:
            if self.prove_eq(x, mul(cand, cand), 'sqrt of a square') and self.prove_nonneg(cand):
                return cand
        cand = self.guess_hint(sv)
        if cand is not None and self.prove_eq(x, mul(cand, cand), 'sqrt of a square'):
            return self.fabs(cand)
        if r.den:
            d = self.den_node(r)
            sd = self.sqrt_den(r)
            if sd is not None:
                # sqrt(n/d^2) = sqrt(n)/d for d > 0
                n = self.poly_node(r.num)
                return div(self.sqrt_atom(n), sd)
            if self.prove_pos(d):
                n = self.poly_node(self.red(poly.pmul(r.num, self.rpoly(d))))
                return div(self.sqrt_atom(n), d)
            return self.sqrt_atom_div(x, r)
        return self.sqrt_atom(x)

    def sqrt_atom_div(self, x, r):
        n = self.opaque('sqrt', (x,))
        if n.id not in self.aidx:
            self.domain('nonneg', x)
            self.assume_nonneg(n)
        return n

    def domain(self, kind, x):
        """Obligation that a function is applied within its domain, tried before facts about its result are
        recorded (those would imply it)."""
        try:
            ok = self.within(kind, x)
        except (Unresolved, TooBig):
            ok = False
        self.defs.append((kind, x, ok))

    def within(self, kind, x):
        if kind == 'nonneg':
            return self.prove_nonneg(x)
        return self.prove_nonneg(sub(dag.ONE, x)) and self.prove_nonneg(add(dag.ONE, x))

    def sqrt_den(self, r):
        out = dag.ONE
        for f, e in r.den.items():
            if e % 2:
                return None
            b = self.poly_node(self.fpoly(f))
            for _ in range(e // 2):
                out = mul(out, b)
        return out if self.prove_pos(out) else None

    def sqrt_atom(self, x):
        # pull the square monomial content out
        r = self.conv(x)
        p = r.num
        ct = poly.content(p) if p else ()
        outside = dag.ONE
        i = 0
        sq = []
        while i < len(ct):
            if i + 1 < len(ct) and ct[i] == ct[i + 1]:
                sq += [ct[i], ct[i]]
                outside = mul(outside, self.atoms[ct[i]])
                i += 2
            else:
                i += 1
        if sq and self.prove_nonneg(outside):
            inner = self.poly_node({poly.mdiv(m, tuple(sq)): c for m, c in p.items()})
            if self.prove_eq(x, mul(mul(outside, outside), inner), 'square content'):
                return mul(outside, self.sqrt_atom0(inner))
        return self.sqrt_atom0(x)

    def sqrt_atom0(self, x):
        c = self.const_value(x)
        if c is not None:
            s = frac_sqrt(c)
            if s is not None:
                return R(s)
        # scale to a primitive polynomial
        r = self.conv(x)
        m0 = min(r.num, key=lambda m: (len(m), m))
        c = Fraction(abs(r.num[m0]))
        s = frac_sqrt(c)
        if s is not None and s != 1:
            return mul(R(s), self.sqrt_atom0(self.poly_node(poly.pscale(r.num, 1 / c))))
        n = self.opaque('sqrt', (x,))
        if n.id not in self.aidx:
            self.domain('nonneg', x)
            self.assume_square(n, x)
            self.assume_nonneg(n)
        return n

    def fabs(self, x):
        if self.prove_nonneg(x):
            return x
        if self.prove_nonneg(neg(x)):
            return neg(x)
        if self.conv(x).den:
            g = self.guess_hint(self.nums(x))
            if g is not None and g is not x and not self.conv(g).den and self.prove_eq(mul(x, x), mul(g, g), 'abs'):
                return self.fabs(g)
        n = self.opaque('fabs', (x,))
        if n.id not in self.aidx:
            r = self.conv(x)
            if not r.den:
                self.assume_square(n, mul(x, x))
            self.assume_nonneg(n)
        return n

    def poly_node(self, p):
        out = None
        for m, c in sorted(p.items()):
            t = R(c)
            for v in m:
                t = mul(t, self.atoms[v])
            out = t if out is None else add(out, t)
        return out if out is not None else dag.ZERO

    def den_node(self, r):
        out = dag.ONE
        for f, e in r.den.items():
            b = self.poly_node(self.fpoly(f))
            for _ in range(e):
                out = mul(out, b)
        return out

    def guess_hint(self, vals):
        """k * (a term suggested by the specification), up to sign."""
        if len(vals) < 2 or any(mp.isnan(v) for v in vals):
            return None
        for h in self.hints:
            y = self.nums(h)
            if any(mp.isnan(v) or abs(v) < 1e-20 for v in y):
                continue
            k = abs(vals[0] / y[0])
            if any(abs(abs(v) - k * abs(z)) > mp.mpf(10) ** -22 * abs(v) for v, z in zip(vals, y)):
                continue
            fr = Fraction(str(mp.nstr(k, 30))).limit_denominator(64)
            if fr and abs(mp.mpf(fr.numerator) / fr.denominator - k) < mp.mpf(10) ** -20:
                return mul(R(fr), self.rewrite(h))
        return None

    def guess(self, vals, deg=2, want_den=True):
        """Node k * (product of atoms [/ atom]) numerically equal to vals at all samples, or None."""
        if len(vals) < 2 or any(mp.isnan(v) for v in vals):
            return None
        if all(abs(v) < mp.mpf(10) ** -30 for v in vals):
            return dag.ZERO
        av = [(n, self.nums(n)) for n in self.atoms if n.id not in self.retired]
        av = [(n, v) for n, v in av if all(not mp.isnan(y) and abs(y) > 1e-25 for y in v)]

        def ratio(ms):
            k = vals[0] / ms[0]
            if abs(k) > 64 or abs(k) < 1. / 64:
                return None
            for v, y in zip(vals[1:], ms[1:]):
                if abs(v - k * y) > mp.mpf(10) ** -25 * (abs(v)):
                    return None
            fr = Fraction(str(mp.nstr(k, 30))).limit_denominator(64)
            if abs(mp.mpf(fr.numerator) / fr.denominator - k) > mp.mpf(10) ** -20:
                return None
            return fr
        one = [mp.mpf(1)] * len(vals)
        level = [(dag.ONE, one, -1)]
        for d in range(deg + 1):
            for n, y, _ in level:
                k = ratio(y)
                if k is not None:
                    return mul(R(k), n)
            if d == deg:
                break
            nxt = []
            for n, y, last in level:
                for i, (m, z) in enumerate(av):
                    if i >= last:
                        nxt.append((mul(n, m), [p * q for p, q in zip(y, z)], i))
            if len(nxt) > 3000:
                break
            level = nxt
        if want_den and len(av) <= 30:
            for n, y in av:
                for m, z in av:
                    if m is n:
                        continue
                    k = ratio([p / q for p, q in zip(y, z)])
                    if k is not None:
                        return mul(R(k), div(n, m))
                k = ratio([1 / p for p in y])
                if k is not None:
                    return div(R(k), n)
        return None

    # trig -----------------------------------------------------------
    def angle_terms(self, x):
        """x = sum k_i * atom_i (rational k) or None."""
        r = self.conv(x)
        if r.den:
            return None
        out = []
        for m, c in sorted(r.num.items()):
            if len(m) != 1:
                return None
            out.append((self.atoms[m[0]], Fraction(c)))
        return out

    def trig(self, o, x):
        c = self.const_value(x)
        if c == 0:
            return dag.ZERO if o == 'sin' else dag.ONE
        t = self.angle_terms(x)
        if t is None:
            k = ('angle', self.rkey(x))
            n = self.zmemo.get(k)
            if n is None:
                n = self.zmemo[k] = fnode('angle', x)
                for m, e in zip(self.memo, self.samples):
                    m[n.id] = mpeval([x], e, m)[0]
            t = [(n, Fraction(1))]
        sn, cs = dag.ZERO, dag.ONE
        for a, k in t:
            s1, c1 = self.trig_multiple(a, k)
            sn, cs = add(mul(sn, c1), mul(cs, s1)), sub(mul(cs, c1), mul(sn, s1))
        return sn if o == 'sin' else cs

    def base_pair(self, a):
        den = self.trigden.get(a.id, 1 if a.op == 'var' else 2)
        s = fnode('sin', mul(R(Fraction(1, den)), a)) if den != 1 else fnode('sin', a)
        c = fnode('cos', mul(R(Fraction(1, den)), a)) if den != 1 else fnode('cos', a)
        if a.op != 'var' and den == 1:
            raise Unresolved('trig of unresolved inverse trig')
        if s.id not in self.aidx:
            if a.op == 'acos':
                self.acos_base(a, den, s, c)
            else:
                self.atom(c)
                self.assume_square(s, sub(dag.ONE, mul(c, c)))
                self.angle_signs(a, den, s, c)
        return den, s, c

    def acos_base(self, a, den, s, c):
        # a = acos(e) in [0, pi]; half angle: cos = sqrt((1+e)/2), sin = sqrt((1-e)/2)
        if den != 2:
            raise Unresolved('quarter angle of acos')
        e = a.args[0]
        half = R(Fraction(1, 2))
        self.atom(c)
        self.assume_square(c, mul(half, add(dag.ONE, e)))
        self.atom(s)
        self.assume_square(s, mul(half, sub(dag.ONE, e)))
        self.assume_nonneg(s)
        self.assume_nonneg(c)

    def angle_signs(self, a, den, s, c):
        """Sign facts of sin(a/den), cos(a/den) when the range of a is known: registered by the caller
        through angle_range."""
        rng = getattr(self, 'ranges', {}).get(a.id)
        if rng is None:
            return
        lo, hi = rng        # multiples of pi
        if a.id not in self.aidx:
            self.atom(a)
        zs, zc, x = self.z(s), self.z(c), self.z(a) / den
        if lo >= 0 and hi <= den:
            self.assume_nonneg(s)
            if hi < den:
                self.assume(z3.Implies(x > 0, zs > 0))
        if lo >= -Fraction(den, 2) and hi <= Fraction(den, 2):
            self.assume_nonneg(c)
            if lo > -Fraction(den, 2) and hi < Fraction(den, 2):
                self.assume(zc > 0)
        if lo >= 0 and hi <= den:
            # the cosine falls over [0, pi]
            rat = lambda v, up: Fraction((mp.ceil if up else mp.floor)(v * 10 ** 8).__int__(), 10 ** 8)
            b, t = rat(mp.cos(mp.pi * hi.numerator / hi.denominator / den), False), rat(mp.cos(mp.pi * lo.numerator / lo.denominator / den), True)
            if b > 0:
                self.assume(zc >= z3.RealVal(b))
                self.assume(zc * zc >= z3.RealVal(b * b))
            elif b > -1:
                self.assume(zc >= z3.RealVal(b))
            if t < 1:
                self.assume(zc <= z3.RealVal(t))
        if lo >= 0:
            self.assume(zs <= x)
            if hi <= Fraction(den, 2):
                # tan x >= x, and the chord bound sin x >= 2x/pi
                self.assume(zs >= x * zc)
                self.assume(zs >= x * z3.RealVal(Fraction(63, 100)))

    def angle_range(self, a, lo, hi):
        if not hasattr(self, 'ranges'):
            self.ranges = {}
        lo, hi = Fraction(lo), Fraction(hi)
        self.ranges[a.id] = (lo, hi)
        self.atom(a)
        up, dn = Fraction(355, 113), Fraction(333, 106)      # pi is between dn and up
        self.assume(self.z(a) <= z3.RealVal(hi * (up if hi > 0 else dn)))
        self.assume(self.z(a) >= z3.RealVal(lo * (dn if lo > 0 else up)))

    def pi(self):
        n = fnode('acos', R(-1))
        if getattr(self, 'ranges', {}).get(n.id) is None:
            self.angle_range(n, 1, 1)
            self.assume_nonneg(n)
        return n

    def quarter(self, o, a):
        """Inverse functions at the coordinate axes."""
        def is_(x, v):
            return all(abs(t - v) < mp.mpf(10) ** -25 for t in self.nums(x)) and self.prove_eq(x, R(v), 'angle of an axis')
        if o in ('acos', 'asin'):
            for v, k in ((0, Fraction(1, 2)), (-1, Fraction(1))) if o == 'acos' else ((1, Fraction(1, 2)), (-1, -Fraction(1, 2))):
                if is_(a[0], v):
                    return k
        elif o == 'atan2' and is_(a[1], 0):
            if self.prove_pos(a[0]):
                return Fraction(1, 2)
            if self.prove_pos(neg(a[0])):
                return -Fraction(1, 2)
        elif o == 'atan2' and all(v < 0 for v in self.nums(a[1])) and is_(a[0], 0) and self.prove_pos(neg(a[1])):
            return Fraction(1)
        return None

    def trig_multiple(self, a, k):
        if a.op == 'acos' and a.args[0] is R(-1):
            k = Fraction(k) % 2
            t = {Fraction(0): (0, 1), Fraction(1, 2): (1, 0), Fraction(1): (0, -1), Fraction(3, 2): (-1, 0)}.get(k)
            if t is None:
                raise Unresolved('fraction of a right angle')
            return R(t[0]), R(t[1])
        if k.denominator > 1000 and a.op == 'var':
            # a multiple outside the grid (such as 2 pi): a pair of its own
            s, c = fnode('sin', mul(R(k), a)), fnode('cos', mul(R(k), a))
            if s.id not in self.aidx:
                self.atom(c)
                self.assume_square(s, sub(dag.ONE, mul(c, c)))
            return s, c
        den, s, c = self.base_pair(a)
        n = k * den
        if n.denominator != 1:
            raise NeedDen(a, (k.denominator))
        n = int(n)
        sg = 1
        if n < 0:
            n, sg = -n, -1
        if n > 16:
            raise Unresolved('large multiple of an angle')
        sn, cs = dag.ZERO, dag.ONE
        for _ in range(n):
            sn, cs = add(mul(sn, c), mul(cs, s)), sub(mul(cs, c), mul(sn, s))
        return (neg(sn) if sg < 0 else sn), cs

    def invtrig(self, o, a):
        vals = [mpeval([fnode(o, *a)], e, m)[0] for e, m in zip(self.samples, self.memo)]
        if o == 'acos':
            sides = (None, a[0])
        elif o == 'asin':
            sides = (a[0], None)
        elif o == 'atan2':
            sides = (a[0], a[1])
        else:
            sides = (a[0], dag.ONE)
        if o in ('acos', 'asin'):
            # a constant argument gives the angle zero
            at = dag.ONE if o == 'acos' else dag.ZERO
            w = c_of(at)
            if all(abs(v - w) < mp.mpf(10) ** -25 for v in self.nums(a[0])):
                try:
                    if self.prove_eq(a[0], at, 'angle zero'):
                        return dag.ZERO
                except (Unresolved, TooBig):
                    pass
        try:
            k = self.quarter(o, a)
        except (Unresolved, TooBig):
            k = None
        if k is not None:
            return mul(R(k), self.pi())
        cand = self.guess_angle(vals)
        if cand is not None:
            node, k, base = cand
            try:
                sn, cs = self.trig('sin', node), self.trig('cos', node)
                rng = getattr(self, 'ranges', {}).get(base.id)
                ok = rng is not None
                if ok:
                    lo, hi = sorted((rng[0] * k, rng[1] * k))
                    if o == 'acos':
                        ok = lo >= 0 and hi <= 1 and self.prove_eq(a[0], cs, 'acos of the cosine')
                    elif o == 'asin':
                        ok = lo >= -Fraction(1, 2) and hi <= Fraction(1, 2) and self.prove_eq(a[0], sn, 'asin of the sine')
                    else:
                        y, x = sides
                        ok = lo >= -1 and hi <= 1 and self.prove_eq(mul(y, cs), mul(x, sn), 'atan2 direction') and \
                            self.prove_pos_or_zero_dir(add(mul(y, sn), mul(x, cs)))
                if ok:
                    return node
            except (Unresolved, TooBig):
                pass
        n = self.opaque(o, a)
        if n.id not in self.aidx and o == 'acos':
            self.domain('unit', a[0])
            self.angle_range(n, 0, 1)
            self.assume_nonneg(n)
        return n

    def prove_pos_or_zero_dir(self, d):
        return self.prove_pos(d)

    def guess_angle(self, vals):
        for a in list(self.atoms):
            if getattr(self, 'ranges', {}).get(a.id) is None:
                continue
            y = self.nums(a)
            if any(abs(v) < 1e-25 for v in y):
                continue
            k = vals[0] / y[0]
            if mp.isnan(k) or mp.isinf(k):
                continue
            fr = Fraction(str(mp.nstr(k, 30))).limit_denominator(4)
            if fr == 0:
                continue
            if all(abs(v - mp.mpf(fr.numerator) / fr.denominator * z) < mp.mpf(10) ** -25 * (1 + abs(v)) for v, z in zip(vals, y)):
                return mul(R(fr), a), fr, a
        return None

    # -------------------------------------------------------------- to z3
    def numden(self, node):
        """(numerator node, {factor node id: (node, exp)}) with ring-only numerator."""
        if node.id in self.ndmemo:
            return self.ndmemo[node.id]
        for n in dag.topo([node]):
            if n.id in self.ndmemo:
                continue
            o = n.op
            if o in '+-' and len(n.args) == 2:
                (na, da), (nb, db) = self.ndmemo[n.args[0].id], self.ndmemo[n.args[1].id]
                d = dict(da)
                for f, (g, e) in db.items():
                    ea = da.get(f, (g, 0))[1]
                    for _ in range(e - ea):
                        na = mul(na, g)
                    if e > ea:
                        d[f] = (g, e)
                for f, (g, e) in da.items():
                    eb = db.get(f, (g, 0))[1]
                    for _ in range(e - eb):
                        nb = mul(nb, g)
                r = ((add if o == '+' else sub)(na, nb), d)
            elif o == '*':
                (na, da), (nb, db) = self.ndmemo[n.args[0].id], self.ndmemo[n.args[1].id]
                d = dict(da)
                for f, (g, e) in db.items():
                    d[f] = (g, d.get(f, (g, 0))[1] + e)
                r = (mul(na, nb), d)
            elif o == '/':
                (na, da), (nb, db) = self.ndmemo[n.args[0].id], self.ndmemo[n.args[1].id]
                d = dict(da)
                for f, (g, e) in db.items():
                    # multiply numerator by the divisor's denominators, cancelling when possible
                    have = d.get(f, (g, 0))[1]
                    k = min(have, e)
                    if k:
                        if have == k:
                            del d[f]
                        else:
                            d[f] = (g, have - k)
                    for _ in range(e - k):
                        na = mul(na, g)
                if c_of(nb) is not None:
                    na = mul(na, R(Fraction(1) / Fraction(c_of(nb))))
                else:
                    d[nb.id] = (nb, d.get(nb.id, (nb, 0))[1] + 1)
                r = (na, d)
            elif o == 'neg':
                na, da = self.ndmemo[n.args[0].id]
                r = (neg(na), da)
            else:
                r = (n, {})
            self.ndmemo[n.id] = r
        return self.ndmemo[node.id]

    def z(self, node):
        """z3 term of a ring-only node (divisions become z3 divisions)."""
        for n in dag.topo([node]):
            if n.id in self.zmemo:
                continue
            c = c_of(n)
            o = n.op
            if c is not None:
                t = z3.RealVal(c)
            elif o == '+':
                t = self.zmemo[n.args[0].id] + self.zmemo[n.args[1].id]
            elif o == '-':
                t = self.zmemo[n.args[0].id] - self.zmemo[n.args[1].id]
            elif o == '*':
                t = self.zmemo[n.args[0].id] * self.zmemo[n.args[1].id]
            elif o == '/':
                t = self.zmemo[n.args[0].id] / self.zmemo[n.args[1].id]
            elif o == 'neg':
                t = -self.zmemo[n.args[0].id]
            else:
                t = self.zv[self.atom(n)]
            self.zmemo[n.id] = t
        return self.zmemo[node.id]

    def upoly(self, node):
        """Unreduced polynomial of a ring-only node."""
        for n in dag.topo([node]):
            if n.id in self.pmemo:
                continue
            c = c_of(n)
            o = n.op
            if c is not None:
                t = poly.pconst(c)
            elif o in '+-' and len(n.args) == 2:
                t = poly.padd(self.pmemo[n.args[0].id], self.pmemo[n.args[1].id], 1 if o == '+' else -1)
            elif o == '*':
                t = poly.pmul(self.pmemo[n.args[0].id], self.pmemo[n.args[1].id])
            elif o == 'neg':
                t = poly.pscale(self.pmemo[n.args[0].id], -1)
            else:
                t = {(self.atom(n),): 1}
            self.pmemo[n.id] = t
        return self.pmemo[node.id]

    def zpoly(self, p):
        ts = []
        for m, c in p.items():
            t = z3.RealVal(c)
            for v in m:
                t = t * self.zv[v]
            ts.append(t)
        return z3.Sum(ts) if ts else z3.RealVal(0)

    def rule_facts(self):
        return [self.z(a) == self.z(b) for a, b in self.gz.values()]

    # -------------------------------------------------------------- queries
    def goal_node(self, a, b):
        (na, da), (nb, db) = self.numden(a), self.numden(b)
        for f, (g, e) in db.items():
            for _ in range(e - da.get(f, (g, 0))[1]):
                na = mul(na, g)
        for f, (g, e) in da.items():
            for _ in range(e - db.get(f, (g, 0))[1]):
                nb = mul(nb, g)
        return sub(na, nb)

    def same(self, a, b):
        """Encoder-side normal form comparison (used only to choose between proving and refuting)."""
        if a is b:
            return True
        d = self.radd(self.conv(a), self.conv(b), -1)
        return not d.num

    def prove_eq(self, a, b, what=''):
        """True iff z3 proves a == b under the assumptions (a, b rewritten nodes)."""
        if a is b:
            return True
        try:
            if not self.same(a, b):
                return False
        except TooBig:
            pass
        return self.discharge(self.goal_node(a, b), what)

    def discharge(self, g, what=''):
        """g == 0 for a ring-only g.  Every product in g is brought to a normal form modulo the defining
        equations of the atoms; each such step is a lemma  P_a * P_b == P_n  that the solver closes in linear
        arithmetic over monomials from the instances  cof_v * (v*v - rule_v) == 0.  Sums of normal forms and
        congruence then give g == P_g, and P_g is empty."""
        if c_of(g) == 0:
            return True
        pend = []
        p = self.hpoly(g, pend)
        if p:
            return False
        r = self.close(pend, g)
        if r == z3.unsat:
            for n in pend:
                self.certified.add(n.id)
            self.lemmas.append(what)
            return True
        self.failed.append((what, str(r)))
        return False

    def hpoly(self, root, pend):
        """Normal form of a ring-only node; the product nodes whose lemma is still open go to pend."""
        memo = self.hmemo
        for n in dag.topo([root]):
            if n.id not in memo:
                c = c_of(n)
                o = n.op
                if c is not None:
                    t = poly.pconst(c)
                elif o in '+-' and len(n.args) == 2:
                    t = poly.padd(memo[n.args[0].id], memo[n.args[1].id], 1 if o == '+' else -1)
                elif o == '*':
                    q = poly.pmul(memo[n.args[0].id], memo[n.args[1].id])
                    cof = {}
                    t = poly.reduce(q, self.rules, cof)
                    cof = {v: x for v, x in cof.items() if x}
                    if cof:
                        self.hcof[n.id] = (q, cof)
                elif o == 'neg':
                    t = poly.pscale(memo[n.args[0].id], -1)
                else:
                    t = {(self.atom(n),): 1}
                memo[n.id] = t
            if n.id in self.hcof and n.id not in self.certified:
                pend.append(n)
        return memo[root.id]

    def close(self, pend, g):
        """One query per batch of product lemmas and, in the last one, the goal itself."""
        k = 0
        while True:
            batch, size = [], 0
            while k < len(pend) and size < 20000:
                batch.append(pend[k])
                q, cof = self.hcof[pend[k].id]
                size += 3 * len(q)
                k += 1
            last = k >= len(pend)
            r = self.close_batch(batch, g if last else None)
            if r != z3.unsat or last:
                return r

    def close_batch(self, batch, g):
        ids, out, goals = {}, [], []

        def term(q):
            ts = []
            for m, c in q.items():
                if not m:
                    ts.append(num(c))
                    continue
                i = ids.get(m)
                if i is None:
                    i = ids[m] = len(ids)
                ts.append('m%d' % i if c == 1 else '(* %s m%d)' % (num(c), i))
            return '(+ 0.0 0.0 %s)' % ' '.join(ts)

        def num(c):
            c = Fraction(c)
            k = '%d.0' % abs(c.numerator)
            if c.denominator != 1:
                k = '(/ %s %d.0)' % (k, c.denominator)
            return '(- %s)' % k if c < 0 else k
        inst = set()
        for n in batch:
            q, cof = self.hcof[n.id]
            lem = []
            for v, x in cof.items():
                f = poly.pmul(x, poly.padd({(v, v): 1}, self.rules[v], -1), cap=4000000)
                lem.append('(= %s 0.0)' % term(f))
            # the instances are facts; the lemma is negated in the goal
            out += ['(assert %s)' % l for l in lem]
            goals.append('(not (= %s %s))' % (term(q), term(self.hmemo[n.id])))
        if g is not None:
            goals.append('(not (= %s 0.0))' % term(self.hmemo[g.id]))
        out.append('(assert (or %s))' % ' '.join(goals) if len(goals) > 1 else '(assert %s)' % goals[0])
        s = z3.Solver()
        s.from_string('\n'.join(['(declare-const m%d Real)' % i for i in ids.values()] + out))
        return check(s, self.timeout)

    def discharge_norm(self, g, what):
        raise TooBig()

    def prove(self, f, timeout=3000, extra=()):
        """True iff z3 proves formula f from the recorded facts."""
        s = z3.Solver()
        for x in self.rule_facts():
            s.add(x)
        for x in self.ineq:
            s.add(x)
        for x in extra:
            s.add(x)
        s.add(z3.Not(f))
        return check(s, timeout) == z3.unsat

    def zr(self, node):
        """z3 term of a rewritten node as numerator/denominator pair."""
        n, d = self.numden(node)
        den = dag.ONE
        for g, e in d.values():
            for _ in range(e):
                den = mul(den, g)
        return self.z(n), self.z(den), c_of(den) is not None

    def nf(self, node):
        r = self.conv(node)
        return r.num if not r.den else None

    def prove_pos_linear(self, p):
        """p > 0 by linear arithmetic over the monomials of the recorded facts' normal forms."""
        lin = Linear()
        s = z3.Solver()
        n = 0
        for q, op in self.pfacts:
            t = lin.poly(self, q)
            s.add(t > 0 if op == '>' else t >= 0 if op == '>=' else t == 0)
            n += 1
        if not n:
            return False
        s.add(lin.poly(self, p) <= 0)
        return check(s, 3000) == z3.unsat

    def sum_of_squares(self, node):
        """Non-negative whatever the squared terms are: each squared operand becomes a fresh unknown."""
        memo = {}

        def z(n):
            if n.id in memo:
                return memo[n.id]
            c = c_of(n)
            if c is not None:
                t = z3.RealVal(c)
            elif n.op == '+':
                t = z(n.args[0]) + z(n.args[1])
            elif n.op == '*' and n.args[0] is n.args[1]:
                u = z3.Real('u%d' % n.args[0].id)
                t = u * u
            elif n.op == '*':
                t = z(n.args[0]) * z(n.args[1])
            else:
                t = z3.Real('u%d' % n.id)
            memo[n.id] = t
            return t
        if node.op != '+':
            return False
        s = z3.Solver()
        s.add(z(node) < 0)
        return check(s, 300) == z3.unsat

    def prove_nonneg(self, node):
        if self.sum_of_squares(node):
            return True
        if any(v < -mp.mpf(10) ** -25 for v in self.nums(node) if not mp.isnan(v)):
            return False
        return self.prove_sign(node, '>=')

    def prove_pos(self, node):
        if any(not v > 0 for v in self.nums(node) if not mp.isnan(v)):
            return False
        return self.prove_sign(node, '>')

    def prove_sign(self, node, op):
        n, d, const = self.zr(node)
        e = n if const else n * d
        return self.local_prove(e >= 0 if op == '>=' else e > 0, node, const)

    def local_prove(self, f, node, const=True):
        # only facts about the atoms that occur (transitively through the defining rules)
        used = set(self.aidx[n.id] for n in dag.topo([node]) if n.id in self.aidx)
        changed = True
        while changed:
            changed = False
            for v, (la, ra) in self.gz.items():
                vs = {self.aidx[n.id] for n in dag.topo([la, ra]) if n.id in self.aidx}
                if v in used and not vs <= used:
                    used |= vs
                    changed = True
        zs = {self.zv[i].get_id() for i in used}
        s = z3.Solver()
        for v, (la, ra) in self.gz.items():
            if v in used:
                s.add(self.z(la) == self.z(ra))
        for x in self.ineq:
            if {t.get_id() for t in zvars(x)} <= zs:
                s.add(x)
        s.add(z3.Not(f))
        if check(s, 3000) == z3.unsat:
            return True
        # all recorded facts (path conditions may mention further inputs)
        s = z3.Solver()
        for x in self.rule_facts() + self.ineq:
            s.add(x)
        s.add(z3.Not(f))
        return check(s, 4000) == z3.unsat


class Linear:
    """Abstracts the monomials of expanded polynomials by fresh real unknowns (sound for unsat)."""

    def __init__(self):
        self.tab = {}

    def factors(self, t, out, k=1):
        """Collect the variable powers of a monomial; returns its rational coefficient."""
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long()) ** k
        if z3.is_mul(t):
            c = Fraction(1)
            for x in t.children():
                c *= self.factors(x, out, k)
            return c
        if t.decl().kind() == z3.Z3_OP_POWER:
            b, e = t.children()
            return self.factors(b, out, k * int(e.as_fraction()))
        if t.decl().kind() == z3.Z3_OP_UMINUS:
            return (-1) ** k * self.factors(t.children()[0], out, k)
        if not z3.is_const(t):
            raise Unresolved('not a monomial')
        n = t.get_id()
        out[n] = out.get(n, 0) + k
        return Fraction(1)

    def term(self, t):
        f = {}
        c = self.factors(t, f)
        if not f:
            return z3.RealVal(c)
        k = tuple(sorted(f.items()))
        r = self.tab.get(k)
        if r is None:
            r = self.tab[k] = z3.Real('m%d' % len(self.tab))
        return r if c == 1 else z3.RealVal(c) * r

    def poly(self, ctx, p):
        ts = []
        for m, c in p.items():
            f = {}
            for v in m:
                i = ctx.zv[v].get_id()
                f[i] = f.get(i, 0) + 1
            if not f:
                ts.append(z3.RealVal(c))
                continue
            k = tuple(sorted(f.items()))
            r = self.tab.get(k)
            if r is None:
                r = self.tab[k] = z3.Real('m%d' % len(self.tab))
            ts.append(z3.RealVal(c) * r)
        return z3.Sum(ts) if ts else z3.RealVal(0)

    def formula(self, f):
        """The same boolean structure over linear terms."""
        k = f.decl().kind()
        ch = f.children()
        if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            return f
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES):
            xs = [self.formula(x) for x in ch]
            return {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_NOT: z3.Not, z3.Z3_OP_IMPLIES: z3.Implies}[k](*xs)
        ops = {z3.Z3_OP_LT: lambda x: x < 0, z3.Z3_OP_LE: lambda x: x <= 0, z3.Z3_OP_GT: lambda x: x > 0, z3.Z3_OP_GE: lambda x: x >= 0, z3.Z3_OP_EQ: lambda x: x == 0}
        if k not in ops or z3.is_bool(ch[0]):
            raise Unresolved('not a comparison')
        return ops[k](self(ch[0] - ch[1]))

    def squares(self):
        """Even powers are not negative."""
        return [r >= 0 for k, r in self.tab.items() if all(e % 2 == 0 for _, e in k)]

    def __call__(self, e):
        e = z3.simplify(e, som=True, max_degree=64)
        if z3.is_add(e):
            return z3.Sum([self.term(t) for t in e.children()])
        return self.term(e)


class NeedDen(Exception):
    def __init__(self, a, den):
        self.a = a
        self.den = den


def frac_sqrt(c):
    import math
    if c < 0:
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


_zv = {}


def zvars(e):
    r = _zv.get(e.get_id())
    if r is not None:
        return r[1]
    out = {}
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.get_id()] = x
        st.extend(x.children())
    r = list(out.values())
    _zv[e.get_id()] = (e, r)
    return r
