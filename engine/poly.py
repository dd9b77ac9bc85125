"""Sparse multivariate polynomials with rational coefficients.

Used on the encoder side only: to find the multiples of the assumptions (hints) under which the SMT
solver has to close a goal, and to recognise candidate simplifications, which the solver then proves.
A monomial is a sorted tuple of variable indices (with repetition).
"""
from fractions import Fraction


class TooBig(Exception):
    pass


CAP = 60000


def pconst(c):
    c = norm(c)
    return {(): c} if c else {}


def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def pvar(i):
    return {(i,): 1}


def padd(a, b, kb=1):
    if len(a) < len(b) and kb == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * kb
        if v:
            r[m] = norm(v)
        else:
            r.pop(m, None)
    return r


def psub(a, b):
    return padd(a, b, -1)


def pscale(a, k):
    if k == 0:
        return {}
    return {m: norm(c * k) for m, c in a.items()}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    return tuple(sorted(a + b))


def pmul(a, b, cap=None):
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > (cap or CAP * 4):
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        if not m1:
            for m2, c2 in b.items():
                v = r.get(m2, 0) + c1 * c2
                if v:
                    r[m2] = v
                else:
                    r.pop(m2, None)
            continue
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2))
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if len(r) > (cap or CAP):
        raise TooBig()
    return {m: norm(c) for m, c in r.items()}


def ppow(a, n):
    r = {(): 1}
    for _ in range(n):
        r = pmul(r, a)
    return r


def pkey(a):
    return tuple(sorted(a.items()))


def double_index(m, rules):
    """Some variable that occurs at least twice in m and has a rule, or None."""
    p = None
    for v in m:
        if v == p and v in rules:
            return v
        p = v
    return None


def reduce(a, rules, cof=None):
    """Replace v*v by rules[v] until no longer possible.  rules[v] may only mention other variables
    and the system must be triangular.  cof (dict v -> poly), when given, receives the quotients:
    a = result + sum_v cof[v] * (v*v - rules[v])."""
    if not rules:
        return a
    todo = a
    out = {}
    steps = 0
    while todo:
        nxt = {}
        for m, c in todo.items():
            v = double_index(m, rules)
            if v is None:
                x = out.get(m, 0) + c
                if x:
                    out[m] = norm(x)
                else:
                    out.pop(m, None)
                continue
            i = m.index(v)
            rest = m[:i] + m[i + 2:]
            if cof is not None:
                q = cof.setdefault(v, {})
                x = q.get(rest, 0) + c
                if x:
                    q[rest] = norm(x)
                else:
                    q.pop(rest, None)
            for m2, c2 in rules[v].items():
                mm = mmul(rest, m2)
                x = nxt.get(mm, 0) + c * c2
                if x:
                    nxt[mm] = norm(x)
                else:
                    nxt.pop(mm, None)
            steps += 1
            if steps > 400000:
                raise TooBig()
        todo = nxt
    return out


def content(a):
    """Monomial gcd."""
    it = iter(a)
    g = list(next(it))
    for m in it:
        if not g:
            break
        mm = list(m)
        ng = []
        for v in g:
            if v in mm:
                mm.remove(v)
                ng.append(v)
        g = ng
    return tuple(g)


def mdiv(m, d):
    l = list(m)
    for v in d:
        l.remove(v)
    return tuple(l)


def divides(d, m):
    l = list(m)
    for v in d:
        if v not in l:
            return False
        l.remove(v)
    return True
