"""Hash-consed term DAG for the floating-point values computed by the code under test.

A Node is an operation over other nodes.  Node identity is structural identity: two nodes with
the same operator and the same (commutatively normalised) operands are the same object.
"""
import math, struct
from fractions import Fraction

_table = {}
_count = [0]


class UndefUse(Exception):
    pass


class Node:
    __slots__ = ('op', 'args', 'id', 'gv', 'memo')

    def __init__(self, op, args, gv):
        self.op = op
        self.args = args
        _count[0] += 1
        self.id = _count[0]
        self.gv = gv
        self.memo = None

    def __hash__(self):
        return self.id

    def __repr__(self):
        return show(self, 6)


def _key(op, args):
    return (op,) + tuple((a.id if isinstance(a, Node) else ('#', a)) for a in args)


def mk(op, args, gv=None):
    k = _key(op, args)
    n = _table.get(k)
    if n is None:
        n = Node(op, args, gv)
        _table[k] = n
    return n


def const(x):
    """IEEE double constant (a Python float)."""
    x = float(x)
    k = ('c', struct.pack('<d', x))
    n = _table.get(k)
    if n is None:
        n = Node('c', (x,), x)
        _table[k] = n
    return n


def frac(fr):
    """Exact rational constant: used only on the specification side."""
    fr = Fraction(fr)
    if fr.denominator == 1 and abs(fr.numerator) < 2 ** 50:
        return const(float(fr.numerator))
    return mk('q', (fr,), float(fr))


def var(name):
    return mk('var', (name,))


def atom(name, *args):
    return mk('uf:' + name, args)


ZERO = const(0.0)
ONE = const(1.0)
MONE = const(-1.0)


def is_neg_zero(x):
    return x == 0.0 and math.copysign(1.0, x) < 0


def _exact(op, a, b, r):
    if math.isinf(r) or math.isnan(r) or math.isinf(a) or math.isnan(a) or math.isinf(b) or math.isnan(b):
        return False
    fa, fb, fr = Fraction(a), Fraction(b), Fraction(r)
    if op == '+':
        return fa + fb == fr
    if op == '-':
        return fa - fb == fr
    if op == '*':
        return fa * fb == fr
    if op == '/':
        return fb != 0 and fr * fb == fa
    return False


def _apply(op, a, b):
    try:
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            if b == 0:
                if a == 0 or math.isnan(a):
                    return math.nan
                return math.copysign(math.inf, a) * math.copysign(1.0, b)
            return a / b
    except OverflowError:
        return math.inf
    raise ValueError(op)


def bin_(op, a, b):
    if a.op == 'c' and b.op == 'c':
        r = _apply(op, a.gv, b.gv)
        if _exact(op, a.gv, b.gv, r):
            return const(r)
    gv = None
    if a.gv is not None and b.gv is not None:
        gv = _apply(op, a.gv, b.gv)
    # simplifications that are exact for every IEEE operand
    if op == '*':
        if a is ONE:
            return b
        if b is ONE:
            return a
        if a is MONE:
            return neg(b)
        if b is MONE:
            return neg(a)
    elif op == '/':
        if b is ONE:
            return a
    elif op == '-':
        if b is ZERO:
            return a
        if b.op == 'neg':
            return bin_('+', a, b.args[0])
    elif op == '+':
        if b.op == 'c' and is_neg_zero(b.gv):
            return a
        if a.op == 'c' and is_neg_zero(a.gv):
            return b
        if b.op == 'neg':
            return bin_('-', a, b.args[0])
        if a.op == 'neg':
            return bin_('-', b, a.args[0])
    if op in '+*' and a.id > b.id:
        a, b = b, a
    return mk(op, (a, b), gv)


def add(a, b):
    return bin_('+', a, b)


def sub(a, b):
    return bin_('-', a, b)


def mul(a, b):
    return bin_('*', a, b)


def div(a, b):
    return bin_('/', a, b)


def neg(a):
    if a.op == 'neg':
        return a.args[0]
    if a.op == 'c':
        return const(-a.gv)
    return mk('neg', (a,), None if a.gv is None else -a.gv)


_fn = {'sqrt': lambda x: math.sqrt(x) if x >= 0 else math.nan, 'sin': math.sin, 'cos': math.cos,
       'acos': lambda x: math.acos(x) if -1 <= x <= 1 else math.nan, 'tan': math.tan,
       'asin': lambda x: math.asin(x) if -1 <= x <= 1 else math.nan, 'atan': math.atan,
       'fabs': abs, 'exp': math.exp, 'log': lambda x: math.log(x) if x > 0 else -math.inf}


def fn(name, a):
    if a.op == 'c':
        r = _fn[name](a.gv)
        if name == 'fabs':
            return const(r)
        if name == 'sqrt' and r == r and Fraction(r) ** 2 == Fraction(a.gv):
            return const(r)
        if a.gv == 0 and name in ('sin', 'tan', 'asin', 'atan'):
            return a
        if a.gv == 0 and name == 'cos':
            return ONE
    if name == 'fabs' and a.op in ('fabs', 'sqrt'):
        return a
    if name == 'fabs' and a.op == 'neg':
        return fn('fabs', a.args[0])
    return mk(name, (a,), None if a.gv is None else _fn[name](a.gv))


def atan2(y, x):
    gv = None
    if y.gv is not None and x.gv is not None:
        gv = math.atan2(y.gv, x.gv)
    return mk('atan2', (y, x), gv)


# ---------------------------------------------------------------- booleans
TRUE = mk('true', (), None)
FALSE = mk('false', (), None)


def bconst(b):
    return TRUE if b else FALSE


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,))


def band(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    if a is bnot(b):
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('and', (a, b))


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def lt(a, b):
    if a.gv is not None and b.gv is not None:
        return bconst(a.gv < b.gv)
    if a is b:
        return FALSE
    # a symbolic value is a real number (its definedness is an obligation of its own)
    if a.gv is None and b.gv is not None and math.isinf(b.gv):
        return bconst(b.gv > 0)
    if b.gv is None and a.gv is not None and math.isinf(a.gv):
        return bconst(a.gv < 0)
    return mk('lt', (a, b))


def eq(a, b):
    if a.gv is not None and b.gv is not None:
        return bconst(a.gv == b.gv)
    if a is b:
        return TRUE
    if any(x.gv is not None and math.isinf(x.gv) for x in (a, b)):
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b))


def fcmp(pred, a, b):
    """fcmp under the stated assumption that no operand is NaN."""
    p = pred[1:] if pred[0] in 'ou' and len(pred) == 3 and pred not in ('ord', 'uno') else pred
    if pred == 'ord':
        return TRUE if (a.gv is None or a.gv == a.gv) and (b.gv is None or b.gv == b.gv) else FALSE
    if pred == 'uno':
        return bnot(fcmp('ord', a, b))
    if pred == 'true':
        return TRUE
    if pred == 'false':
        return FALSE
    if p == 'lt':
        return lt(a, b)
    if p == 'gt':
        return lt(b, a)
    if p == 'ge':
        return bnot(lt(a, b))
    if p == 'le':
        return bnot(lt(b, a))
    if p == 'eq':
        return eq(a, b)
    if p == 'ne':
        return bnot(eq(a, b))
    raise ValueError(pred)


# ---------------------------------------------------------------- utilities
def topo(roots):
    """All nodes reachable from roots, children first."""
    seen = set()
    out = []
    stack = [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for a in n.args:
            if isinstance(a, Node) and a.id not in seen:
                stack.append((a, False))
    return out


def evaluate(roots, env):
    """Evaluate nodes in double precision. env: name -> float (or mpmath)."""
    val = {}
    for n in topo(roots):
        o = n.op
        a = n.args
        if o == 'c':
            v = a[0]
        elif o == 'q':
            v = float(a[0])
        elif o == 'var':
            v = env[a[0]]
        elif o in '+-*/':
            v = _apply(o, val[a[0].id], val[a[1].id])
        elif o == 'neg':
            v = -val[a[0].id]
        elif o in _fn:
            x = val[a[0].id]
            try:
                v = _fn[o](x)
            except (ValueError, OverflowError):
                v = math.nan
        elif o == 'atan2':
            v = math.atan2(val[a[0].id], val[a[1].id])
        elif o == 'f32':
            v = struct.unpack('<f', struct.pack('<f', val[a[0].id]))[0] if abs(val[a[0].id]) < 3e38 else val[a[0].id]
        elif o == 'true':
            v = True
        elif o == 'false':
            v = False
        elif o == 'not':
            v = not val[a[0].id]
        elif o == 'and':
            v = val[a[0].id] and val[a[1].id]
        elif o == 'lt':
            v = val[a[0].id] < val[a[1].id]
        elif o == 'eq':
            v = val[a[0].id] == val[a[1].id]
        else:
            raise ValueError('evaluate: ' + o)
        val[n.id] = v
    return [val[r.id] for r in roots]


def show(n, depth=8):
    if not isinstance(n, Node):
        return repr(n)
    if n.op == 'c':
        return repr(n.args[0])
    if n.op == 'q':
        return str(n.args[0])
    if n.op == 'var':
        return str(n.args[0])
    if depth == 0:
        return '#%d' % n.id
    if n.op in '+-*/' and len(n.args) == 2:
        return '(%s %s %s)' % (show(n.args[0], depth - 1), n.op, show(n.args[1], depth - 1))
    return '%s(%s)' % (n.op, ', '.join(show(a, depth - 1) for a in n.args))


def reset():
    """Forget all nodes (constants survive)."""
    keep = {k: v for k, v in _table.items() if v.op in ('c', 'true', 'false')}
    _table.clear()
    _table.update(keep)
