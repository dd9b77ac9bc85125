"""Symbolic executor for LLVM IR.

Integers and pointers are concrete; floating-point values are DAG nodes (see dag.py).  A branch on a
symbolic comparison forks: the executor re-runs the entry function once per feasible decision string.
Memory is a set of bounded objects with per-cell initialisation state, so that out-of-bounds, use of
dead stack/heap objects and use of uninitialised values stop the path with a MemError.
"""
import os
import struct
from . import ir, dag
from .dag import Node, UndefUse

M64 = (1 << 64) - 1


class Unsupported(Exception):
    pass


class MemError(Exception):
    pass


class PathEnd(Exception):
    def __init__(self, kind, info=''):
        Exception.__init__(self, kind, info)
        self.kind = kind
        self.info = info


class Infeasible(Exception):
    pass


class Undef:
    """An indeterminate value: may be copied, may not be computed with."""
    __slots__ = ()

    def _bad(self, *a):
        raise MemError('use of an uninitialised value')

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __and__ = __rand__ = __or__ = __ror__ = _bad
    __lt__ = __gt__ = __le__ = __ge__ = __eq__ = __ne__ = __bool__ = __rshift__ = __lshift__ = __xor__ = __rxor__ = _bad
    __rrshift__ = __rlshift__ = __index__ = __int__ = _bad
    __hash__ = object.__hash__

    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Cat:
    """A value made of several adjacent cells: list of (size, value)."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts


class SymInt:
    """A symbolic integer (result of a random-number stub): only conversions are supported."""
    __slots__ = ('node',)

    def __init__(self, node):
        self.node = node


class Obj:
    __slots__ = ('size', 'cells', 'alive', 'kind', 'name', 'ro')

    def __init__(self, size, kind, name=''):
        self.size = size
        self.cells = {}
        self.alive = True
        self.kind = kind
        self.name = name
        self.ro = False


def s64(x):
    return x - (1 << 64) if x >> 63 else x


def sx(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def f64bits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def bits2const(x, n):
    if n == 8:
        return dag.const(struct.unpack('<d', struct.pack('<Q', x))[0])
    return dag.const(struct.unpack('<f', struct.pack('<I', x & 0xffffffff))[0])


class Machine:
    def __init__(self, mod, fp='uf', fuel=30_000_000):
        self.mod = mod
        self.code = {}
        self.leaks = False
        self.fuel0 = fuel
        self.lib = {}
        self.install_stubs()
        self.fn_addr = {}
        self.addr_fn = {}
        self.steps = 0
        self.total_steps = 0
        self.total_blocks = 0
        self.fns_run = set()
        self.descending = False
        self.lifetimes = True
        self.reset([])

    # ------------------------------------------------------------------ state
    def reset(self, decisions):
        self.objs = {}
        self.nobj = 0
        self.globals = {}
        self.decisions = decisions
        self.dpos = 0
        self.path = []      # list of (cond node, bool)
        self.known = {}
        self.rand_n = 0
        self.fuel = self.fuel0
        self.depth = 0
        self.pending = []
        self.feasible = None
        self.accesses = 0
        self.stores_to = None

    def new_obj(self, size, kind, name=''):
        self.nobj += 1
        i = (0x7ff00000 - self.nobj) if self.descending and kind != 'fn' else self.nobj
        self.objs[i] = Obj(size, kind, name)
        return i << 32

    # ------------------------------------------------------------------ memory
    def _get(self, addr, n, what):
        if addr.__class__ is not int:
            if addr is UNDEF:
                raise MemError('%s through an uninitialised pointer' % what)
            raise Unsupported('symbolic address')
        o = self.objs.get(addr >> 32)
        off = addr & 0xffffffff
        if o is None:
            raise MemError('%s through an invalid pointer' % what + (' (null)' if addr < 4096 else ''))
        if off + n > o.size:
            raise MemError('%s out of bounds: offset %d+%d of %s object of size %d (%s)' % (
                what, off if off < 1 << 31 else off - (1 << 32), n, o.kind, o.size, o.name))
        if not o.alive:
            raise MemError('%s of a %s object after its lifetime ended (%s)' % (what, o.kind, o.name))
        return o, off

    def load_raw(self, addr, n):
        o, off = self._get(addr, n, 'read')
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        return self._load_slow(o, off, n)

    def _load_slow(self, o, off, n):
        # gather covering cells
        parts = []
        pos = off
        end = off + n
        cells = o.cells
        while pos < end:
            found = False
            for back in range(0, 17):
                c = cells.get(pos - back)
                if c is not None and pos - back + c[0] > pos:
                    st = pos - back
                    take = min(end, st + c[0]) - pos
                    parts.append((take, self._sub(c, pos - st, take)))
                    pos += take
                    found = True
                    break
            if not found:
                parts.append((1, UNDEF))
                pos += 1
        return self.combine(parts)

    def _sub(self, cell, o, n):
        size, v = cell
        if o == 0 and n == size:
            return v
        if v is UNDEF:
            return UNDEF
        if v.__class__ is int:
            return (v >> (8 * o)) & ((1 << (8 * n)) - 1)
        if v.__class__ is Cat:
            return self.slice_cat(v, o, n)
        if isinstance(v, Node) and v.op == 'c' and size == 8:
            return (f64bits(v.gv) >> (8 * o)) & ((1 << (8 * n)) - 1)
        if isinstance(v, Node) and v.op == 'c' and size == 4:
            b = struct.unpack('<I', struct.pack('<f', v.gv))[0]
            return (b >> (8 * o)) & ((1 << (8 * n)) - 1)
        return Part(v, size, o, n)

    def slice_cat(self, v, o, n):
        parts = []
        pos = 0
        for sz, x in v.parts:
            a = max(o, pos)
            b = min(o + n, pos + sz)
            if a < b:
                parts.append((b - a, self._sub((sz, x), a - pos, b - a)))
            pos += sz
        return self.combine(parts)

    def combine(self, parts):
        if len(parts) == 1:
            return parts[0][1]
        if all(p[1].__class__ is int for p in parts):
            v = 0
            sh = 0
            for sz, x in parts:
                v |= x << sh
                sh += 8 * sz
            return v
        if all(p[1] is UNDEF for p in parts):
            return UNDEF
        # Re-join parts of one value
        if all(p[1].__class__ is Part for p in parts):
            v0 = parts[0][1]
            pos = 0
            for sz, x in parts:
                if x.v is not v0.v or x.o != pos:
                    break
                pos += sz
            else:
                if pos == v0.size:
                    return v0.v
        flat = []
        for sz, x in parts:
            if x.__class__ is Cat:
                flat.extend(x.parts)
            else:
                flat.append((sz, x))
        return Cat(flat)

    def store_raw(self, addr, n, v):
        o, off = self._get(addr, n, 'write')
        if o.ro:
            raise MemError('write to %s object (%s)' % (o.kind, o.name))
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        if v.__class__ is Cat:
            p = off
            for sz, x in v.parts:
                self._put(o, p, sz, x)
                p += sz
            return
        self._put(o, off, n, v)

    def _put(self, o, off, n, v):
        cells = o.cells
        for p in range(off - 16, off + n):
            c = cells.get(p)
            if c is not None and p + c[0] > off:
                del cells[p]
                if p < off:
                    cells[p] = (off - p, self._sub(c, 0, off - p))
                if p + c[0] > off + n:
                    e = p + c[0] - (off + n)
                    cells[off + n] = (e, self._sub(c, off + n - p, e))
        cells[off] = (n, v)

    def load(self, addr, ty):
        """Typed load, arbitrary type."""
        ty = self.mod.resolve(ty)
        k = ty[0]
        if k == 'f':
            return self.loadf(addr, ty[1] // 8)
        if k == 'i':
            return self.loadi(addr, ty[1])
        if k == 'ptr':
            return self.loadi(addr, 64)
        if k == 'struct':
            offs, _, _ = self.mod.struct_offsets(ty)
            return tuple(self.load(addr + o, e) for o, e in zip(offs, ty[1]))
        if k in ('arr', 'vec'):
            s = self.mod.sizeof(ty[2])
            return tuple(self.load(addr + i * s, ty[2]) for i in range(ty[1]))
        raise Unsupported('load %r' % (ty,))

    def store(self, addr, ty, v):
        ty = self.mod.resolve(ty)
        k = ty[0]
        if k == 'f':
            if ty[1] > 64:
                raise Unsupported('x87')
            return self.store_raw(addr, ty[1] // 8, v)
        if k == 'i':
            return self.storei(addr, ty[1], v)
        if k == 'ptr':
            return self.store_raw(addr, 8, v)
        if k == 'struct':
            offs, _, _ = self.mod.struct_offsets(ty)
            if v is UNDEF:
                v = [UNDEF] * len(offs)
            for o, e, x in zip(offs, ty[1], v):
                self.store(addr + o, e, x)
            return
        if k in ('arr', 'vec'):
            s = self.mod.sizeof(ty[2])
            if v is UNDEF:
                v = [UNDEF] * ty[1]
            for i in range(ty[1]):
                self.store(addr + i * s, ty[2], v[i])
            return
        raise Unsupported('store %r' % (ty,))

    def loadf(self, addr, n):
        if n > 8:
            raise Unsupported('x87')
        v = self.load_raw(addr, n)
        if v.__class__ is Node:
            return v
        if v.__class__ is int:
            return bits2const(v, n)
        if v is UNDEF:
            return v
        raise Unsupported('float load of mixed bytes')

    def loadi(self, addr, bits):
        n = (bits + 7) >> 3
        v = self.load_raw(addr, n)
        if v.__class__ is int and bits & 7:
            return v & ((1 << bits) - 1)
        if v.__class__ is Node and v.op == 'c' and bits == 64:
            return f64bits(v.gv)
        return v

    def storei(self, addr, bits, v):
        if v.__class__ is Node and v.op in BOOLOPS:
            v = self.decide(v)
        self.store_raw(addr, (bits + 7) >> 3, v)

    def copy(self, dst, src, n):
        if n.__class__ is not int:
            raise Unsupported('symbolic memcpy length')
        if n == 0:
            return
        so, soff = self._get(src, n, 'read')
        do, doff = self._get(dst, n, 'write')
        if do.ro:
            raise MemError('write to %s object (%s)' % (do.kind, do.name))
        parts = []
        end = soff + n
        if n <= 4096 and len(so.cells) > n // 2:
            pos = soff
            while pos < end:
                c = so.cells.get(pos)
                if c is not None and pos + c[0] <= end:
                    parts.append((pos, c[0], c[1]))
                    pos += c[0]
                    continue
                v = self._load_slow(so, pos, 1)
                if v is not UNDEF:
                    parts.append((pos, 1, v))
                pos += 1
        else:
            for p, c in list(so.cells.items()):
                if p < end and p + c[0] > soff:
                    a = max(p, soff)
                    b = min(p + c[0], end)
                    parts.append((a, b - a, self._sub(c, a - p, b - a)))
        self._clear(do, doff, n)
        for p, sz, v in parts:
            self._put(do, doff + p - soff, sz, v)

    def _clear(self, o, off, n):
        cells = o.cells
        rng = range(off - 16, off + n) if n < len(cells) + 64 else list(cells)
        for p in rng:
            c = cells.get(p)
            if c is not None and p < off + n and p + c[0] > off:
                del cells[p]
                if p < off:
                    cells[p] = (off - p, self._sub(c, 0, off - p))
                if p + c[0] > off + n:
                    e = p + c[0] - (off + n)
                    cells[off + n] = (e, self._sub(c, off + n - p, e))

    def memset(self, dst, byte, n):
        if n == 0:
            return
        o, off = self._get(dst, n, 'write')
        self._clear(o, off, n)
        if byte is UNDEF:
            return
        p = off
        end = off + n
        while p < end:
            s = 8
            while p % s or p + s > end:
                s //= 2
            o.cells[p] = (s, int.from_bytes(bytes([byte & 255]) * s, 'little'))
            p += s

    def malloc(self, n, kind='heap'):
        if n.__class__ is not int:
            raise Unsupported('symbolic allocation size')
        return self.new_obj(n, kind)

    def free(self, p):
        if p == 0:
            return
        o = self.objs.get(p >> 32)
        if o is None or p & 0xffffffff:
            raise MemError('free of an invalid pointer')
        if o.kind != 'heap':
            raise MemError('free of a %s object' % o.kind)
        if not o.alive:
            raise MemError('double free')
        o.alive = False

    # ------------------------------------------------------------------ decisions
    def decide(self, c):
        if c.__class__ is int or c.__class__ is bool:
            return int(c)
        if c is UNDEF:
            raise MemError('branch on an uninitialised value')
        if c.__class__ is SymInt:
            raise Unsupported('branch on a symbolic integer')
        if c is dag.TRUE:
            return 1
        if c is dag.FALSE:
            return 0
        pol = True
        if c.op == 'not':
            c = c.args[0]
            pol = False
        if c.op == 'and' and c.id not in self.known:
            # decide the conjuncts separately: simple atoms give simple path conditions
            v = self.decide(c.args[0]) and self.decide(c.args[1])
            self.known[c.id] = bool(v)
            return int(bool(v) == pol)
        k = self.known.get(c.id)
        if k is None:
            if self.dpos < len(self.decisions):
                k = self.decisions[self.dpos]
                self.dpos += 1
            else:
                opts = self.feasible(self.path, c) if self.feasible else (True, False)
                if not opts:
                    raise Infeasible()
                k = opts[0]
                if len(opts) > 1:
                    self.pending.append(self.decisions[:self.dpos] + [not k])
                self.decisions = self.decisions[:self.dpos] + [k]
                self.dpos += 1
            self.known[c.id] = k
            self.path.append((c, k))
        return int(k == pol)

    def truth(self, c):
        return self.decide(c)

    def select(self, c, a, b):
        if c.__class__ is int:
            return a if c else b
        if a.__class__ is Node and a is b:
            return a
        if c is UNDEF:
            raise MemError('select on an uninitialised value')
        # boolean selects stay symbolic
        if (a.__class__ is int or (a.__class__ is Node and a.op in BOOLOPS)) and \
           (b.__class__ is int or (b.__class__ is Node and b.op in BOOLOPS)) and self._i1(a) and self._i1(b):
            A = dag.bconst(a) if a.__class__ is int else a
            B = dag.bconst(b) if b.__class__ is int else b
            if A is dag.FALSE:
                return unb(dag.band(dag.bnot(c), B))
            if B is dag.FALSE:
                return unb(dag.band(c, A))
            if A is dag.TRUE:
                return unb(dag.bor(c, B))
            if B is dag.TRUE:
                return unb(dag.bor(dag.bnot(c), A))
        return a if self.decide(c) else b

    def _i1(self, a):
        return a.__class__ is Node or a in (0, 1)

    # ------------------------------------------------------------------ globals / functions
    def gaddr(self, name):
        a = self.globals.get(name)
        if a is not None:
            return a
        if name in self.mod.aliases:
            a = self.gaddr(self.mod.aliases[name])
            self.globals[name] = a
            return a
        if name in self.mod.globals:
            ty, init = self.mod.globals[name]
            a = self.new_obj(max(1, self.mod.sizeof(ty)), 'global', name)
            self.globals[name] = a
            if init is not None:
                self.init_const(a, ty, init)
            elif name == '@__libc_single_threaded':
                self.store_raw(a, 1, 1)
            return a
        if name in self.mod.funcs or name in self.mod.decls:
            a = self.fn_addr.get(name)
            if a is None:
                a = (0x70000000 + len(self.fn_addr)) << 32
                self.fn_addr[name] = a
                self.addr_fn[a] = name
            self.globals[name] = a
            return a
        raise Unsupported('global ' + name)

    def init_const(self, addr, ty, c):
        ty = self.mod.resolve(ty)
        if c[0] == 'zero':
            self.memset(addr, 0, self.mod.sizeof(ty))
        elif c[0] == 'undef':
            pass
        elif c[0] == 'agg':
            if ty[0] == 'struct':
                offs, _, _ = self.mod.struct_offsets(ty)
                for o, (et, ev) in zip(offs, c[2]):
                    self.init_const(addr + o, et, ev)
            else:
                s = self.mod.sizeof(ty[2])
                for i, (et, ev) in enumerate(c[2]):
                    self.init_const(addr + i * s, et, ev)
        elif c[0] == 'str':
            for i, b in enumerate(c[1]):
                self.store_raw(addr + i, 1, b)
        else:
            self.store(addr, ty, self.const(c, ty))

    def const(self, c, ty):
        k = c[0]
        if k == 'ci':
            t = self.mod.resolve(ty)
            w = 64 if t[0] == 'ptr' else t[1]
            return c[1] & ((1 << w) - 1)
        if k == 'cf':
            if isinstance(c[1], tuple):
                raise Unsupported('x87 constant')
            return dag.const(c[1])
        if k == 'g':
            return self.gaddr(c[1])
        if k == 'undef':
            t = self.mod.resolve(ty)
            if t[0] == 'struct':
                return tuple(self.const(c, e) for e in t[1])
            if t[0] in ('arr', 'vec'):
                return tuple(self.const(c, t[2]) for _ in range(t[1]))
            return UNDEF
        if k == 'zero':
            return self.zero(ty)
        if k == 'agg':
            return tuple(self.const(v, t) for t, v in c[2])
        if k == 'ce':
            if c[1] == 'gep':
                base = self.const(c[3][0][1], c[3][0][0])
                return self.gep(c[2], base, [(t, self.const(v, t)) for t, v in c[3][1:]])
            if c[1] in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'zext'):
                return self.const(c[3], c[2])
            if c[1] == 'trunc':
                return self.const(c[3], c[2]) & ((1 << c[4][1]) - 1)
            if c[1] == 'bin':
                a = self.const(c[4], c[3])
                b = self.const(c[5], c[3])
                m = (1 << c[3][1]) - 1
                return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b,
                        'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: a >> b}[c[2]]() & m
            if c[1] == 'icmp':
                a = self.const(c[4], c[3])
                b = self.const(c[5], c[3])
                return int({'eq': a == b, 'ne': a != b}[c[2]])
        raise Unsupported('constant %r' % (c,))

    def zero(self, ty):
        t = self.mod.resolve(ty)
        if t[0] in ('i', 'ptr'):
            return 0
        if t[0] == 'f':
            return dag.ZERO
        if t[0] == 'struct':
            return tuple(self.zero(e) for e in t[1])
        if t[0] in ('arr', 'vec'):
            return tuple(self.zero(t[2]) for _ in range(t[1]))
        raise Unsupported('zero %r' % (t,))

    def gep(self, bt, base, idx):
        off = 0
        t = bt
        for k, (it, iv) in enumerate(idx):
            if k == 0:
                off += sx(iv, it[1]) * self.mod.sizeof(t)
                continue
            t = self.mod.resolve(t)
            if t[0] == 'struct':
                off += self.mod.struct_offsets(t)[0][iv]
                t = t[1][iv]
            else:
                off += sx(iv, it[1]) * self.mod.sizeof(t[2])
                t = t[2]
        return (base + off) & M64

    # ------------------------------------------------------------------ calls
    def call(self, name, args):
        st = self.lib.get(name)
        if st is not None:
            return st(self, *args)
        f = self.mod.funcs.get(name)
        if f is None:
            al = self.mod.aliases.get(name)
            if al is not None:
                return self.call(al, args)
            return self.extern(name, args)
        c = f.compiled
        if c is None:
            c = compile_fn(self, f)
        self.depth += 1
        if self.depth > 400:
            raise PathEnd('stack-overflow', 'recursion deeper than 400 calls in ' + name)
        blocks, nslots = c
        F = [UNDEF] * nslots
        F[1] = []
        F[2:2 + len(args)] = args
        b = 0
        n = 0
        while b >= 0:
            b = blocks[b](self, F)
            n += 1
            if n > 2_000_000:
                raise PathEnd('loop', name)
        self.total_blocks += n
        self.fuel -= n
        if self.fuel < 0:
            raise PathEnd('fuel', name)
        objs = self.objs
        for i in F[1]:
            objs[i].alive = False
        self.depth -= 1
        return F[0]

    def call_ptr(self, p, args):
        n = self.addr_fn.get(p)
        if n is None:
            raise MemError('indirect call through an invalid pointer')
        return self.call(n, args)

    def extern(self, name, args):
        if name.startswith('@llvm.'):
            return self.intrinsic(name[6:], args)
        if name.startswith('@_ZSt') and '__throw_' in name:
            raise PathEnd('throw', name[1:])
        raise Unsupported('external function ' + name)

    def intrinsic(self, n, args):
        b = n.split('.')[0]
        if b == 'memcpy' or b == 'memmove':
            return self.copy(args[0], args[1], args[2])
        if b == 'memset':
            return self.memset(args[0], args[1], args[2])
        if b == 'lifetime':
            if self.lifetimes:
                o = self.objs.get(args[1] >> 32)
                if o is not None and o.kind == 'stack':
                    if 'start' in n:
                        o.alive = True
                        o.cells = {}
                    else:
                        o.alive = False
            return None
        if b in ('assume', 'experimental', 'dbg', 'prefetch', 'donothing', 'invariant', 'sideeffect'):
            return None
        if b == 'expect':
            return args[0]
        if b in ('fabs', 'sqrt', 'sin', 'cos', 'exp', 'log'):
            return self.fcall(b, args[0])
        if b == 'fmuladd' or b == 'fma':
            raise Unsupported('fma')
        if b in ('umax', 'umin', 'smax', 'smin', 'abs', 'ctlz', 'cttz', 'ctpop', 'uadd', 'usub', 'sadd', 'ssub', 'umul', 'smul',
                 'usub.sat', 'fshl', 'bswap'):
            w = int(n.rsplit('.i', 1)[1])
            m = (1 << w) - 1
            x = args[0]
            if b == 'umax':
                return max(x, args[1])
            if b == 'umin':
                return min(x, args[1])
            if b == 'smax':
                return max(sx(x, w), sx(args[1], w)) & m
            if b == 'smin':
                return min(sx(x, w), sx(args[1], w)) & m
            if b == 'abs':
                return abs(sx(x, w)) & m
            if b == 'ctlz':
                return w - x.bit_length()
            if b == 'cttz':
                return (x & -x).bit_length() - 1 if x else w
            if b == 'ctpop':
                return bin(x).count('1')
            if '.sat.' in n:
                if b == 'usub':
                    return max(0, x - args[1])
                if b == 'uadd':
                    return min(m, x + args[1])
            if 'with.overflow' in n:
                if b == 'umul':
                    r = x * args[1]
                    return (r & m, int(r > m))
                if b == 'uadd':
                    r = x + args[1]
                    return (r & m, int(r > m))
                if b == 'usub':
                    r = x - args[1]
                    return (r & m, int(r < 0))
                a_, b_ = sx(x, w), sx(args[1], w)
                r = {'smul': a_ * b_, 'sadd': a_ + b_, 'ssub': a_ - b_}[b]
                return (r & m, int(not -(1 << (w - 1)) <= r < 1 << (w - 1)))
        if b in ('copysign',):
            raise Unsupported('copysign')
        if b in ('maxnum', 'minnum', 'maximum', 'minimum'):
            c = dag.lt(args[0], args[1])
            less = self.decide(c)
            return (args[1] if less else args[0]) if b.startswith('max') else (args[0] if less else args[1])
        if b == 'is' and n.startswith('is.fpclass'):
            mask = args[1]
            x = args[0]
            if x.gv is not None:
                import math
                v = x.gv
                nan = math.isnan(v)
                inf = math.isinf(v)
                fin = not nan and not inf
                r = (mask & 3 and nan) or (mask & 0x204 and inf) or (mask & 0x1f8 and fin)
                return 1 if r else 0
            if mask & 0x1f8 == 0x1f8:
                return 1
            if mask & 0x1f8 == 0:
                return 0
            raise Unsupported('is.fpclass')
        if b == 'trap':
            raise PathEnd('trap')
        if b == 'eh':
            return 1
        if b == 'objectsize':
            return M64
        if b == 'load' and n.startswith('load.relative'):
            raise Unsupported(n)
        if b in ('stacksave',):
            return 0
        if b in ('stackrestore', 'va_start', 'va_end'):
            return None
        if b == 'threadlocal':
            return args[0]
        raise Unsupported('intrinsic ' + n)

    def fcall(self, fn, x):
        if x is UNDEF:
            raise MemError('use of an uninitialised value')
        if x.__class__ is tuple:
            return tuple(self.fcall(fn, y) for y in x)
        return dag.fn(fn, x)

    def rand(self):
        self.rand_n += 1
        return SymInt(dag.var('rand%d' % self.rand_n))

    def nextafter(self, x, y, single):
        if x.gv is None or y.gv is None:
            raise Unsupported('nextafter of a symbolic number')
        import numpy as np
        T = np.float32 if single else np.float64
        return dag.const(float(np.nextafter(T(float(x.gv)), T(float(y.gv)))))

    def install_stubs(self):
        L = self.lib
        for f in ('sin', 'cos', 'acos', 'asin', 'atan', 'tan', 'sqrt', 'fabs', 'exp', 'log'):
            L['@' + f] = (lambda f: lambda m, x: m.fcall(f, x))(f)
            L['@' + f + 'f'] = (lambda f: lambda m, x: m.fcall(f, x))(f)
        L['@nextafter'] = lambda m, x, y: m.nextafter(x, y, False)
        L['@nextafterf'] = lambda m, x, y: m.nextafter(x, y, True)
        L['@atan2'] = L['@atan2f'] = lambda m, y, x: dag.atan2(y, x)
        L['@_Znwm'] = L['@_Znam'] = L['@malloc'] = lambda m, n: m.malloc(n)
        L['@_ZnwmSt11align_val_t'] = L['@_ZnamSt11align_val_t'] = lambda m, n, a: m.malloc(n)
        L['@aligned_alloc'] = lambda m, a, n: m.malloc(n)
        L['@_ZnwmRKSt9nothrow_t'] = L['@_ZnamRKSt9nothrow_t'] = lambda m, n, t: m.malloc(n)

        def pma(m, pp, al, n):
            m.store_raw(pp, 8, m.malloc(n))
            return 0
        L['@posix_memalign'] = pma

        def calloc(m, a, b):
            p = m.malloc(a * b)
            m.memset(p, 0, a * b)
            return p
        L['@calloc'] = calloc

        def realloc(m, p, n):
            q = m.malloc(n)
            if p:
                m.copy(q, p, min(n, m.objs[p >> 32].size))
                m.free(p)
            return q
        L['@realloc'] = realloc
        L['@free'] = L['@_ZdlPv'] = L['@_ZdaPv'] = lambda m, p: m.free(p)
        for nm in ('@_ZdlPvm', '@_ZdaPvm', '@_ZdlPvSt11align_val_t', '@_ZdaPvSt11align_val_t', '@_ZdlPvRKSt9nothrow_t'):
            L[nm] = lambda m, p, n: m.free(p)
        L['@_ZdlPvmSt11align_val_t'] = lambda m, p, n, a: m.free(p)
        L['@memcpy'] = L['@memmove'] = lambda m, d, s, n: (m.copy(d, s, n), d)[1]
        L['@memset'] = lambda m, d, c, n: (m.memset(d, c, n), d)[1]

        def memcmp(m, a, b, n):
            for i in range(n):
                x = m.load_raw(a + i, 1)
                y = m.load_raw(b + i, 1)
                if x != y:
                    return (1 if x > y else -1) & 0xffffffff
            return 0
        L['@memcmp'] = L['@bcmp'] = memcmp

        def strlen(m, p):
            n = 0
            while m.load_raw(p + n, 1):
                n += 1
            return n
        L['@strlen'] = strlen
        L['@rand'] = lambda m: m.rand()
        L['@abort'] = lambda m: (_ for _ in ()).throw(PathEnd('abort'))
        L['@__assert_fail'] = lambda m, *a: (_ for _ in ()).throw(PathEnd('assert'))
        L['@_ZSt9terminatev'] = lambda m: (_ for _ in ()).throw(PathEnd('terminate'))
        L['@__cxa_pure_virtual'] = lambda m: (_ for _ in ()).throw(PathEnd('pure-virtual'))
        L['@__cxa_allocate_exception'] = lambda m, n: m.malloc(n)
        L['@__cxa_throw'] = lambda m, *a: (_ for _ in ()).throw(PathEnd('throw'))
        L['@__cxa_guard_acquire'] = lambda m, p: 0 if m.loadi(p, 8) else 1
        L['@__cxa_guard_release'] = lambda m, p: m.store_raw(p, 1, 1)
        L['@__cxa_atexit'] = lambda m, *a: 0
        L['@__cxa_begin_catch'] = lambda m, p: p
        L['@__cxa_end_catch'] = lambda m: None
        L['@_ZNSt8ios_base4InitC1Ev'] = lambda m, p: None
        for nm in ('@_ZNSt9exceptionD2Ev', '@_ZNSt9exceptionD1Ev', '@_ZNSt12out_of_rangeC1EPKc', '@_ZNSt11logic_errorC2EPKc'):
            L[nm] = lambda m, *a: None


class Part:
    __slots__ = ('v', 'size', 'o', 'n')

    def __init__(self, v, size, o, n):
        self.v, self.size, self.o, self.n = v, size, o, n


BOOLOPS = {'lt', 'eq', 'not', 'and', 'true', 'false'}


def unb(c):
    if c is dag.TRUE:
        return 1
    if c is dag.FALSE:
        return 0
    return c


# ---------------------------------------------------------------------- runtime helpers used by generated code
def r_and(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return a & b
    if w == 1:
        if a.__class__ is int:
            a, b = b, a
        if a is UNDEF or b is UNDEF:
            raise MemError('use of an uninitialised value')
        if b.__class__ is int:
            return a if b else 0
        return unb(dag.band(a, b))
    if a is UNDEF or b is UNDEF:
        raise MemError('use of an uninitialised value')
    if a.__class__ is int:
        a, b = b, a
    if a.__class__ is Node and b == 0x7fffffffffffffff:
        return dag.fn('fabs', a)
    if a.__class__ is Node and w == 32 and b == 0x7fffffff:
        return dag.fn('fabs', a)
    if a.__class__ is Cat and b.__class__ is int:
        # mask out whole bytes
        parts = []
        pos = 0
        for sz, x in a.parts:
            m = (b >> (8 * pos)) & ((1 << (8 * sz)) - 1)
            if m == 0:
                parts.append((sz, 0))
            elif m == (1 << (8 * sz)) - 1:
                parts.append((sz, x))
            else:
                raise Unsupported('and of mixed bytes')
            pos += sz
        return Cat(parts) if not all(p[1].__class__ is int for p in parts) else 0
    raise Unsupported('and')


def r_or(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return a | b
    if a is UNDEF or b is UNDEF:
        raise MemError('use of an uninitialised value')
    if w == 1:
        A = dag.bconst(a) if a.__class__ is int else a
        B = dag.bconst(b) if b.__class__ is int else b
        return unb(dag.bor(A, B))

    def parts(x):
        if x.__class__ is Cat:
            return x.parts
        if x.__class__ is int:
            return [(1, (x >> (8 * i)) & 255) for i in range(w // 8)]
        return [(w // 8, x)]
    # disjoint byte-wise or
    pa, pb = expand(parts(a)), expand(parts(b))
    out = []
    for x, y in zip(pa, pb):
        if x == ('i', 0):
            out.append(y)
        elif y == ('i', 0):
            out.append(x)
        else:
            raise Unsupported('or of mixed bytes')
    return regroup(out)


def expand(parts):
    out = []
    for sz, x in parts:
        for i in range(sz):
            if x.__class__ is int:
                out.append(('i', (x >> (8 * i)) & 255))
            else:
                out.append(('n', x, sz, i))
    return out


def regroup(bs):
    out = []
    i = 0
    while i < len(bs):
        b = bs[i]
        if b[0] == 'i':
            out.append((1, b[1]))
            i += 1
        else:
            out.append((b[2], b[1]))
            i += b[2]
    if all(p[1].__class__ is int for p in out):
        return sum(x << (8 * k) for k, (s, x) in enumerate(out))
    if len(out) == 1:
        return out[0][1]
    # merge int runs
    return Cat(out)


def r_xor(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return a ^ b
    if a is UNDEF or b is UNDEF:
        raise MemError('use of an uninitialised value')
    if a.__class__ is int:
        a, b = b, a
    if w == 1:
        if b.__class__ is int:
            return unb(dag.bnot(a)) if b else a
        raise Unsupported('xor of symbolic booleans')
    if a.__class__ is Node and ((w == 64 and b == 1 << 63) or (w == 32 and b == 1 << 31)):
        return dag.neg(a)
    raise Unsupported('xor')


def r_zext(m, a, w):
    if a.__class__ is int:
        return a
    if a.__class__ is Node and a.op in BOOLOPS:
        return m.decide(a)
    if a.__class__ is Node or a.__class__ is Cat:
        return Cat((a.parts if a.__class__ is Cat else [(w[0] // 8, a)]) + [(1, 0)] * ((w[1] - w[0]) // 8))
    if a is UNDEF or a.__class__ is SymInt:
        return a
    raise Unsupported('zext')


def r_sext(m, a, w0, w1):
    if a.__class__ is int:
        return (a - (1 << w0) if a >> (w0 - 1) else a) & ((1 << w1) - 1)
    if a.__class__ is Node and a.op in BOOLOPS:
        return ((1 << w1) - 1) if m.decide(a) else 0
    if a is UNDEF or a.__class__ is SymInt:
        return a
    raise Unsupported('sext')


def r_trunc(m, a, w0, w1):
    if a.__class__ is int:
        return a & ((1 << w1) - 1)
    if a.__class__ is Cat:
        return m.slice_cat(a, 0, w1 // 8)
    if a is UNDEF or a.__class__ is SymInt:
        return a
    if a.__class__ is Node and a.op not in BOOLOPS and w1 % 8 == 0:
        return m._sub((w0 // 8, a), 0, w1 // 8)
    raise Unsupported('trunc')


def r_lshr(m, a, b, w):
    if a.__class__ is int:
        return a >> b
    if a is UNDEF:
        raise MemError('use of an uninitialised value')
    if b % 8 == 0 and a.__class__ is Cat:
        n = w // 8
        v = m.slice_cat(a, b // 8, n - b // 8)
        parts = v.parts if v.__class__ is Cat else [(n - b // 8, v)]
        return Cat(list(parts) + [(1, 0)] * (b // 8))
    raise Unsupported('lshr')


def r_shl(m, a, b, w):
    if a.__class__ is int:
        return (a << b) & ((1 << w) - 1)
    if a is UNDEF:
        raise MemError('use of an uninitialised value')
    if b % 8 == 0:
        n = w // 8
        if a.__class__ is Cat:
            v = m.slice_cat(a, 0, n - b // 8)
        else:
            raise Unsupported('shl')
        parts = v.parts if v.__class__ is Cat else [(n - b // 8, v)]
        return Cat([(1, 0)] * (b // 8) + list(parts))
    raise Unsupported('shl')


def r_icmp(m, pred, a, b, w):
    for x in (a, b):
        if x is UNDEF:
            raise MemError('use of an uninitialised value')
    if w == 1:
        if pred in ('eq', 'ne'):
            if a.__class__ is int:
                a, b = b, a
            if b.__class__ is int:
                r = a if b else unb(dag.bnot(a))
                return r if pred == 'eq' else (unb(dag.bnot(r)) if r.__class__ is Node else 1 - r)
    raise Unsupported('icmp on symbolic values')


def r_f2(op, a, b):
    if a is UNDEF or b is UNDEF:
        raise MemError('use of an uninitialised value')
    if a.__class__ is tuple:
        return tuple(r_f2(op, x, y) for x, y in zip(a, b))
    if a.__class__ is not Node or b.__class__ is not Node:
        raise Unsupported('float operation on %r' % ((a.__class__, b.__class__),))
    return dag.bin_(op, a, b)


def r_fneg(a):
    if a is UNDEF:
        raise MemError('use of an uninitialised value')
    if a.__class__ is tuple:
        return tuple(r_fneg(x) for x in a)
    return dag.neg(a)


def r_fcmp(p, a, b):
    if a is UNDEF or b is UNDEF:
        raise MemError('use of an uninitialised value')
    return unb(dag.fcmp(p, a, b))


def r_bitcast(m, v, ft, tt):
    if v.__class__ is tuple or tt[0] == 'vec' or ft[0] == 'vec':
        # through a scratch object
        n = m.mod.sizeof(ft)
        p = m.new_obj(n, 'tmp')
        m.store(p, ft, v)
        r = m.load(p, tt)
        del m.objs[p >> 32]
        return r
    if tt[0] == 'f' and v.__class__ is int:
        return bits2const(v, tt[1] // 8)
    if tt[0] == 'i' and v.__class__ is Node and v.op == 'c':
        return f64bits(v.gv) if tt[1] == 64 else struct.unpack('<I', struct.pack('<f', v.gv))[0]
    return v


def r_si2fp(v, w, signed):
    if v.__class__ is int:
        return dag.const(float(sx(v, w) if signed else v))
    if v.__class__ is SymInt:
        return v.node
    if v is UNDEF:
        raise MemError('use of an uninitialised value')
    raise Unsupported('sitofp')


def r_fp2i(v, w):
    if v is UNDEF:
        raise MemError('use of an uninitialised value')
    if v.gv is not None:
        return int(v.gv) & ((1 << w) - 1)
    raise Unsupported('fptosi of a symbolic value')


def r_fptrunc(v):
    if v is UNDEF:
        raise MemError('use of an uninitialised value')
    if v.op == 'c':
        x = struct.unpack('<f', struct.pack('<f', v.gv))[0] if abs(v.gv) < 3.4e38 else v.gv
        return dag.const(x)
    return dag.mk('f32', (v,), v.gv)


def r_fpext(v):
    if v is UNDEF:
        raise MemError('use of an uninitialised value')
    return v


# ---------------------------------------------------------------------- code generation
def compile_fn(m, f):
    mod = m.mod
    m.fns_run.add(f.name)
    blocks = ir.parse_body(mod, f)
    idx = {lab: i for i, (lab, _) in enumerate(blocks)}
    slots = {}
    n = 2
    for i, (t, nm) in enumerate(f.params):
        slots[nm if nm is not None else '%' + str(i)] = n
        n += 1
    # which names are defined where
    defs = {}
    for bi, (lab, ins) in enumerate(blocks):
        for I in ins:
            if I.dst is not None:
                defs[I.dst] = bi
    # cross-block uses
    cross = set()

    def scan(v, bi):
        if isinstance(v, tuple) and v and v[0] == 'l':
            if defs.get(v[1], bi) != bi:
                cross.add(v[1])
        elif isinstance(v, tuple) and v and v[0] == 'byval':
            scan(v[2], bi)
        elif isinstance(v, tuple) and v and v[0] == 'agg':
            for t, x in v[2]:
                scan(x, bi)

    for bi, (lab, ins) in enumerate(blocks):
        for I in ins:
            if I.op == 'phi':
                cross.add(I.dst)
                for v, l in I.a[1]:
                    if v[0] == 'l':
                        cross.add(v[1])
                continue
            for x in I.a:
                if isinstance(x, tuple):
                    scan(x, bi)
                elif isinstance(x, list):
                    for y in x:
                        if isinstance(y, tuple):
                            scan(y, bi)
                            if len(y) == 2 and isinstance(y[1], tuple):
                                scan(y[1], bi)
    for nm in sorted(cross):
        if nm not in slots:
            slots[nm] = n
            n += 1
    consts = []
    env = {}

    def K(obj):
        consts.append(obj)
        return 'K%d' % (len(consts) - 1)

    src = []
    lname = {}

    def local(nm):
        r = lname.get(nm)
        if r is None:
            r = 'v%d' % len(lname)
            lname[nm] = r
        return r

    for bi, (lab, ins) in enumerate(blocks):
        inblk = set()

        def opd(v, ty):
            k = v[0]
            if k == 'l':
                nm = v[1]
                if nm in inblk:
                    return local(nm)
                return 'F[%d]' % slots[nm]
            if k == 'ci':
                t = mod.resolve(ty)
                w = 64 if t[0] == 'ptr' else t[1]
                return str(v[1] & ((1 << w) - 1))
            if k == 'cf' and not isinstance(v[1], tuple):
                return K(dag.const(v[1]))
            if k == 'undef':
                t = mod.resolve(ty)
                if t[0] in ('i', 'f', 'ptr'):
                    return 'UNDEF'
            if k == 'g':
                return 'm.gaddr(%r)' % v[1]
            if k == 'agg' and any(x[0] == 'l' for t, x in v[2]):
                return '(' + ''.join(opd(x, t) + ',' for t, x in v[2]) + ')'
            return 'm.const(%s,%s)' % (K(v), K(ty))

        out = ['def b%d(m,F):' % bi]
        emit = lambda s: out.append(' ' + s)

        def define(I, expr):
            nm = I.dst
            inblk.add(nm)
            if nm in cross:
                emit('%s=F[%d]=%s' % (local(nm), slots[nm], expr))
            else:
                emit('%s=%s' % (local(nm), expr))

        def goto(target, ind=''):
            tb = idx[target]
            phis = [x for x in blocks[tb][1] if x.op == 'phi']
            if phis:
                lhs, rhs = [], []
                for p in phis:
                    for v, l in p.a[1]:
                        if l == lab:
                            lhs.append('F[%d]' % slots[p.dst])
                            rhs.append(opd(v, p.a[0]))
                            break
                emit(ind + ','.join(lhs) + '=' + ','.join(rhs))
            emit(ind + 'return %d' % tb)

        for I in ins:
            o = I.op
            a = I.a
            if o == 'phi':
                continue
            if o == 'bin':
                op, ty, x, y = a
                rt = mod.resolve(ty)
                X, Y = opd(x, ty), opd(y, ty)
                if op[0] == 'f':
                    if op == 'frem':
                        emit("raise Unsupported('frem')")
                        define(I, 'None')
                        continue
                    sym = {'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/'}[op]
                    define(I, 'f2(%r,%s,%s)' % (sym, X, Y))
                elif rt[0] == 'vec':
                    emit("raise Unsupported('vector int op')")
                    define(I, 'None')
                else:
                    w = rt[1]
                    mask = (1 << w) - 1
                    if op == 'add':
                        define(I, '(%s+%s)&%d' % (X, Y, mask))
                    elif op == 'sub':
                        define(I, '(%s-%s)&%d' % (X, Y, mask))
                    elif op == 'mul':
                        define(I, '(%s*%s)&%d' % (X, Y, mask))
                    elif op == 'and':
                        define(I, 'r_and(%s,%s,%d)' % (X, Y, w))
                    elif op == 'or':
                        define(I, 'r_or(%s,%s,%d)' % (X, Y, w))
                    elif op == 'xor':
                        define(I, 'r_xor(%s,%s,%d)' % (X, Y, w))
                    elif op == 'shl':
                        define(I, 'r_shl(m,%s,%s,%d)' % (X, Y, w))
                    elif op == 'lshr':
                        define(I, 'r_lshr(m,%s,%s,%d)' % (X, Y, w))
                    elif op == 'ashr':
                        define(I, '(sx(%s,%d)>>%s)&%d' % (X, w, Y, mask))
                    elif op == 'udiv':
                        define(I, '%s//%s' % (X, Y))
                    elif op == 'urem':
                        define(I, '%s%%%s' % (X, Y))
                    elif op == 'sdiv':
                        define(I, 'sdiv(%s,%s,%d)' % (X, Y, w))
                    elif op == 'srem':
                        define(I, 'srem(%s,%s,%d)' % (X, Y, w))
            elif o == 'fneg':
                define(I, 'fneg(%s)' % opd(a[1], a[0]))
            elif o == 'load':
                ty = mod.resolve(a[0])
                p = opd(a[1], ir.PTR)
                if ty[0] == 'f':
                    define(I, 'm.loadf(%s,%d)' % (p, ty[1] // 8))
                elif ty[0] == 'i':
                    define(I, 'm.loadi(%s,%d)' % (p, ty[1]))
                elif ty[0] == 'ptr':
                    define(I, 'm.loadi(%s,64)' % p)
                else:
                    define(I, 'm.load(%s,%s)' % (p, K(ty)))
            elif o == 'store':
                ty = mod.resolve(a[0])
                p = opd(a[2], ir.PTR)
                v = opd(a[1], ty)
                if ty[0] == 'f' and ty[1] <= 64:
                    emit('m.store_raw(%s,%d,%s)' % (p, ty[1] // 8, v))
                elif ty[0] == 'ptr':
                    emit('m.store_raw(%s,8,%s)' % (p, v))
                elif ty[0] == 'i':
                    emit('m.storei(%s,%d,%s)' % (p, ty[1], v))
                else:
                    emit('m.store(%s,%s,%s)' % (p, K(ty), v))
            elif o == 'gep':
                bt, pt, pv, ix = a
                off = 0
                terms = []
                t = bt
                for k, (it, iv) in enumerate(ix):
                    if k == 0:
                        sz = mod.sizeof(t)
                    else:
                        t = mod.resolve(t)
                        if t[0] == 'struct':
                            off += mod.struct_offsets(t)[0][iv[1]]
                            t = t[1][iv[1]]
                            continue
                        sz = mod.sizeof(t[2])
                        t = t[2]
                    if iv[0] == 'ci':
                        off += iv[1] * sz
                    else:
                        e = opd(iv, it)
                        if it[1] < 64:
                            e = 'sx(%s,%d)' % (e, it[1])
                        terms.append('%s*%d' % (e, sz))
                e = opd(pv, ir.PTR)
                if off:
                    terms.append(str(off))
                if terms:
                    define(I, '(%s+%s)&M64' % (e, '+'.join(terms)))
                else:
                    define(I, e)
            elif o == 'alloca':
                sz = mod.sizeof(a[0])
                e = opd(a[1], ir.I64)
                define(I, 'm.new_obj(%d*%s,"stack",%r)' % (sz, e, f.name + ' ' + I.dst))
                emit('F[1].append(%s>>32)' % local(I.dst))
            elif o == 'call':
                ty, cv, args, normal = a
                if cv[0] == 'g' and cv[1].startswith(('@llvm.assume', '@llvm.experimental.noalias', '@llvm.dbg')):
                    continue
                al = []
                for at, av in args:
                    if av[0] == 'byval':
                        t = K(av[1])
                        emit('bv=m.new_obj(%d,"stack","byval"); m.copy(bv,%s,%d); F[1].append(bv>>32)' % (
                            mod.sizeof(av[1]), opd(av[2], ir.PTR), mod.sizeof(av[1])))
                        nm = 'bv%d' % len(al)
                        emit('%s=bv' % nm)
                        al.append(nm)
                    else:
                        al.append(opd(av, at))
                if cv[0] == 'g':
                    nm = cv[1]
                    nm = mod.aliases.get(nm, nm)
                    if nm.startswith(('@llvm.lifetime', )):
                        e = 'm.intrinsic(%r,(%s,))' % (nm[6:], ','.join(al))
                    elif nm.startswith(('@llvm.assume', '@llvm.experimental.noalias', '@llvm.dbg')):
                        continue
                    elif nm in m.lib:
                        e = 'm.lib[%r](m%s)' % (nm, ''.join(',' + x for x in al))
                    else:
                        e = 'm.call(%r,[%s])' % (nm, ','.join(al))
                else:
                    e = 'm.call_ptr(%s,[%s])' % (opd(cv, ir.PTR), ','.join(al))
                if I.dst is not None:
                    define(I, e)
                else:
                    emit(e)
                if normal is not None:
                    goto(normal)
            elif o == 'br':
                goto(a[0])
            elif o == 'cbr':
                emit('c=%s' % opd(a[0], ir.I1))
                emit('if c.__class__ is not int: c=m.decide(c)')
                emit('if c:')
                goto(a[1], ' ')
                goto(a[2])
            elif o == 'switch':
                ty, v, d, cases = a
                emit('c=%s' % opd(v, ty))
                emit('if c.__class__ is not int: c=m.decide(c)')
                w = ty[1]
                for cv, l in cases:
                    emit('if c==%d:' % (cv & ((1 << w) - 1)))
                    goto(l, ' ')
                goto(d)
            elif o == 'ret':
                if a[0] is not None:
                    emit('F[0]=%s' % opd(a[1], a[0]))
                else:
                    emit('F[0]=None')
                emit('return -1')
            elif o == 'unreachable':
                emit("raise PathEnd('unreachable',%r)" % f.name)
            elif o == 'select':
                ct, c, at, x, y = a
                ra = mod.resolve(at)
                if ra[0] == 'i' and ra[1] > 8:
                    define(I, '(%s if m.decide(%s) else %s)' % (opd(x, at), opd(c, ct), opd(y, at)))
                else:
                    define(I, 'm.select(%s,%s,%s)' % (opd(c, ct), opd(x, at), opd(y, at)))
            elif o == 'icmp':
                pred, ty, x, y = a
                rt = mod.resolve(ty)
                X, Y = opd(x, ty), opd(y, ty)
                w = 64 if rt[0] == 'ptr' else rt[1]
                emit('x=%s;y=%s' % (X, Y))
                if pred in ('eq', 'ne', 'ult', 'ugt', 'ule', 'uge'):
                    cmpe = 'x %s y' % {'eq': '==', 'ne': '!=', 'ult': '<', 'ugt': '>', 'ule': '<=', 'uge': '>='}[pred]
                else:
                    cmpe = 'sx(x,%d) %s sx(y,%d)' % (w, {'slt': '<', 'sgt': '>', 'sle': '<=', 'sge': '>='}[pred], w)
                define(I, '(1 if %s else 0) if x.__class__ is int and y.__class__ is int else r_icmp(m,%r,x,y,%d)' % (cmpe, pred, w))
            elif o == 'fcmp':
                pred, ty, x, y = a
                define(I, 'r_fcmp(%r,%s,%s)' % (pred, opd(x, ty), opd(y, ty)))
            elif o == 'cast':
                op, ft, v, tt = a
                rf, rt = mod.resolve(ft), mod.resolve(tt)
                V = opd(v, ft)
                if rf[0] == 'vec' and op not in ('bitcast',):
                    emit("raise Unsupported('vector cast')")
                    define(I, 'None')
                elif op == 'trunc':
                    define(I, 'r_trunc(m,%s,%d,%d)' % (V, rf[1], rt[1]))
                elif op == 'zext':
                    define(I, 'r_zext(m,%s,(%d,%d))' % (V, rf[1], rt[1]))
                elif op == 'sext':
                    define(I, 'r_sext(m,%s,%d,%d)' % (V, rf[1], rt[1]))
                elif op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
                    define(I, V)
                elif op == 'bitcast':
                    define(I, 'r_bitcast(m,%s,%s,%s)' % (V, K(rf), K(rt)))
                elif op == 'sitofp':
                    define(I, 'r_si2fp(%s,%d,True)' % (V, rf[1]))
                elif op == 'uitofp':
                    define(I, 'r_si2fp(%s,%d,False)' % (V, rf[1]))
                elif op in ('fptosi', 'fptoui'):
                    define(I, 'r_fp2i(%s,%d)' % (V, rt[1]))
                elif op == 'fptrunc':
                    define(I, 'r_fptrunc(%s)' % V)
                elif op == 'fpext':
                    define(I, 'r_fpext(%s)' % V)
            elif o == 'extractvalue':
                ty, v, ixs = a
                define(I, opd(v, ty) + ''.join('[%d]' % i for i in ixs))
            elif o == 'insertvalue':
                ty, v, et, ev, ixs = a
                define(I, 'insv(%s,%s,%r)' % (opd(v, ty), opd(ev, et), tuple(ixs)))
            elif o == 'extractelement':
                ty, v, iv = a
                define(I, '%s[%s]' % (opd(v, ty), opd(iv, ir.I64)))
            elif o == 'insertelement':
                ty, v, ev, iv = a
                define(I, 'insv(%s,%s,(%s,))' % (opd(v, ty), opd(ev, ty[2]), opd(iv, ir.I64)))
            elif o == 'shufflevector':
                ty, x, y, mt, mv = a
                define(I, 'shuf(%s,%s,%s)' % (opd(x, ty), opd(y, ty), opd(mv, mt)))
            elif o == 'freeze':
                define(I, opd(a[1], a[0]))
            elif o == 'eh':
                if I.dst is not None:
                    define(I, 'None')
                emit("raise PathEnd('eh')")
            elif o == 'atomicrmw':
                op, pv, ty, v = a
                p = opd(pv, ir.PTR)
                w = ty[1]
                emit('p=%s;old=m.loadi(p,%d);nv=%s' % (p, w, opd(v, ty)))
                e = {'add': '(old+nv)&%d' % ((1 << w) - 1), 'sub': '(old-nv)&%d' % ((1 << w) - 1), 'xchg': 'nv'}[op]
                emit('m.storei(p,%d,%s)' % (w, e))
                if I.dst is not None:
                    define(I, 'old')
            elif o == 'cmpxchg':
                pv, ty, c, nv = a
                w = 64 if ty[0] == 'ptr' else ty[1]
                emit('p=%s;old=m.loadi(p,%d);ok=1 if old==%s else 0' % (opd(pv, ir.PTR), w, opd(c, ty)))
                emit('if ok: m.storei(p,%d,%s)' % (w, opd(nv, ty)))
                if I.dst is not None:
                    define(I, '(old,ok)')
            else:
                raise Unsupported(o)
        if len(out) == 1:
            emit('pass')
        src.extend(out)
    g = dict(GENV)
    for i, c in enumerate(consts):
        g['K%d' % i] = c
    code = '\n'.join(src)
    exec(compile(code, f.name, 'exec'), g)
    bl = [g['b%d' % i] for i in range(len(blocks))]
    f.compiled = (bl, n)
    m.total_steps += sum(len(b[1]) for b in blocks)
    f.lines = None
    return f.compiled


def sdiv(a, b, w):
    a, b = sx(a, w), sx(b, w)
    if b == 0:
        raise MemError('integer division by zero')
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0):
        q = -q
    return q & ((1 << w) - 1)


def srem(a, b, w):
    a, b = sx(a, w), sx(b, w)
    r = abs(a) % abs(b)
    return (-r if a < 0 else r) & ((1 << w) - 1)


def insv(v, x, ixs):
    l = list(v)
    if len(ixs) == 1:
        l[ixs[0]] = x
    else:
        l[ixs[0]] = insv(l[ixs[0]], x, ixs[1:])
    return tuple(l)


def shuf(a, b, mask):
    n = len(a)
    c = tuple(a) + tuple(b)
    return tuple(UNDEF if k is UNDEF else c[k] for k in mask)


GENV = dict(UNDEF=UNDEF, f2=r_f2, fneg=r_fneg, r_and=r_and, r_or=r_or, r_xor=r_xor, r_shl=r_shl, r_lshr=r_lshr, sx=sx,
            sdiv=sdiv, srem=srem, M64=M64, Unsupported=Unsupported, PathEnd=PathEnd, r_icmp=r_icmp, r_fcmp=r_fcmp,
            r_trunc=r_trunc, r_zext=r_zext, r_sext=r_sext, r_bitcast=r_bitcast, r_si2fp=r_si2fp, r_fp2i=r_fp2i,
            r_fptrunc=r_fptrunc, r_fpext=r_fpext, insv=insv, shuf=shuf)


# ---------------------------------------------------------------------- path exploration
class Path:
    __slots__ = ('conds', 'outs', 'end', 'info', 'nodes')

    def __init__(self, conds, outs, end, info=''):
        self.conds = conds
        self.outs = outs
        self.end = end
        self.info = info


def explore(mod_or_machine, fname, n_in, n_out, in_nodes=None, feasible=None, max_paths=256, elem=8, prologue=None):
    """Runs h(const double* in, double* out) over all decision strings.

    Returns list of Path; outs[i] is a Node, UNDEF, or None if never written."""
    m = mod_or_machine
    work = [[]]
    res = []
    truncated = False
    while work:
        if len(res) >= max_paths:
            truncated = True
            break
        dec = work.pop()
        m.reset(dec)
        m.feasible = feasible
        ip = m.new_obj(max(1, n_in) * 8, 'input', 'harness input')
        op = m.new_obj(max(1, n_out) * 8, 'output', 'harness output')
        nodes = in_nodes or [dag.var('in%d' % i) for i in range(n_in)]
        for i in range(n_in):
            m.store_raw(ip + 8 * i, 8, nodes[i])
        m.objs[ip >> 32].ro = True
        end, info = 'ret', ''
        try:
            m.call('@' + fname, [ip, op])
            if m.leaks:
                left = [o.size for o in m.objs.values() if o.kind == 'heap' and o.alive]
                if left:
                    raise MemError('never freed: %d heap objects of %d bytes' % (len(left), sum(left)))
        except MemError as e:
            end, info = 'memerror', str(e)
            if os.environ.get('VERIF_TRACE'):
                tb = e.__traceback__
                while tb:
                    print('   ', tb.tb_frame.f_code.co_name, tb.tb_lineno, *([tb.tb_frame.f_locals.get('name')] if tb.tb_frame.f_code.co_name == 'call' else []))
                    tb = tb.tb_next
        except PathEnd as e:
            end, info = e.kind, e.info
        except Infeasible:
            end = 'infeasible'
        oc = m.objs[op >> 32].cells
        outs = []
        for i in range(n_out):
            c = oc.get(8 * i)
            if c is None or c[0] != 8:
                try:
                    v = m._load_slow(m.objs[op >> 32], 8 * i, 8)
                except Exception:
                    v = UNDEF
            else:
                v = c[1]
            if v.__class__ is int:
                v = bits2const(v, 8)
            outs.append(v)
        work.extend(m.pending)
        if end != 'infeasible':
            res.append(Path(list(m.path), outs, end, info))
    return res, truncated
