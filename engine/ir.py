"""Parser for the subset of textual LLVM IR (LLVM 18) that clang emits for the harnesses."""
import re, struct

TOK = re.compile(r'''
  (?P<cstr>c"(?:[^"\\]|\\.)*")
 |(?P<lid>%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
 |(?P<gid>@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
 |(?P<num>-?\d+\.\d*(?:e[+-]?\d+)?|0x[HKLM]?[0-9A-Fa-f]+|-?\d+(?![\w.]))
 |(?P<attr>\#\d+)
 |(?P<meta>!(?:"[^"]*"|[\w.]+)?)
 |(?P<str>"(?:[^"\\]|\\.)*")
 |(?P<word>[A-Za-z_$.][-\w.$]*)
 |(?P<punct>\.\.\.|[()\[\]{}<>,=*:])
 |(?P<ws>\s+)
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise SyntaxError('tokenize: %r' % s[pos:pos + 60])
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
        pos = m.end()
    return out


I1 = ('i', 1)
I8 = ('i', 8)
I32 = ('i', 32)
I64 = ('i', 64)
F64 = ('f', 64)
F32 = ('f', 32)
PTR = ('ptr',)
VOID = ('void',)

PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext', 'zeroext',
               'inreg', 'returned', 'immarg', 'nest', 'swiftself', 'nofree', 'allocptr', 'dead_on_unwind', 'writable',
               'noext', 'allocalign', 'swifterror', 'inrange', 'nocallback'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'preallocated',
                   'inalloca', 'range', 'memory', 'nofpclass', 'byref', 'captures'}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


class Func:
    __slots__ = ('name', 'params', 'ret', 'lines', 'blocks', 'compiled', 'varargs')


class Module:
    def __init__(self, text):
        self.types = {}
        self._lay = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self._parse(text)

    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f = self._header(l)
                f.lines = lines[i + 1:j]
                self.funcs[f.name] = f
                i = j
            elif l.startswith('declare'):
                f = self._header(l)
                self.decls[f.name] = f
            elif l.startswith('%'):
                k = l.index(' = type ')
                self.types[l[:k]] = l[k + 8:]
            elif l.startswith('@'):
                self._global(l)
            i += 1

    def _header(self, l):
        l = re.sub(r'\s+personality .*$', '', l.rstrip('{').rstrip())
        p = P(self, tokenize(l))
        p.next()
        # skip linkage etc. until a type parses
        f = Func()
        while True:
            k, t = p.peek()
            if k == 'word' and t in PARAM_ATTRS_ARG and p.toks[p.i + 1][1] == '(':
                p.next()
                p.skip_parens()
            elif k == 'word' and t == 'align':
                p.next(); p.next()
            elif k == 'word' and not re.match(r'^(i\d+|void|ptr|double|float|half|x86_fp80|metadata|fp128)$', t):
                p.next()
            else:
                break
        f.ret = p.type()
        f.name = p.next()[1]
        p.expect('(')
        f.params = []
        f.varargs = False
        while p.peek()[1] != ')':
            if p.peek()[1] == '...':
                p.next()
                f.varargs = True
            else:
                t = p.type()
                p.param_attrs()
                nm = None
                if p.peek()[0] == 'lid':
                    nm = p.next()[1]
                f.params.append((t, nm))
            if p.peek()[1] == ',':
                p.next()
        f.blocks = None
        f.compiled = None
        f.lines = None
        return f

    def _global(self, l):
        p = P(self, tokenize(re.sub(r', (?:comdat|align|section|!|partition|code_model|sanitize).*$', '', l)))
        name = p.next()[1]
        p.expect('=')
        ext = False
        while True:
            k, t = p.peek()
            if t in ('global', 'constant'):
                p.next()
                break
            if t == 'alias':
                p.next()
                p.type()
                p.expect(',')
                p.type()
                self.aliases[name] = p.next()[1]
                return
            if t == 'external':
                ext = True
            p.next()
            if p.peek()[1] == '(':
                p.skip_parens()
        ty = p.type()
        init = None
        if not p.end() and not ext:
            init = p.const(ty)
        self.globals[name] = (ty, init)

    # ---- types
    def resolve(self, t):
        while t[0] == 'named':
            s = self.types[t[1]]
            if isinstance(s, str):
                if s == 'opaque':
                    s = ('struct', (), False)
                else:
                    s = P(self, tokenize(s)).type()
                self.types[t[1]] = s
            t = s
        return t

    def sizeof(self, t):
        return self.layout(t)[0]

    def layout(self, t):
        """(alloc size, alignment)"""
        if t[0] == 'named':
            c = self._lay.get(t)
            if c is None:
                c = self.layout(self.resolve(t))
                self._lay[t] = c
            return c
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            s = 1
            while s < b:
                s *= 2
            return s, min(s, 16)
        if k == 'f':
            return {16: (2, 2), 32: (4, 4), 64: (8, 8), 80: (16, 16), 128: (16, 16)}[t[1]]
        if k == 'ptr':
            return 8, 8
        if k == 'arr':
            s, a = self.layout(t[2])
            return s * t[1], a
        if k == 'vec':
            s, a = self.layout(t[2])
            return s * t[1], s * t[1]
        if k == 'struct':
            return self.struct_offsets(t)[1:]
        raise ValueError(t)

    def struct_offsets(self, t):
        off = 0
        al = 1
        offs = []
        for e in t[1]:
            s, a = self.layout(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s
            al = max(al, a)
        off = (off + al - 1) // al * al
        return offs, off, al




class P:
    """Token-stream parser."""

    def __init__(self, mod, toks):
        self.m = mod
        self.toks = toks
        self.i = 0

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else ('eof', '')

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def end(self):
        return self.i >= len(self.toks)

    def expect(self, s):
        t = self.next()
        if t[1] != s:
            raise SyntaxError('expected %s got %s in %s' % (s, t, ' '.join(x[1] for x in self.toks)))

    def accept(self, s):
        if self.peek()[1] == s:
            self.i += 1
            return True
        return False

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            t = self.next()[1]
            if t == '(':
                d += 1
            elif t == ')':
                d -= 1

    def param_attrs(self):
        while True:
            k, t = self.peek()
            if k == 'word' and t in PARAM_ATTRS:
                self.next()
            elif k == 'word' and t in PARAM_ATTRS_ARG:
                self.next()
                if self.peek()[1] == '(':
                    self.skip_parens()
                else:
                    self.next()
            elif k == 'attr':
                self.next()
            elif k == 'str':
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return

    def type(self):
        k, t = self.next()
        if k == 'word':
            if t == 'ptr':
                r = PTR
                if self.peek()[1] == 'addrspace':
                    self.next()
                    self.skip_parens()
            elif t[0] == 'i' and t[1:].isdigit():
                r = ('i', int(t[1:]))
            elif t == 'double':
                r = F64
            elif t == 'float':
                r = F32
            elif t == 'half':
                r = ('f', 16)
            elif t == 'x86_fp80':
                r = ('f', 80)
            elif t == 'fp128':
                r = ('f', 128)
            elif t == 'void':
                r = VOID
            elif t in ('metadata', 'label', 'token'):
                r = (t,)
            else:
                raise SyntaxError('type: ' + t + ' in ' + ' '.join(x[1] for x in self.toks))
        elif k == 'lid':
            r = ('named', t)
        elif t == '{':
            es = []
            while self.peek()[1] != '}':
                es.append(self.type())
                self.accept(',')
            self.expect('}')
            r = ('struct', tuple(es), False)
        elif t == '<':
            if self.peek()[1] == '{':
                r = self.type()
                r = ('struct', r[1], True)
                self.expect('>')
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                r = ('vec', n, e)
        elif t == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = ('arr', n, e)
        else:
            raise SyntaxError('type: %s in %s' % (t, ' '.join(x[1] for x in self.toks)))
        # function type
        while self.peek()[1] == '(' and r[0] != 'fn' and self._fn_type_ahead():
            self.skip_parens()
            r = ('fn', r)
        return r

    def _fn_type_ahead(self):
        # only used right after 'call <ty>' with explicit signature
        return getattr(self, 'allow_fn', False)

    # ---- operands. Representation:
    # ('l', name) ('g', name) ('ci', int) ('cf', float) ('undef',) ('null',) ('zero', ty) ('agg', ty, [..]) ('ce', op, ...)
    def value(self, ty):
        k, t = self.peek()
        if k == 'lid':
            self.next()
            return ('l', t)
        return self.const(ty)

    def const(self, ty):
        k, t = self.next()
        if k == 'gid':
            return ('g', t)
        if k == 'num':
            rt = self.m.resolve(ty)
            if rt[0] == 'f':
                if t.startswith('0x'):
                    if t[2] in 'HKLM':
                        return ('cf', ('x87', t))
                    return ('cf', struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0])
                return ('cf', float(t))
            return ('ci', int(t))
        if k == 'cstr':
            b = bytearray()
            s = t[2:-1]
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i + 1] == '\\':
                        b.append(92)
                        i += 2
                        continue
                    b.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    b.append(ord(s[i]))
                    i += 1
            return ('str', bytes(b))
        if k == 'word':
            if t == 'true':
                return ('ci', 1)
            if t == 'false':
                return ('ci', 0)
            if t == 'null':
                return ('ci', 0)
            if t in ('undef', 'poison'):
                return ('undef',)
            if t == 'zeroinitializer':
                return ('zero', ty)
            if t in ('getelementptr',):
                while self.peek()[0] == 'word' and self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    self.next()
                self.expect('(')
                bt = self.type()
                self.expect(',')
                ops = []
                while True:
                    while self.peek()[1] == 'inrange':
                        self.next()
                    ot = self.type()
                    ops.append((ot, self.const(ot)))
                    if not self.accept(','):
                        break
                self.expect(')')
                return ('ce', 'gep', bt, ops)
            if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                ft = self.type()
                v = self.const(ft)
                self.expect('to')
                tt = self.type()
                self.expect(')')
                return ('ce', t, ft, v, tt)
            if t in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
                while self.peek()[0] == 'word':
                    self.next()
                self.expect('(')
                t1 = self.type()
                a = self.const(t1)
                self.expect(',')
                t2 = self.type()
                b = self.const(t2)
                self.expect(')')
                return ('ce', 'bin', t, t1, a, b)
            if t == 'icmp':
                pred = self.next()[1]
                self.expect('(')
                t1 = self.type()
                a = self.const(t1)
                self.expect(',')
                t2 = self.type()
                b = self.const(t2)
                self.expect(')')
                return ('ce', 'icmp', pred, t1, a, b)
            if t in ('dso_local_equivalent', 'no_cfi'):
                return self.const(ty)
        if t == '{' or t == '[' or t == '<':
            packed = False
            if t == '<' and self.peek()[1] == '{':
                self.next()
                packed = True
                t = '{'
            close = {'{': '}', '[': ']', '<': '>'}[t]
            es = []
            while self.peek()[1] != close:
                et = self.type()
                es.append((et, self.const(et)))
                self.accept(',')
            self.expect(close)
            if packed:
                self.expect('>')
            return ('agg', ty, es)
        raise SyntaxError('const: %s %s in %s' % (k, t, ' '.join(x[1] for x in self.toks)))

    def tv(self):
        ty = self.type()
        self.param_attrs()
        return ty, self.value(ty)


STRIP_META = re.compile(r'(?:, !\w[\w.]* !(?:\d+|DIExpression\(\)|\{[^}]*\}))+|, !\w+ !\d+')


class Instr:
    __slots__ = ('op', 'dst', 'a')

    def __init__(self, op, dst, a):
        self.op = op
        self.dst = dst
        self.a = a


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
         'bitcast', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'samesign'} | FMF


def parse_body(mod, f):
    """Returns list of (label, [Instr]) ; entry first."""
    joined = []
    for l in f.lines:
        if not l.strip() or l.startswith(';'):
            continue
        if (l.startswith('   ') or l.startswith('  ]')) and joined:
            joined[-1] += ' ' + l.strip()
        else:
            joined.append(l)
    blocks = []
    cur = None
    nparams = len(f.params)
    for l in joined:
        if not l.startswith(' '):
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):', l)
            if not m:
                raise SyntaxError(l)
            cur = ('%' + m.group(1), [])
            blocks.append(cur)
            continue
        if cur is None:
            # entry block is unnamed: its number is the count of unnamed params
            cnt = sum(1 for t, nm in f.params if nm is None or nm[1:].isdigit())
            cur = ('%' + str(cnt), [])
            blocks.append(cur)
        ins = parse_instr(mod, l)
        if ins is not None:
            cur[1].append(ins)
    return blocks


def parse_instr(mod, l):
    l = STRIP_META.sub('', l)
    if '#dbg_' in l:
        return None
    p = P(mod, tokenize(l))
    dst = None
    if p.peek()[0] == 'lid':
        dst = p.next()[1]
        p.expect('=')
    k, op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        k, op = p.next()
    if op in BINOPS:
        while p.peek()[1] in FLAGS:
            p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Instr('bin', dst, (op, ty, a, b))
    if op == 'fneg':
        while p.peek()[1] in FLAGS:
            p.next()
        ty = p.type()
        return Instr('fneg', dst, (ty, p.value(ty)))
    if op in CASTS:
        while p.peek()[1] in FLAGS:
            p.next()
        ft = p.type()
        v = p.value(ft)
        p.expect('to')
        tt = p.type()
        return Instr('cast', dst, (op, ft, v, tt))
    if op == 'load':
        while p.peek()[1] in ('volatile', 'atomic'):
            p.next()
        ty = p.type()
        p.expect(',')
        pt, pv = p.tv()
        return Instr('load', dst, (ty, pv))
    if op == 'store':
        while p.peek()[1] in ('volatile', 'atomic'):
            p.next()
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        pt, pv = p.tv()
        return Instr('store', None, (ty, v, pv))
    if op == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
            p.next()
        bt = p.type()
        p.expect(',')
        pt, pv = p.tv()
        idx = []
        while p.accept(','):
            if p.peek()[1].startswith('!'):
                break
            idx.append(p.tv())
        return Instr('gep', dst, (bt, pt, pv, idx))
    if op == 'alloca':
        if p.peek()[1] == 'inalloca':
            p.next()
        ty = p.type()
        n = ('ci', 1)
        if p.accept(','):
            if p.peek()[1] != 'align':
                nt, n = p.tv()
        return Instr('alloca', dst, (ty, n))
    if op in ('call', 'invoke'):
        return parse_call(p, op, dst)
    if op == 'br':
        if p.peek()[1] == 'label':
            p.next()
            return Instr('br', None, (p.next()[1],))
        ty = p.type()
        c = p.value(ty)
        p.expect(',')
        p.expect('label')
        a = p.next()[1]
        p.expect(',')
        p.expect('label')
        b = p.next()[1]
        return Instr('cbr', None, (c, a, b))
    if op == 'switch':
        ty, v = p.tv()
        p.expect(',')
        p.expect('label')
        d = p.next()[1]
        p.expect('[')
        cases = []
        while p.peek()[1] != ']':
            ct = p.type()
            cv = p.const(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], p.next()[1]))
        return Instr('switch', None, (ty, v, d, cases))
    if op == 'ret':
        ty = p.type()
        if ty == VOID:
            return Instr('ret', None, (None, None))
        return Instr('ret', None, (ty, p.value(ty)))
    if op == 'unreachable':
        return Instr('unreachable', None, ())
    if op == 'phi':
        while p.peek()[1] in FLAGS:
            p.next()
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(ty)
            p.expect(',')
            inc.append((v, p.next()[1]))
            p.expect(']')
            if not p.accept(','):
                break
        return Instr('phi', dst, (ty, inc))
    if op == 'select':
        while p.peek()[1] in FLAGS:
            p.next()
        ct, c = p.tv()
        p.expect(',')
        at, a = p.tv()
        p.expect(',')
        bt, b = p.tv()
        return Instr('select', dst, (ct, c, at, a, b))
    if op in ('icmp', 'fcmp'):
        while p.peek()[1] in FLAGS:
            p.next()
        pred = p.next()[1]
        if pred in FLAGS:
            pred = p.next()[1]
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Instr(op, dst, (pred, ty, a, b))
    if op == 'extractvalue':
        ty, v = p.tv()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        return Instr('extractvalue', dst, (ty, v, idx))
    if op == 'insertvalue':
        ty, v = p.tv()
        p.expect(',')
        et, ev = p.tv()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        return Instr('insertvalue', dst, (ty, v, et, ev, idx))
    if op == 'extractelement':
        ty, v = p.tv()
        p.expect(',')
        it, iv = p.tv()
        return Instr('extractelement', dst, (ty, v, iv))
    if op == 'insertelement':
        ty, v = p.tv()
        p.expect(',')
        et, ev = p.tv()
        p.expect(',')
        it, iv = p.tv()
        return Instr('insertelement', dst, (ty, v, ev, iv))
    if op == 'shufflevector':
        ty, a = p.tv()
        p.expect(',')
        ty2, b = p.tv()
        p.expect(',')
        mt, mv = p.tv()
        return Instr('shufflevector', dst, (ty, a, b, mt, mv))
    if op == 'freeze':
        ty, v = p.tv()
        return Instr('freeze', dst, (ty, v))
    if op in ('landingpad', 'resume', 'cleanuppad', 'catchpad'):
        return Instr('eh', dst, (op,))
    if op == 'fence':
        return None
    if op == 'atomicrmw':
        if p.peek()[1] == 'volatile':
            p.next()
        o = p.next()[1]
        pt, pv = p.tv()
        p.expect(',')
        ty, v = p.tv()
        return Instr('atomicrmw', dst, (o, pv, ty, v))
    if op == 'cmpxchg':
        while p.peek()[1] in ('weak', 'volatile'):
            p.next()
        pt, pv = p.tv()
        p.expect(',')
        ty, c = p.tv()
        p.expect(',')
        ty, nv = p.tv()
        return Instr('cmpxchg', dst, (pv, ty, c, nv))
    raise SyntaxError('instr: ' + l)


def parse_call(p, op, dst):
    while True:
        k, t = p.peek()
        if t in FMF or t in ('fastcc', 'ccc', 'coldcc'):
            p.next()
        else:
            break
    p.param_attrs()
    ty = p.type()
    # explicit function signature?
    if p.peek()[1] == '(':
        p.skip_parens()
    callee = p.next()
    if callee[0] == 'lid':
        cv = ('l', callee[1])
    elif callee[0] == 'gid':
        cv = ('g', callee[1])
    else:
        raise SyntaxError('callee %s' % (callee,))
    p.expect('(')
    args = []
    while p.peek()[1] != ')':
        at = p.type()
        if at[0] == 'metadata':
            d = 0
            while not (d == 0 and p.peek()[1] in (',', ')')):
                t = p.next()[1]
                if t in '([{':
                    d += 1
                elif t in ')]}':
                    d -= 1
            args.append((at, ('ci', 0)))
        else:
            byval = None
            save = p.i
            # detect byval
            j = p.i
            while j < len(p.toks) and p.toks[j][1] not in (',', ')') and p.toks[j][0] == 'word':
                if p.toks[j][1] == 'byval':
                    p.i = j + 2
                    byval = p.type()
                    break
                j += 1
            p.i = save
            p.param_attrs()
            v = p.value(at)
            if byval is not None:
                v = ('byval', byval, v)
            args.append((at, v))
        p.accept(',')
    p.expect(')')
    normal = None
    if op == 'invoke':
        while p.peek()[1] != 'to':
            p.next()
        p.next()
        p.expect('label')
        normal = p.next()[1]
    return Instr('call', dst, (ty, cv, args, normal))
