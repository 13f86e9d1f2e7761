"""Symbolic interpreter for the LLVM IR clang emits at -O0 for the C subset (the reference semantics)."""
import re
import subprocess
import z3
from .sym import *

GBASE = 0x20000000
FBASE = 0x10000000
SBASE = 0x40000000
SSIZE = 0x00400000


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class T:
    pass


def align_up(n, a):
    return (n + a - 1) // a * a


class Int(T):
    def __init__(self, b):
        self.b = b
        self.size = 1 if b <= 8 else b // 8
        self.align = min(self.size, 8)


class Ptr(T):
    size = align = 4
    b = 32


class Arr(T):
    def __init__(self, n, e):
        self.n, self.e = n, e
        self.size, self.align = n * e.size, e.align


class Struct(T):
    def __init__(self, fs):
        self.fs = fs
        o, al = 0, 1
        self.off = []
        for f in fs:
            o = align_up(o, f.align)
            self.off.append(o)
            o += f.size
            al = max(al, f.align)
        self.size, self.align = align_up(o, al), al


PTR = Ptr()
INTS = {}


def int_t(b):
    if b not in INTS:
        INTS[b] = Int(b)
    return INTS[b]


TOK = re.compile(r'c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|[@%][-\w.$]+|[@%]"[^"]*"|\.\.\.|[-\w.$]+|[(){}\[\]<>,=*!#:|]')


class Parser:
    def __init__(self, text, types):
        self.t = TOK.findall(text)
        self.i = 0
        self.types = types

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise IRError('expected %s got %s in %s' % (x, y, ' '.join(self.t)))

    def type(self):
        x = self.next()
        if x == 'void':
            t = None
        elif x == 'ptr':
            t = PTR
        elif x[0] == 'i' and x[1:].isdigit():
            t = int_t(int(x[1:]))
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = Arr(n, e)
        elif x == '{':
            fs = []
            while not self.accept('}'):
                fs.append(self.type())
                self.accept(',')
            t = Struct(fs)
        elif x[0] == '%':
            t = self.types[x]
            if callable(t):
                t = self.types[x] = t()
        else:
            raise IRError('type? ' + x + ' in ' + ' '.join(self.t))
        if self.peek() == '(':           # function type: skip
            d = 0
            while True:
                y = self.next()
                d += (y == '(') - (y == ')')
                if d == 0:
                    break
        return t

    ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'nocapture', 'readonly', 'writeonly',
             'immarg', 'noalias', 'returned'}

    def attrs(self):
        while True:
            if self.peek() in self.ATTRS:
                self.i += 1
            elif self.peek() == 'align' and self.peek(1).isdigit():
                self.i += 2
            elif self.peek() in ('dereferenceable', 'sret', 'byval', 'range'):
                self.i += 1
                d = 0
                while True:
                    y = self.next()
                    d += (y == '(') - (y == ')')
                    if d == 0:
                        break
            else:
                return

    def value(self, ty):
        """-> ('k', int) | ('r', name) | ('g', name, offset) | aggregate"""
        x = self.next()
        if x[0] == '%':
            return ('r', x)
        if x[0] == '@':
            return ('g', x, 0)
        if re.fullmatch(r'-?\d+', x):
            return ('k', int(x) & ((1 << ty.b) - 1))
        if x == 'true':
            return ('k', 1)
        if x == 'poison':
            return ('poison',)
        if x in ('false', 'null', 'undef', 'poison', 'zeroinitializer'):
            return ('k', 0) if isinstance(ty, (Int, Ptr)) else ('z',)
        if x.startswith('c"'):
            s = x[2:-1]
            bs = re.sub(r'\\(\\|[0-9A-Fa-f]{2})',
                        lambda m: '\\' if m.group(1) == '\\' else chr(int(m.group(1), 16)), s)
            return ('agg', [('k', ord(c)) for c in bs])
        if x == '[':
            vs = []
            while not self.accept(']'):
                t = self.type()
                vs.append(self.value(t))
                self.accept(',')
            return ('agg', vs)
        if x == '{':
            vs = []
            while not self.accept('}'):
                t = self.type()
                vs.append(self.value(t))
                self.accept(',')
            return ('agg', vs)
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            self.type()
            b = self.value(PTR)
            off = 0
            first = True
            cur = bt
            while self.accept(','):
                it = self.type()
                iv = self.value(it)[1]
                iv = sx(iv, it.b)
                if first:
                    off += iv * cur.size
                    first = False
                elif isinstance(cur, Arr):
                    cur = cur.e
                    off += iv * cur.size
                else:
                    off += cur.off[iv]
                    cur = cur.fs[iv]
            self.expect(')')
            return ('g', b[1], b[2] + off)
        if x in ('ptrtoint', 'inttoptr', 'bitcast'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            self.type()
            self.expect(')')
            return v
        raise IRError('value? %s in %s' % (x, ' '.join(self.t)))


class Fn:
    def __init__(self, name, params):
        self.name, self.params = name, params
        self.blocks = {}
        self.order = []


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.fns = {}
        self.parse(text)

    def parse(self, text):
        lines = text.split('\n')
        for ln in lines:
            m = re.match(r'(%[-\w.$]+) = type (.*)$', ln)
            if m:
                body = m.group(2)
                self.types[m.group(1)] = (lambda b=body: Parser(b, self.types).type())
        addr = GBASE
        inits = []
        cur = blk = None
        multi = None
        for ln in lines:
            ln = ln.rstrip()
            if ln.startswith('@'):
                p = Parser(ln, self.types)
                name = p.next()
                p.expect('=')
                ext = False
                while p.peek() not in ('global', 'constant'):
                    if p.next() == 'external':
                        ext = True
                p.next()
                ty = p.type()
                init = ('z',) if ext else p.value(ty)
                addr = align_up(addr, max(4, ty.align))
                self.globals[name] = addr
                inits.append((addr, ty, init))
                addr += ty.size + 4
            elif ln.startswith('define'):
                m = re.match(r'define .*?(@[-\w.$]+)\((.*?)\)( local_unnamed_addr)?( #\d+)? *\{', ln)
                ps = Parser(m.group(2), self.types)
                names = []
                while ps.peek():
                    t = ps.type()
                    ps.attrs()
                    names.append(ps.next())
                    ps.accept(',')
                cur = Fn(m.group(1), names)
                self.fns[m.group(1)] = cur
                blk = '%' + str(len(names)) if all(n[1:].isdigit() for n in names) else '%entry'
                cur.entry = blk
                cur.blocks[blk] = []
            elif ln == '}':
                cur = None
            elif cur is not None:
                s = ln.strip()
                if not s:
                    continue
                m = re.match(r'([-\w.$]+):', ln)
                if m:
                    blk = '%' + m.group(1)
                    cur.blocks[blk] = []
                    continue
                if multi is not None:
                    multi += ' ' + s
                    if s == ']':
                        cur.blocks[blk].append(self.insn(multi))
                        multi = None
                    continue
                if s.startswith('switch') and s.endswith('['):
                    multi = s
                    continue
                cur.blocks[blk].append(self.insn(s))
        self.gend = addr
        self.faddr = {}
        self.fby = {}
        for i, n in enumerate(self.fns):
            self.faddr[n] = FBASE + 16 * i
            self.fby[FBASE + 16 * i] = n
        self.inits = inits

    def insn(self, s):
        s = re.sub(r', ![\w.]+ ![\w.]+', '', s)
        s = re.sub(r'#\d+$', '', s)
        p = Parser(s, self.types)
        dst = None
        if p.peek()[0] == '%' and p.peek(1) == '=':
            dst = p.next()
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op == 'alloca':
            t = p.type()
            n = 1
            if p.accept(',') and p.peek() != 'align':
                p.type()
                n = p.value(int_t(32))[1]
            return ('alloca', dst, t.size * n, t.align)
        if op == 'load':
            t = p.type()
            p.expect(',')
            p.type()
            return ('load', dst, t, p.value(PTR))
        if op == 'store':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.type()
            return ('store', t, v, p.value(PTR))
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
                p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            return ('bin', dst, op, t, a, p.value(t))
        if op == 'icmp':
            pr = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            return ('icmp', dst, pr, t, a, p.value(t))
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.type()
            v = p.value(t)
            p.expect('to')
            return ('cast', dst, op, t, v, p.type())
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            bt = p.type()
            p.expect(',')
            p.type()
            b = p.value(PTR)
            idx = []
            while p.accept(','):
                it = p.type()
                idx.append((it, p.value(it)))
            return ('gep', dst, bt, b, idx)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return ('jmp', p.next())
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.next()
            a = p.next()
            p.expect(',')
            p.next()
            return ('br', c, a, p.next())
        if op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.next()
            d = p.next()
            p.expect('[')
            cases = []
            while not p.accept(']'):
                p.type()
                k = p.value(t)[1]
                p.expect(',')
                p.next()
                cases.append((k, p.next()))
            return ('switch', t, v, d, cases)
        if op == 'ret':
            t = p.type()
            return ('ret', None if t is None else p.value(t))
        if op == 'phi':
            t = p.type()
            vs = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                vs.append((v, p.next()))
                p.expect(']')
                if not p.accept(','):
                    break
            return ('phi', dst, t, dict((b, v) for v, b in vs))
        if op == 'select':
            t = p.type()
            c = p.value(t)
            p.expect(',')
            t = p.type()
            a = p.value(t)
            p.expect(',')
            p.type()
            return ('select', dst, t, c, a, p.value(t))
        if op == 'call':
            p.attrs()
            t = p.type()
            callee = p.value(PTR)
            p.expect('(')
            args = []
            while not p.accept(')'):
                at = p.type()
                p.attrs()
                args.append((at, p.value(at)))
                p.accept(',')
            return ('call', dst, t, callee, args)
        if op == 'unreachable':
            return ('unreachable',)
        raise IRError('instruction? ' + s)


def compile_ir(src_path, arch, extra=()):
    tgt = {'arm': 'armv7-linux-gnueabihf', 'riscv': 'riscv32-unknown-linux-gnu'}[arch]
    ch = '-funsigned-char' if arch == 'arm' else '-fsigned-char'
    r = subprocess.run(['clang', '-target', tgt, '-std=gnu99', '-Wno-implicit-function-declaration', '-Wno-implicit-int', '-Wno-int-conversion', '-Wno-incompatible-function-pointer-types', '-O0', '-fno-stack-protector', '-fwrapv', ch, '-w', '-ffreestanding',
                        '-fno-builtin', '-S', '-emit-llvm', '-o', '-', *extra, src_path],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise IRError(r.stderr)
    return Module(r.stdout)


class Frame:
    __slots__ = ('fn', 'blk', 'prev', 'i', 'regs', 'dst', 'sp')

    def clone(self):
        f = Frame()
        f.fn, f.blk, f.prev, f.i, f.regs, f.dst, f.sp = self.fn, self.blk, self.prev, self.i, dict(self.regs), self.dst, self.sp
        return f


def b2v(c):
    """i1 values are kept as python bool / z3 Bool"""
    return c


class UMem(Mem):
    """memory of the reference: reading a byte of an automatic object never written is undefined"""
    __slots__ = ('un',)

    def __init__(self, regions, w=None, un=None):
        Mem.__init__(self, regions, w)
        self.un = set() if un is None else un

    def clone(self):
        return UMem(self.regions, dict(self.w), set(self.un))

    def lw(self, a):
        un = self.un
        if un and (a in un or a + 1 in un or a + 2 in un or a + 3 in un):
            raise UB()
        return Mem.lw(self, a)

    def lb(self, a):
        if a in self.un:
            raise UB()
        return Mem.lb(self, a)

    def sw(self, a, v):
        if self.un:
            self.un.difference_update((a, a + 1, a + 2, a + 3))
        Mem.sw(self, a, v)

    def sb(self, a, v):
        if self.un:
            self.un.discard(a)
        Mem.sb(self, a, v)


class IRMachine:
    SYSNO = {3: 'read', 63: 'read', 4: 'write', 64: 'write', 1: 'exit', 93: 'exit', 248: 'exit', 94: 'exit'}

    def __init__(self, mod, argv=(b'prog',), entry='@main', args=None):
        self.mod = mod
        self.mem = UMem([(GBASE, mod.gend + 64), (SBASE - SSIZE, SBASE)])
        self.inpos = 0
        self.out = []
        self.exit = None
        self.steps = 0
        for a, ty, init in mod.inits:
            self.init(a, ty, init)
        p = SBASE - 4096
        av = []
        for a in argv:
            av.append(p)
            for i, c in enumerate(a + b'\0'):
                self.mem.sb(p + i, c)
            p += (len(a) + 4) & ~3
        base = SBASE - 8192
        for i, q in enumerate(av):
            self.mem.sw(base + 4 * i, q)
        self.sp = base
        self.frames = []
        fn = mod.fns[entry]
        self.push(fn, [len(argv), base][:len(fn.params)] if args is None else args, None)

    def init(self, a, ty, v):
        if v[0] == 'z':
            return
        if isinstance(ty, Arr):
            for i, e in enumerate(v[1]):
                self.init(a + i * ty.e.size, ty.e, e)
        elif isinstance(ty, Struct):
            for i, e in enumerate(v[1]):
                self.init(a + ty.off[i], ty.fs[i], e)
        else:
            x = self.const(v)
            if ty.size == 1:
                self.mem.sb(a, x & 0xFF)
            elif ty.size == 2:
                self.mem.sb(a, x & 0xFF)
                self.mem.sb(a + 1, x >> 8 & 0xFF)
            else:
                self.mem.sw(a, x & M32)

    def const(self, v):
        if v[0] == 'k':
            return v[1]
        if v[0] == 'g':
            n = v[1]
            b = self.mod.globals.get(n)
            if b is None:
                b = self.mod.faddr[n]
            return (b + v[2]) & M32
        if v[0] == 'poison':
            raise UB()
        raise IRError('const ' + repr(v))

    def clone(self):
        o = object.__new__(IRMachine)
        o.__dict__.update(self.__dict__)
        o.mem = self.mem.clone()
        o.out = list(self.out)
        o.frames = self.frames[:-1] + [self.frames[-1].clone()]
        # deeper frames are only mutated when they become the top again
        o.frames = [f.clone() for f in self.frames]
        return o

    def push(self, fn, args, dst):
        f = Frame()
        f.fn, f.blk, f.prev, f.i, f.regs, f.dst, f.sp = fn, fn.entry, None, 0, {}, dst, self.sp
        for n, v in zip(fn.params, args):
            f.regs[n] = v
        self.frames.append(f)
        if len(self.frames) > 300:
            raise Fault('call depth')

    def val(self, f, v, ty=None):
        if v[0] == 'r':
            return f.regs[v[1]]
        x = self.const(v)
        if ty is not None and ty is not PTR and ty.b == 1:
            return bool(x)
        return x

    def run(self, eng):
        while self.exit is None:
            self.steps += 1
            if self.steps > eng.max_steps:
                raise Fault('reference step bound')
            self.step(eng)

    # values narrower than 32 bits (i8, i16) are kept zero-extended in 32-bit words
    def mask(self, v, b):
        if b >= 32:
            return v
        if b == 1:
            return v
        m = (1 << b) - 1
        return v & m if isc(v) else and_(v, m)

    def sext(self, v, b):
        if b == 32:
            return v
        if isc(v):
            return sx(v, b) & M32
        return z3.SignExt(32 - b, z3.Extract(b - 1, 0, v))

    def goto(self, f, b):
        f.prev, f.blk, f.i = f.blk, b, 0
        # phis are evaluated in parallel
        ins = f.fn.blocks[b]
        vals = []
        k = 0
        while k < len(ins) and ins[k][0] == 'phi':
            _, dst, t, m = ins[k]
            vals.append((dst, self.val(f, m[f.prev], t)))
            k += 1
        for d, v in vals:
            f.regs[d] = v
        f.i = k

    def load(self, a, t):
        if t.size == 4:
            return self.mem.lw(a)
        if t.size == 1:
            v = zext8(self.mem.lb(a))
            if t.b == 1:
                return eq(and_(v, 1), 1)
            return v
        if t.size == 2:
            return or_(zext8(self.mem.lb(a)), shl(zext8(self.mem.lb(a + 1)), 8))
        raise IRError('load size')

    def store(self, a, t, v):
        if t.size == 4:
            self.mem.sw(a, v)
        elif t.size == 1:
            if t.b == 1:
                v = ite(v, 1, 0)
            self.mem.sb(a, lo8(v))
        elif t.size == 2:
            self.mem.sb(a, lo8(v))
            self.mem.sb(a + 1, byte_of(v, 1))
        else:
            raise IRError('store size')

    def step(self, eng):
        f = self.frames[-1]
        ins = f.fn.blocks[f.blk][f.i]
        op = ins[0]
        R = f.regs
        if op == 'load':
            a = eng.conc(self.val(f, ins[3]))
            R[ins[1]] = self.load(a, ins[2])
        elif op == 'store':
            a = eng.conc(self.val(f, ins[3]))
            self.store(a, ins[1], self.val(f, ins[2], ins[1]))
        elif op == 'alloca':
            sz = align_up(max(ins[2], 1), 4)
            self.sp = (self.sp - sz - 4) & ~3
            R[ins[1]] = self.sp
            self.mem.un.update(range(self.sp, self.sp + min(ins[2], 8192)))
        elif op == 'bin':
            _, dst, o, t, va, vb = ins
            a, b = self.val(f, va, t), self.val(f, vb, t)
            n = t.b
            if n == 1:
                if o == 'xor':
                    r = (a != b) if isinstance(a, bool) and isinstance(b, bool) else z3.Xor(
                        z3.BoolVal(a) if isinstance(a, bool) else a, z3.BoolVal(b) if isinstance(b, bool) else b)
                elif o == 'and':
                    r = andb(a, b)
                elif o == 'or':
                    r = orb(a, b)
                else:
                    raise IRError('i1 ' + o)
            else:
                if o == 'add':
                    r = add(a, b)
                elif o == 'sub':
                    r = sub(a, b)
                elif o == 'mul':
                    r = mul(a, b)
                elif o in ('sdiv', 'srem'):
                    a, b = self.sext(a, n), self.sext(b, n)
                    eng.assume(not_(eq(b, 0)))
                    eng.assume(not_(andb(eq(a, 0x80000000), eq(b, M32))))
                    r = sdiv(a, b) if o == 'sdiv' else srem(a, b)
                elif o in ('udiv', 'urem'):
                    eng.assume(not_(eq(b, 0)))
                    if isinstance(a, int) and isinstance(b, int):
                        r = a // b if o == 'udiv' else a % b
                    else:
                        r = (z3.UDiv if o == 'udiv' else z3.URem)(bv(a), bv(b))
                elif o == 'shl':
                    eng.assume(ult(b, n))
                    r = shl(a, b)
                elif o == 'ashr':
                    eng.assume(ult(b, n))
                    r = ashr(self.sext(a, n), b)
                elif o == 'lshr':
                    eng.assume(ult(b, n))
                    r = lshr(a, b)
                elif o == 'and':
                    r = and_(a, b)
                elif o == 'or':
                    r = or_(a, b)
                elif o == 'xor':
                    r = xor(a, b)
                else:
                    raise IRError(o)
                r = self.mask(r, n)
            R[dst] = r
        elif op == 'icmp':
            _, dst, pr, t, va, vb = ins
            a, b = self.val(f, va, t), self.val(f, vb, t)
            if t is not PTR and t.b == 1:
                e = (a == b) if isinstance(a, bool) and isinstance(b, bool) else \
                    ((z3.BoolVal(a) if isinstance(a, bool) else a) == (z3.BoolVal(b) if isinstance(b, bool) else b))
                R[dst] = e if pr == 'eq' else not_(e)
            else:
                if pr[0] == 's':
                    a, b = self.sext(a, t.b), self.sext(b, t.b)
                R[dst] = {'eq': lambda: eq(a, b), 'ne': lambda: not_(eq(a, b)),
                          'slt': lambda: slt(a, b), 'sge': lambda: not_(slt(a, b)),
                          'sgt': lambda: slt(b, a), 'sle': lambda: not_(slt(b, a)),
                          'ult': lambda: ult(a, b), 'uge': lambda: not_(ult(a, b)),
                          'ugt': lambda: ult(b, a), 'ule': lambda: not_(ult(b, a))}[pr]()
        elif op == 'cast':
            _, dst, o, t, v, t2 = ins
            x = self.val(f, v, t)
            if o == 'zext':
                x = ite(x, 1, 0) if t.b == 1 else x
            elif o == 'sext':
                x = ite(x, M32, 0) if t.b == 1 else self.sext(x, t.b)
                x = self.mask(x, t2.b)
            elif o == 'trunc':
                x = eq(and_(x, 1), 1) if t2.b == 1 else self.mask(x, t2.b)
            R[dst] = x
        elif op == 'gep':
            _, dst, bt, b, idx = ins
            a = self.val(f, b)
            cur = bt
            for k, (it, iv) in enumerate(idx):
                x = self.val(f, iv, it)
                if it.b < 32:
                    x = self.sext(x, it.b)
                if k == 0:
                    a = add(a, mul(x, cur.size))
                elif isinstance(cur, Arr):
                    cur = cur.e
                    a = add(a, mul(x, cur.size))
                else:
                    a = add(a, cur.off[x])
                    cur = cur.fs[x]
            R[dst] = a
        elif op == 'jmp':
            self.goto(f, ins[1])
            return
        elif op == 'br':
            c = eng.decide(self.val(f, ins[1], int_t(1)))
            self.goto(f, ins[2] if c else ins[3])
            return
        elif op == 'switch':
            _, t, v, d, cases = ins
            x = self.val(f, v, t)
            for k, b in cases:
                if eng.decide(eq(x, k)):
                    self.goto(f, b)
                    return
            self.goto(f, d)
            return
        elif op == 'select':
            _, dst, t, c, a, b = ins
            c = self.val(f, c, int_t(1))
            R[dst] = ite(c, self.val(f, a, t), self.val(f, b, t))
        elif op == 'ret':
            v = None if ins[1] is None else self.val(f, ins[1])
            self.frames.pop()
            self.sp = f.sp
            if not self.frames:
                self.exit = 0 if v is None else v
                return
            g = self.frames[-1]
            if f.dst is not None:
                g.regs[f.dst] = 0 if v is None else v
            g.i += 1
            return
        elif op == 'call':
            _, dst, t, callee, args = ins
            av = [self.val(f, v, at) for at, v in args]
            if callee[0] == 'g':
                n = callee[1]
            else:
                a = eng.conc(self.val(f, callee))
                n = self.mod.fby.get(a)
                if n is None:
                    raise Fault('reference calls non-function')
            if n in self.mod.fns:
                self.push(self.mod.fns[n], av, dst)
                return
            r = self.external(eng, n, av)
            if self.exit is not None:
                return
            if dst is not None:
                R[dst] = r
        elif op == 'unreachable':
            raise Fault('reference reached unreachable')
        else:
            raise IRError(op)
        f.i += 1

    def external(self, eng, n, av):
        if n == '@__syscall':
            kind = self.SYSNO.get(eng.conc(av[0]))
            if kind == 'exit':
                self.exit = av[1]
                return 0
            fd, p, ln = eng.conc(av[1]), eng.conc(av[2]), eng.conc(av[3])
            if kind == 'read':
                bs = [z3.BitVec('in%d' % (self.inpos + i), 8) for i in range(ln)]
                for i in range(ln):
                    self.mem.sb(p + i, bs[i])
                if p & 3 == 0:
                    for k in range(0, ln - 3, 4):
                        self.mem.w[p + k] = z3.Concat(bs[k + 3], bs[k + 2], bs[k + 1], bs[k])
                self.inpos += ln
                return ln
            if kind == 'write':
                if fd == 1:
                    self.out += [self.mem.lb(p + i) for i in range(ln)]
                return ln
            return M32 - 37
        if n.startswith('@llvm.memcpy') or n.startswith('@llvm.memmove'):
            d, s, ln = eng.conc(av[0]), eng.conc(av[1]), eng.conc(av[2])
            un = self.mem.un
            if un and not un.isdisjoint(range(s, s + ln)):
                for k in range(ln):
                    if s + k in un:
                        un.add(d + k)
                    else:
                        self.mem.sb(d + k, self.mem.lb(s + k))
                return 0
            if (d | s) & 3 == 0:
                for k in range(0, ln & ~3, 4):
                    self.mem.sw(d + k, self.mem.lw(s + k))
                rest = range(ln & ~3, ln)
            else:
                rest = range(ln)
            for k in rest:
                self.mem.sb(d + k, self.mem.lb(s + k))
            return 0
        if n.startswith('@llvm.memset'):
            d, ln = eng.conc(av[0]), eng.conc(av[2])
            for k in range(ln):
                self.mem.sb(d + k, lo8(av[1]))
            return 0
        if n.startswith('@llvm.lifetime') or n.startswith('@llvm.dbg'):
            return 0
        raise IRError('external ' + n)
