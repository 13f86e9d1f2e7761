"""Symbolic ARMv7-A (A32 subset) and RV32IM machines over ELF images made by the compiler."""
import struct
import z3
from .sym import *

STACK_TOP = 0x7FFF0000
STACK_SIZE = 0x00400000


class Elf:
    def __init__(self, data):
        if data[:4] != b'\x7fELF':
            raise ValueError('not an ELF file')
        (self.machine,) = struct.unpack_from('<H', data, 18)
        self.entry, phoff = struct.unpack_from('<II', data, 24)
        phnum = struct.unpack_from('<H', data, 44)[0]
        phes = struct.unpack_from('<H', data, 42)[0]
        self.segs = []
        for i in range(phnum):
            t, off, va, pa, fsz, msz, fl, al = struct.unpack_from('<8I', data, phoff + i * phes)
            if t == 1:
                self.segs.append((va, msz, data[off:off + fsz]))


class Machine:
    NR = 16

    def __init__(self, elf, argv=(b'prog',), nin=64):
        self.r = [0] * self.NR
        regions = [(STACK_TOP - STACK_SIZE, STACK_TOP)]
        mem = Mem(regions)
        for va, msz, data in elf.segs:
            regions.append((va & ~0xFFF, (va + msz + 4095) & ~0xFFF))
            pad = va & 3
            buf = b'\0' * pad + data
            buf += b'\0' * (-len(buf) % 4)
            for i in range(0, len(buf), 4):
                mem.w[(va - pad) + i] = struct.unpack_from('<I', buf, i)[0]
        self.code_end = max(va + msz for va, msz, _ in elf.segs)
        self.mem = mem
        # initial stack: argc, argv..., 0, env 0, auxv 0
        p = STACK_TOP - 4096
        ptrs = []
        for a in argv:
            ptrs.append(p)
            for i, c in enumerate(a + b'\0'):
                mem.sb(p + i, c)
            p += (len(a) + 4) & ~3
        sp = STACK_TOP - 8192
        self.sp0 = sp
        mem.sw(sp, len(argv))
        for i, q in enumerate(ptrs):
            mem.sw(sp + 4 + 4 * i, q)
        self.pc = elf.entry
        self.set_sp(sp)
        self.brk = 0x60000000
        self.out = []          # bytes written to fd 1
        self.inpos = 0
        self.exit = None
        self.steps = 0
        self.decoded = {}

    def clone(self):
        o = object.__new__(type(self))
        o.__dict__.update(self.__dict__)
        o.r = list(self.r)
        o.mem = self.mem.clone()
        o.out = list(self.out)
        return o

    def input_byte(self, i):
        return z3.BitVec('in%d' % i, 8)

    def syscall(self, eng, kind, a):
        """a: three argument values; returns result"""
        if kind == 'exit':
            self.exit = a[0]
            return 0
        if kind == 'mmap':
            n = (eng.conc(a[1]) + 4095) & ~4095 & M32
            if not 0 < n <= 0x01000000:
                return M32 - 11                 # ENOMEM
            self.brk -= n                       # as Linux does, each mapping lies right below the one before
            self.mem.regions = self.mem.regions + [(self.brk, self.brk + n)]
            return self.brk
        if kind == 'munmap':
            lo, n = eng.conc(a[0]), eng.conc(a[1])
            hi = lo + ((n + 4095) & ~4095)
            if lo & 4095 or hi > 0x60000000 or lo < self.brk:
                raise Fault('munmap of memory that was not allocated (0x%x, %d)' % (lo, n))
            rs = []
            for l, h in self.mem.regions:
                if l >= 0x60000000 or h <= lo or l >= hi:
                    rs.append((l, h))
                else:
                    rs += [(x, y) for x, y in ((l, lo), (hi, h)) if x < y]
            self.mem.regions = rs
            return 0
        fd = eng.conc(a[0])
        p = eng.conc(a[1])
        n = eng.conc(a[2])
        if n > 65536:
            raise Fault('huge I/O length 0x%x' % n)
        if kind == 'read':
            if fd != 0:
                return M32 - 8
            for i in range(0, n):
                self.mem.sb(p + i, self.input_byte(self.inpos + i))
            if p & 3 == 0:
                # keep whole words atomic so that terms stay small
                for k in range(0, n - 3, 4):
                    self.mem.w[p + k] = self.input_word(self.inpos + k)
            self.inpos += n
            return n
        if kind == 'write':
            if fd == 1:
                self.out += [self.mem.lb(p + i) for i in range(n)]
            return n
        raise Fault('unexpected system call')

    def input_word(self, i):
        return z3.Concat(*[self.input_byte(i + k) for k in (3, 2, 1, 0)])

    def run(self, eng):
        st = eng.st
        while self.exit is None:
            st.steps += 1
            self.steps += 1
            if self.steps > eng.max_steps:
                raise Fault('step bound %d exceeded' % eng.max_steps)
            self.step(eng)


class InputWords:
    pass


class ArmMachine(Machine):
    NR = 16

    def __init__(self, *a, **k):
        self.flags = None
        super().__init__(*a, **k)

    def set_sp(self, v):
        self.r[13] = v

    def cond(self, c):
        if c == 14:
            return True
        if self.flags is None:
            raise Fault('conditional instruction without preceding compare')
        n, z, cf, v = self.flags
        base = c >> 1
        if base == 0:
            x = z()
        elif base == 1:
            x = cf()
        elif base == 2:
            x = n()
        elif base == 3:
            x = v()
        elif base == 4:
            x = andb(cf(), not_(z()))
        elif base == 5:
            x = self.flags_ge()
        elif base == 6:
            x = andb(not_(z()), self.flags_ge())
        else:
            raise Fault('bad condition')
        return not_(x) if c & 1 else x

    def flags_ge(self):
        n, z, cf, v = self.flags
        ge = getattr(n, 'ge', None)
        if ge is not None:
            return ge()
        a, b = n(), v()
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return z3.BoolVal(a) == b if isinstance(a, bool) else (a == (z3.BoolVal(b) if isinstance(b, bool) else b))

    def set_flags_sub(self, a, b):
        d = sub(a, b)

        def n():
            return slt(d, 0)
        n.ge = lambda: not_(slt(a, b))

        def v():
            # overflow of a-b
            x = and_(xor(a, b), xor(a, d))
            return slt(x, 0)
        self.flags = (n, lambda: eq(a, b), lambda: not_(ult(a, b)), v)

    def set_flags_logic(self, res, carry):
        old = self.flags

        def oldc():
            if old is None:
                return False
            return old[2]()

        def oldv():
            if old is None:
                return False
            return old[3]()
        self.flags = (lambda: slt(res, 0), lambda: eq(res, 0),
                      (lambda: carry) if carry is not None else oldc, oldv)

    def reg(self, i):
        return (self.pc + 8) & M32 if i == 15 else self.r[i]

    def step(self, eng):
        pc = self.pc
        if pc & 3:
            raise Fault('unaligned pc 0x%x' % pc)
        w = self.mem.lw(pc)
        if not isc(w):
            raise Fault('executing symbolic code at 0x%x' % pc)
        c = w >> 28
        if c == 15:
            raise Fault('unconditional-space instruction 0x%08x at 0x%x' % (w, pc))
        cd = self.cond(c)
        r = self.r
        # --- branches
        if (w >> 25) & 7 == 5:
            t = eng.decide(cd)
            if t:
                o = sx(w & 0xFFFFFF, 24) << 2
                if w >> 24 & 1:
                    r[14] = (pc + 4) & M32
                self.pc = (pc + 8 + o) & M32
            else:
                self.pc = pc + 4
            return
        if w & 0x0FFFFFD0 == 0x012FFF10:      # bx / blx reg
            if not eng.decide(cd):
                self.pc = pc + 4
                return
            t = eng.conc(self.reg(w & 15))
            if w & 0x20:
                r[14] = pc + 4
            self.pc = t
            return
        if (w >> 24) & 15 == 15:               # svc
            if not eng.decide(cd):
                self.pc = pc + 4
                return
            n = eng.conc(r[7])
            kind = {1: 'exit', 3: 'read', 4: 'write', 248: 'exit', 192: 'mmap', 91: 'munmap'}.get(n)
            if kind is None:
                r[0] = M32 - 37
            else:
                r[0] = self.syscall(eng, kind, r[0:3])
            self.pc = pc + 4
            return
        if w & 0x0FE000F0 == 0x00000090:       # mul
            rd, rs, rm = w >> 16 & 15, w >> 8 & 15, w & 15
            if w >> 20 & 1:
                raise Fault('muls unsupported')
            v = mul(self.reg(rm), self.reg(rs))
            r[rd] = ite(cd, v, r[rd])
            self.pc = pc + 4
            return
        if w & 0x0FF0F0F0 == 0x0710F010:       # sdiv
            rd, rm, rn = w >> 16 & 15, w >> 8 & 15, w & 15
            a, b = self.reg(rn), self.reg(rm)
            # a symbolic divisor: the quotient by zero is left open, C does not define it
            q = (0 if b == 0 else sdiv(a, b)) if isc(b) else sdiv(a, b)
            r[rd] = ite(cd, q, r[rd])
            self.pc = pc + 4
            return
        op27 = w >> 26 & 3
        if op27 == 0:
            if (not w >> 25 & 1) and (w >> 4 & 1) and (w >> 7 & 1):
                raise Fault('unsupported instruction 0x%08x at 0x%x' % (w, pc))
            opc = w >> 21 & 15
            S = w >> 20 & 1
            rn, rd = w >> 16 & 15, w >> 12 & 15
            if opc in (8, 9, 10, 11) and not S:
                if opc in (8, 10) and w >> 25 & 1:      # movw / movt
                    imm = (w >> 4 & 0xF000) | (w & 0xFFF)
                    if opc == 8:
                        v = imm
                    else:
                        v = or_(and_(r[rd], 0xFFFF), imm << 16)
                    r[rd] = ite(cd, v, r[rd])
                    self.pc = pc + 4
                    return
                raise Fault('unsupported instruction 0x%08x at 0x%x' % (w, pc))
            carry = None
            if w >> 25 & 1:
                imm, rot = w & 0xFF, (w >> 8 & 15) * 2
                op2 = ((imm >> rot) | (imm << (32 - rot))) & M32 if rot else imm
                if rot:
                    carry = bool(op2 >> 31)
            else:
                rm = self.reg(w & 15)
                sh = w >> 5 & 3
                if w >> 4 & 1:
                    am = and_(self.reg(w >> 8 & 15), 0xFF)
                    if sh == 0:
                        op2 = shl(rm, am)
                    elif sh == 1:
                        op2 = lshr(rm, am)
                    elif sh == 2:
                        op2 = ashr(rm, am)
                    else:
                        raise Fault('ror unsupported')
                    if S and opc in (0, 1, 8, 9, 12, 13, 14, 15):
                        raise Fault('flag-setting register shift unsupported')
                else:
                    am = w >> 7 & 31
                    if sh == 0:
                        op2 = shl(rm, am)
                        if am:
                            carry = eq(and_(lshr(rm, 32 - am), 1), 1)
                    elif sh == 1:
                        am = am or 32
                        op2 = lshr(rm, am)
                        carry = eq(and_(lshr(rm, am - 1), 1), 1)
                    elif sh == 2:
                        am = am or 32
                        op2 = ashr(rm, min(am, 31))
                        carry = eq(and_(lshr(rm, am - 1), 1), 1)
                    else:
                        raise Fault('ror unsupported')
            a = self.reg(rn)
            logic = opc in (0, 1, 8, 9, 12, 13, 14, 15)
            res = None
            if opc in (0, 8):
                res = and_(a, op2)
            elif opc in (1, 9):
                res = xor(a, op2)
            elif opc in (2, 10):
                res = sub(a, op2)
            elif opc == 3:
                res = sub(op2, a)
            elif opc == 4:
                res = add(a, op2)
            elif opc == 12:
                res = or_(a, op2)
            elif opc == 13:
                res = op2
            elif opc == 15:
                res = xor(op2, M32)
            elif opc == 14:
                res = and_(a, xor(op2, M32))
            else:
                raise Fault('unsupported data operation 0x%08x at 0x%x' % (w, pc))
            if S:
                if not eng.decide(cd):
                    self.pc = pc + 4
                    return
                cd = True
                if logic:
                    self.set_flags_logic(res, carry)
                elif opc in (2, 10):
                    self.set_flags_sub(a, op2)
                else:
                    raise Fault('unsupported flag-setting operation 0x%08x' % w)
            if opc not in (8, 9, 10, 11):
                if rd == 15:
                    if not eng.decide(cd):
                        self.pc = pc + 4
                        return
                    self.pc = eng.conc(res)
                    return
                r[rd] = ite(cd, res, r[rd])
            self.pc = pc + 4
            return
        if op27 == 1:
            if w >> 25 & 1 or not (w >> 24 & 1) or (w >> 21 & 1):
                raise Fault('unsupported load/store 0x%08x at 0x%x' % (w, pc))
            rn, rd = w >> 16 & 15, w >> 12 & 15
            off = w & 0xFFF
            if not eng.decide(cd):
                self.pc = pc + 4
                return
            # the sw(lr,sp,-4) prologue form is pre-indexed without writeback
            base = self.reg(rn)
            a = eng.conc(add(base, off if w >> 23 & 1 else (-off) & M32))
            if w >> 20 & 1:
                v = zext8(self.mem.lb(a)) if w >> 22 & 1 else self.mem.lw(a)
                if rd == 15:
                    raise Fault('load to pc')
                r[rd] = v
            else:
                v = self.reg(rd)
                if a < self.code_end and a >= 0x10000:
                    self.note_code_write(a)
                if w >> 22 & 1:
                    self.mem.sb(a, lo8(v))
                else:
                    self.mem.sw(a, v)
            self.pc = pc + 4
            return
        if op27 == 2 and not (w >> 25 & 1):     # ldm / stm
            if not eng.decide(cd):
                self.pc = pc + 4
                return
            rn, lst = w >> 16 & 15, w & 0xFFFF
            P, U, W, L = w >> 24 & 1, w >> 23 & 1, w >> 21 & 1, w >> 20 & 1
            base = eng.conc(r[rn])
            n = bin(lst).count('1')
            if w >> 22 & 1 or n == 0 or lst & 0x8000:
                raise Fault('unsupported block transfer 0x%08x' % w)
            start = base if U else base - 4 * n
            if P == U:
                start += 4
            a = start
            for i in range(15):
                if lst >> i & 1:
                    if L:
                        r[i] = self.mem.lw(a)
                    else:
                        self.mem.sw(a, r[i])
                    a += 4
            if W and not (L and lst >> rn & 1):
                r[rn] = (base + 4 * n if U else base - 4 * n) & M32
            self.pc = pc + 4
            return
        raise Fault('unsupported instruction 0x%08x at 0x%x' % (w, pc))

    def note_code_write(self, a):
        raise Fault('write into the program image at 0x%x' % a) if False else None


class RvMachine(Machine):
    NR = 32

    def set_sp(self, v):
        self.r[2] = v

    def step(self, eng):
        pc = self.pc
        if pc & 3:
            raise Fault('unaligned pc 0x%x' % pc)
        w = self.mem.lw(pc)
        if not isc(w):
            raise Fault('executing symbolic code at 0x%x' % pc)
        r = self.r
        op = w & 0x7F
        rd, f3, rs1, rs2, f7 = w >> 7 & 31, w >> 12 & 7, w >> 15 & 31, w >> 20 & 31, w >> 25
        nx = (pc + 4) & M32
        v = None
        if op == 0x13:
            a = r[rs1]
            imm = sx(w >> 20, 12) & M32
            if f3 == 0:
                v = add(a, imm)
            elif f3 == 4:
                v = xor(a, imm)
            elif f3 == 6:
                v = or_(a, imm)
            elif f3 == 7:
                v = and_(a, imm)
            elif f3 == 1 and f7 == 0:
                v = shl(a, rs2)
            elif f3 == 5 and f7 == 0:
                v = lshr(a, rs2)
            elif f3 == 5 and f7 == 0x20:
                v = ashr(a, rs2)
            elif f3 == 2:
                v = ite(slt(a, imm), 1, 0)
            elif f3 == 3:
                v = ite(ult(a, imm), 1, 0)
        elif op == 0x33:
            a, b = r[rs1], r[rs2]
            k = (f7, f3)
            if k == (0, 0):
                v = add(a, b)
            elif k == (0x20, 0):
                v = sub(a, b)
            elif k == (0, 1):
                v = shl(a, and_(b, 31))
            elif k == (0, 2):
                v = ite(slt(a, b), 1, 0)
            elif k == (0, 3):
                v = ite(ult(a, b), 1, 0)
            elif k == (0, 4):
                v = xor(a, b)
            elif k == (0, 5):
                v = lshr(a, and_(b, 31))
            elif k == (0x20, 5):
                v = ashr(a, and_(b, 31))
            elif k == (0, 6):
                v = or_(a, b)
            elif k == (0, 7):
                v = and_(a, b)
            elif k == (1, 0):
                v = mul(a, b)
            elif k == (1, 4):
                v = (M32 if b == 0 else sdiv(a, b)) if isc(b) else sdiv(a, b)
            elif k == (1, 6):
                v = (a if b == 0 else srem(a, b)) if isc(b) else srem(a, b)
        elif op == 0x37:
            v = w & 0xFFFFF000
        elif op == 0x17:
            v = (pc + (w & 0xFFFFF000)) & M32
        elif op == 0x6F:
            o = (w >> 31) << 20 | (w >> 12 & 0xFF) << 12 | (w >> 20 & 1) << 11 | (w >> 21 & 0x3FF) << 1
            v = nx
            nx = (pc + sx(o, 21)) & M32
        elif op == 0x67 and f3 == 0:
            t = eng.conc(add(r[rs1], sx(w >> 20, 12) & M32)) & ~1
            v = nx
            nx = t
        elif op == 0x63:
            a, b = r[rs1], r[rs2]
            if f3 == 0:
                c = eq(a, b)
            elif f3 == 1:
                c = not_(eq(a, b))
            elif f3 == 4:
                c = slt(a, b)
            elif f3 == 5:
                c = not_(slt(a, b))
            elif f3 == 6:
                c = ult(a, b)
            elif f3 == 7:
                c = not_(ult(a, b))
            else:
                raise Fault('bad branch 0x%08x at 0x%x' % (w, pc))
            if eng.decide(c):
                o = (w >> 31) << 12 | (w >> 7 & 1) << 11 | (w >> 25 & 0x3F) << 5 | (w >> 8 & 15) << 1
                nx = (pc + sx(o, 13)) & M32
            self.pc = nx
            return
        elif op == 0x03:
            a = eng.conc(add(r[rs1], sx(w >> 20, 12) & M32))
            if f3 == 0:
                v = sext8(self.mem.lb(a))
            elif f3 == 2:
                v = self.mem.lw(a)
            elif f3 == 4:
                v = zext8(self.mem.lb(a))
        elif op == 0x23:
            imm = sx((w >> 25) << 5 | (w >> 7 & 31), 12) & M32
            a = eng.conc(add(r[rs1], imm))
            if f3 == 0:
                self.mem.sb(a, lo8(r[rs2]))
            elif f3 == 2:
                self.mem.sw(a, r[rs2])
            else:
                raise Fault('unsupported store 0x%08x at 0x%x' % (w, pc))
            self.pc = nx
            return
        elif w == 0x73:
            n = eng.conc(r[17])
            kind = {93: 'exit', 94: 'exit', 63: 'read', 64: 'write', 222: 'mmap', 215: 'munmap'}.get(n)
            r[10] = self.syscall(eng, kind, r[10:13]) if kind else M32 - 37
            self.pc = nx
            return
        if v is None:
            raise Fault('unsupported instruction 0x%08x at 0x%x' % (w, pc))
        if rd:
            r[rd] = v
        self.pc = nx


def load(data, argv=(b'prog',)):
    e = Elf(data)
    return {40: ArmMachine, 243: RvMachine}[e.machine](e, argv)
