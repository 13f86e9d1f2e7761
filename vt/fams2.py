"""Program families for C03, C04, C07, C10, C16-C19."""
import random
from .gen import *
from .fams import EDGE, SEED

SOFT = ('--no-libc',)
HARD = ('--no-libc', '+m')


# ------------------------------------------------------------------ C04: * / %
def fam_c04(tier):
    out = []
    R = random.Random(400 + SEED)
    q = tier == 'quick'

    def add(name, body, top='', flags=(SOFT, HARD), **o):
        for f in flags:
            out.append((name + ('h' if '+m' in f else 's'), program(body, top), dict(flags=f, deadline=15 if q else 120, **o)))
    W = [(5, 5), (7, 4), (4, 6), (8, 3), (3, 8)] if q else [(8, 8), (10, 6), (6, 10), (12, 5), (4, 14), (16, 4)]
    for i, (m, n) in enumerate(W):
        for op in '*/%':
            f = (SOFT, HARD) if i == 0 else (SOFT,)
            body = '    a = a << %d >> %d; b = b << %d >> %d;\n' % (32 - m, 32 - m, 32 - n, 32 - n)
            add('w%d_%d%s' % (m, n, {'*': 'mul', '/': 'div', '%': 'mod'}[op]),
                body + '    out[0] = a %s b; out[1] = a; out[2] = b; out[3] = c; out[4] = d;\n' % op, flags=f)
    # constant divisors and factors, a any 32-bit value
    ks = [1, 2, 3, 5, 7, 10, 16, 100, 255, 256, 1000, 65535, 65536, 1000000, 0x40000000, 0x7fffffff]
    for k in ks if not q else ks[::2] + [3]:
        for s in ('', '-'):
            # the quotient is bounded so that the number of paths of the software sequence stays small
            sh = max(0, min(26, 32 - (k.bit_length() + 4)))
            nar = '    a = a >> %d;\n' % sh if k < 0x4000000 else ''
            add('k%s%d' % ('m' if s else '', k), nar + '    b = %s%d;\n    out[0] = a / b; out[1] = a %% b; out[2] = c; out[3] = a; out[4] = b;\n'
                % (s, k), flags=(SOFT,))
            add('f%s%d' % ('m' if s else '', k), ('    a = a >> 20;\n' if s else '') + '    b = %s%d;\n    out[0] = a * b; a = a << 29 >> 29; out[1] = b * a; out[2] = c; out[3] = a;\n' % (s, k),
                flags=(SOFT, HARD) if s else (SOFT,))
    # any divisor of large magnitude, any dividend
    for sh in (0, 1, 2):
        for neg in ('', '    b = 0 - b;\n')[:2 if sh else 1]:
            add('big%d%s' % (sh, 'n' if neg else ''), '    b = ((b & 0x3fffffff) | 0x40000000) >> %d;\n%s    out[0] = a / b; out[1] = b; out[2] = a;\n'
                % (sh, neg))
            add('bigm%d%s' if not q or sh == 2 else 'bigm%d%s' % (sh, 'n' if neg else ''), '    b = ((b & 0x3fffffff) | 0x40000000) >> %d;\n%s    out[0] = a %% b; out[1] = b; out[2] = a;\n'
                % (sh, neg))
    # the most negative dividend and divisor
    add('min1', '    b = (-2147483647) - 1; a = a >> 28;\n    out[0] = a / b; out[1] = a % b; out[2] = b / b; out[3] = b % b;\n')
    add('min2', '    b = (-2147483647) - 1; a = (a & 7) + 0x10000000;\n    out[0] = b / a; out[1] = b % a; out[2] = b * a;\n')
    add('min3', '    b = (-2147483647) - 1; a = 0 - ((a & 7) + 0x10000000);\n    out[0] = b / a; out[1] = b % a; out[2] = a * b;\n')
    # operands and result in every register, the same variable on both sides, other values live across
    for i in range(24 if q else 300):
        nv = R.randrange(2, 10)
        vs = ['v%d' % j for j in range(nv)]
        body = ''.join('    int %s = in[%d] << 29 >> 29;\n' % (v, j) for j, v in enumerate(vs[:3]))
        body += ''.join('    int %s = in[%d];\n' % (v, j + 3) for j, v in enumerate(vs[3:]))
        if nv == 2:
            body = body.replace('int v0', 'int v0')
        sm = vs[:3][:max(2, min(3, nv))]
        for _ in range(R.randrange(1, 3)):
            x, y, z = R.choice(sm), R.choice(sm), R.choice(vs)
            op = R.choice('*/%/%')
            w = R.random()
            if w < .3:
                body += '    %s = %s %s %s;\n' % (z, x, op, y)
                sm = [s for s in sm if s != z] or sm[:1]
            elif w < .5:
                body += '    %s = (%s %s %s) + %s;\n' % (z, x, op, y, R.choice(vs))
                sm = [s for s in sm if s != z] or sm[:1]
            elif w < .6:
                body += '    out[14] = %s %s %s; out[15] = %s;\n' % (x, op, x, x)
            else:
                body += '    out[%d] = %s - %s %s %s;\n' % (R.randrange(10, 14), R.choice(vs), x, op, y)
        body += ''.join('    out[%d] = %s;\n' % (j, v) for j, v in enumerate(vs))
        out.append(('mix%02d' % i, program(body), dict(flags=SOFT, deadline=15 if q else 120)))
        if i % 4 == 0:
            out.append(('mixh%02d' % i, program(body), dict(flags=HARD, deadline=15 if q else 120)))
    return out


# ------------------------------------------------------------------ C07: constants computed by the compiler
def lit(R, v):
    """a spelling of the 32-bit value v as C expression text (negative values in parentheses)"""
    if v == -0x80000000:
        return '(-2147483647 - 1)'
    if v < 0:
        return '(-%d)' % -v
    return R.choice(['%d', '%d', '0x%x', '0%o' if v else '%d']) % v


CV = [0, 1, 2, 3, 5, 7, 8, 10, 31, 32, 100, 255, 256, 4095, 4096, 65535, 65536, 123456789, 0x7fffffff, 0x40000000,
      -1, -2, -3, -7, -8, -10, -100, -255, -256, -4096, -65536, -123456789, -0x7fffffff]


def fam_c07(tier):
    out = []
    R = random.Random(700 + SEED)
    q = tier == 'quick'
    A = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '<', '<=', '>', '>=', '==', '!=']

    def kpair(o):
        x = R.choice(CV) if R.random() < .7 else R.randrange(-2**31 + 1, 2**31)
        y = R.choice(CV) if R.random() < .7 else R.randrange(-2**31 + 1, 2**31)
        if o in '/%':
            y = y or 3
        if o in ('<<', '>>'):
            y = R.choice([0, 1, 2, 4, 15, 30, 31])
        return x, y

    # constants as operands and through variables, used before and after other code, in branches and loops
    for i in range(60 if q else 800):
        body = ''
        for j in range(12):
            o = A[(i * 12 + j) % len(A)]
            x, y = kpair(o)
            w = (i + j) % 6
            if w < 2:
                body += '    out[%d] = %s %s %s;\n' % (j, lit(R, x), o, lit(R, y))
            elif w == 2:
                body += '    int p%d = %s; int q%d = %s; out[%d] = p%d %s q%d;\n' % (j, lit(R, x), j, lit(R, y), j, j, o, j)
            elif w == 3:
                body += '    int p%d = %s; if (a > %d) out[%d] = p%d %s %s; else out[%d] = p%d;\n' % (
                    j, lit(R, x), R.choice(CV[:20]), j, j, o, lit(R, y), j, j) if j % 3 == 0 else \
                    '    out[%d] = (%s %s %s) ^ a;\n' % (j, lit(R, x), o, lit(R, y))
            elif w == 4:
                o2 = R.choice(['+', '-', '*', '^', '&'])
                body += '    out[%d] = (%s %s %s) %s %s;\n' % (j, lit(R, x), o, lit(R, y), o2, lit(R, R.choice(CV)))
            else:
                u = R.choice('-~!')
                body += '    int p%d = %s; int q%d = %sp%d; out[%d] = q%d %s %s;\n' % (j, lit(R, x), j, u, j, j, j,
                                                                                   o if o not in '/%' else '+', lit(R, y if y >= 0 or o not in ('<<', '>>') else 1))
        out.append(('fold%03d' % i, program(body)))
    # constants that flow through copies, branches and loops
    for i in range(60 if q else 800):
        body = '    int x = %s; int y = %s; int z = %s; int i;\n' % tuple(lit(R, R.choice(CV)) for _ in range(3))

        def st():
            o = R.choice(['+', '-', '*', '+', '-', '/', '%', '&', '|', '^', '<', '=='])
            v, p = R.choice('xyz'), R.choice('xyz')
            r = R.random()
            if o in '/%':
                return '%s = %s %s %s;' % (v, p, o, lit(R, R.choice([k for k in CV if k])))
            if r < .3:
                return '%s = %s;' % (v, lit(R, R.choice(CV)))
            if r < .5:
                return '%s = %s;' % (v, p)
            if r < .7:
                return '%s = %s %s %s;' % (v, p, o, R.choice('xyz'))
            if r < .85:
                return '%s = %s %s %s;' % (v, p, o, lit(R, R.choice(CV)))
            return '%s = %s %s %s;' % (v, lit(R, R.choice(CV)), o, p)
        for k in range(R.randrange(2, 5)):
            body += '    %s\n' % st()
        body += '    if (a & 1) { %s %s } else { %s }\n    %s\n' % (st(), st(), st(), st())
        body += '    for (i = 0; i < (b & 3); i++) { %s if (c >> i & 1) %s }\n    %s\n' % (st(), st(), st())
        body += '    if (d & 1) %s\n    out[0] = x; out[1] = y; out[2] = z; out[3] = x %s %s;\n' % (
            st(), R.choice(['+', '*', '-']), lit(R, R.choice(CV)))
        out.append(('flow%03d' % i, program(body)))
    # what only traps when executed
    for i, e in enumerate(['7 / 0', '7 % 0', '(-2147483647 - 1) / -1', '(-2147483647 - 1) % -1', '0 / 0', '-5 % 0']):
        out.append(('trap%d' % i, program('    int z = 0; int m = -1; int n = -2147483647; n = n - 1;\n    if (a == 12345) out[0] = %s;\n'
                                          '    if (b == 12345) out[1] = 7 / z;\n    if (c == 12345) out[2] = n %% m;\n    out[3] = n / (m + 3);\n' % e)))
    # initialisers of globals
    gops = ['+', '-', '*', '/', '%', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&&', '||', '+', '-', '*', '&', '|', '^']

    def glit(v):
        return '%d' % v if v < 0 else lit(R, v)
    for i in range(40 if q else 500):
        top, body = '', ''
        for j in range(14):
            n = R.choice([1, 2, 2, 2, 3, 3, 4, 5])
            for _ in range(200):
                vs = [R.choice(CV) for _ in range(n)]
                os_ = [R.choice(gops) for _ in range(n - 1)]
                for k, o in enumerate(os_):
                    if o in ('/', '%') and vs[k + 1] == 0:
                        vs[k + 1] = 3
                    if o in ('<<', '>>'):
                        vs[k + 1] = R.choice([0, 1, 5, 16, 31])
                e = glit(vs[0])
                for o, v in zip(os_, vs[1:]):
                    e += ' %s %s' % (o, glit(v))
                if evaluates(e):
                    break
            else:
                e = '%d' % j
            if R.random() < .2:
                e += ' ? %s : %s' % (glit(R.choice(CV)), glit(R.choice(CV)))
            top += 'int g%d = %s;\n' % (j, e)
            body += '    out[%d] = g%d;\n' % (j, j)
        out.append(('ginit%03d' % i, program(body, top)))
    # enumerators and case labels
    for i in range(12 if q else 120):
        es, v, vals = [], 0, []
        for j in range(8):
            if R.random() < .5:
                v = R.choice(CV)
                es.append('E%d = %s' % (j, glit(v)))
            else:
                es.append('E%d' % j)
            vals.append(v)
            v += 1
        top = 'typedef enum { %s } En;\n' % ', '.join(es)
        body = ''.join('    out[%d] = E%d;\n' % (j, j) for j in range(8))
        body += ''.join('    out[%d] = E%d %s %s;\n' % (8 + j, j, R.choice(['+', '-', '*', '<', '==']), lit(R, R.choice(CV))) for j in range(4))
        labels, lv = [], set()
        for j in range(5):
            if R.random() < .5:
                k = R.randrange(8)
                t, x = 'E%d' % k, vals[k]
            elif R.random() < .3:
                t, x = "'%s'" % 'aZ0'[j % 3], ord('aZ0'[j % 3])
            else:
                x = R.choice(CV)
                t = glit(x)
            if x not in lv:
                lv.add(x)
                labels.append(t)
        body += '    switch (a) {\n' + ''.join('    case %s:\n        out[12] = %d;\n        break;\n' % (t, j + 1) for j, t in enumerate(labels)) + \
                '    default:\n        out[12] = 99;\n    }\n'
        out.append(('enum%03d' % i, program(body, top)))
    return out


def evaluates(e):
    """does the expression have a value in C (no overflow, no division by zero)? evaluated with Python precedence on a C-like tree"""
    import re
    toks = re.findall(r'0x[0-9a-f]+|\d+|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%<>&|^]', e)
    pos = 0

    def prim():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t == '-':
            return -prim()
        if t.startswith('0x'):
            return int(t, 16)
        return int(t, 8) if t[0] == '0' and len(t) > 1 else int(t)

    def go(p):
        nonlocal pos
        l = prim()
        while pos < len(toks) and PREC[toks[pos]] >= p:
            o = toks[pos]
            pos += 1
            r = go(PREC[o] + 1)
            if o in '/%':
                if r == 0:
                    raise ValueError
                d = abs(l) // abs(r) * (1 if (l < 0) == (r < 0) else -1)
                l = d if o == '/' else l - d * r
            elif o == '<<':
                if l < 0 or not 0 <= r < 32:
                    raise ValueError
                l <<= r
            elif o == '>>':
                if not 0 <= r < 32:
                    raise ValueError
                l >>= r
            elif o == '&&':
                l = int(bool(l) and bool(r))
            elif o == '||':
                l = int(bool(l) or bool(r))
            else:
                l = int({'+': l + r, '-': l - r, '*': l * r, '&': l & r, '|': l | r, '^': l ^ r, '<': l < r, '>': l > r,
                         '<=': l <= r, '>=': l >= r, '==': l == r, '!=': l != r}[o])
            if not -2**31 <= l < 2**31:
                raise ValueError
        return l
    try:
        go(0)
        return True
    except ValueError:
        return False


# ------------------------------------------------------------------ C03: layout
def fam_c03(tier):
    out = []
    R = random.Random(300 + SEED)
    q = tier == 'quick'
    edge = [2040, 2044, 2048, 2052, 4088, 4092, 4096, 4100, 65528, 65532, 65536, 65540, 131072, 252, 256, 260, 1020, 1024]
    if q:
        edge = [2044, 2048, 4092, 4096, 4100, 65532, 65536, 252, 256]
    # frames and global areas whose objects lie around every encoding limit
    for i, e in enumerate(edge):
        k = (e - 40) // 4
        pads = [max(1, k - 8 + j) for j in range(0, 16, 4)]
        for j, n in enumerate(pads):
            if q and (i + j) % 2:
                continue
            top = 'int use(int *p, int n) { return p[n] + n; }\nint callee(int x) { int v[%d]; v[0] = x; v[%d] = x + 1; return v[%d] - v[0] + x; }\n' % (
                n + 1, n, n)
            body = ('    int big[%d]; int l0 = a; int l1 = b + 1; int l2[4]; int l3 = c;\n    big[0] = d; big[%d] = a; l2[1] = b; l2[3] = c + d;\n'
                    '    int i; for (i = 0; i < 2; i++) { l0 = l0 + big[%d]; l1 = l1 ^ l0; if (l0 < l1) l3++; else l2[i] = l3; }\n'
                    '    out[0] = l0; out[1] = l1; out[2] = l2[0]; out[3] = l2[1]; out[4] = l2[3]; out[5] = l3; out[6] = big[0];\n'
                    '    out[7] = big[%d]; out[8] = use(big, %d); out[9] = use(l2, 3); out[10] = callee(a); l3 = l3 + l1; out[11] = l3;\n'
                    % (n, n - 1, n - 1, n - 1, n - 1))
            out.append(('frame%d_%d' % (e, j), program(body, top)))
            top = 'int gp[%d]; int g0; int g1; int ga[4]; int g2; char gc[5]; int g3;\nint use(int *p, int n) { return p[n] + g1; }\n' % n
            body = ('    g0 = a; g1 = b + 1; g2 = c; g3 = d; gp[0] = d; gp[%d] = a; ga[0] = 5; ga[1] = b; ga[3] = c + d; gc[0] = a; gc[4] = b; gc[1] = 3;\n'
                    '    int i; for (i = 0; i < 2; i++) { g0 = g0 + gp[%d]; g1 = g1 ^ g0; if (g0 < g1) g3++; else ga[i] = g3; }\n'
                    '    out[0] = g0; out[1] = g1; out[2] = ga[0]; out[3] = ga[1]; out[4] = ga[3]; out[5] = g2; out[6] = gp[0];\n'
                    '    out[7] = gp[%d]; out[8] = use(gp, %d); out[9] = use(ga, 3); out[10] = gc[4] & 255; out[11] = g3; out[12] = gc[0] & 255; out[13] = gc[1];\n'
                    % (n - 1, n - 1, n - 1, n - 1))
            out.append(('glob%d_%d' % (e, j), program(body, top)))
    # many functions, calls in both directions, function pointers, code and strings of varying size in between
    for i in range(24 if q else 250):
        n = R.randrange(3, 14)
        top = 'typedef struct { int (*fn)(); int k; } FP;\n'
        strs = []
        fwd = ''.join('int f%d(int x, int y);\n' % k for k in range(n))
        top += fwd

        def filler(m):
            t = ''
            for _ in range(m):
                r = R.random()
                if r < .3:
                    t += '    z = z + %d;\n' % R.choice(EDGE)
                elif r < .5:
                    t += '    z = z ^ (x %s %d);\n' % (R.choice('+-&|*'), R.choice(EDGE))
                elif r < .7:
                    t += '    if (z < %d) z = z - y; else { z = z | 1; x = x + 1; }\n' % R.choice(EDGE)
                elif r < .85:
                    s = ''.join(R.choice('abcdef ghi%') for _ in range(R.randrange(0, 30)))
                    t += '    z = z + cstr("%s", %d);\n' % (s, R.randrange(len(s) + 1))
                else:
                    t += '    w[%d] = z; z = z + w[%d];\n' % (R.randrange(4), R.randrange(4))
            return t
        top += 'int cstr(char *s, int n) { int r = 0; int i; for (i = 0; i <= n; i++) r = r * 31 + s[i]; return r; }\n'
        order = list(range(n))
        R.shuffle(order)
        for k in order:
            arr = R.choice([4, 4, 4, 30, 600, 1100])
            t = 'int f%d(int x, int y)\n{\n    int z = y; int w[%d]; w[0] = x; w[1] = y; w[2] = 1; w[3] = 2;\n' % (k, arr)
            t += filler(R.choice([0, 1, 2, 4]))
            if k + 1 < n:
                c = R.randrange(k + 1, n)
                t += '    z = z + f%d(z & 255, %s);\n' % (c, R.choice(['x', 'y', 'w[0]', '3000']))
            t += '    return z + %d;\n}\n' % R.choice(EDGE)
            top += t
        body = ''
        for k in range(min(n, 4)):
            body += '    out[%d] = f%d(%s, %s);\n' % (k, R.randrange(n), R.choice(['1', '70000', '5']), R.choice(['2', '100', '300']))
        k = R.randrange(n)
        body += '    FP p[1]; p->fn = f%d; p->k = 4; out[4] = p->fn(a & 7, 3);\n' % k
        body += '    out[5] = a;\n'
        out.append(('fns%02d' % i, program(body, top)))
    # long jumps: many blocks between a branch and its target (a variable has fewer than 64 versions, a limit of the compiler)
    for i in range(8 if q else 40):
        m = R.choice([20, 40, 60, 80])
        body = '    int x = a & 3; int i;\n' + ''.join('    int y%d = %d;\n' % (k, k) for k in range(10))
        body += '    for (i = 0; i < 2; i++) {\n        if (x & 1) {\n'
        for k in range(m):
            v = 'y%d' % (k % 10)
            body += '            if (%s < %d) { %s = %s + %d; out[%d] = %s; }\n' % (v, R.choice(EDGE), v, v, R.choice(EDGE), R.randrange(3, 8), v)
        body += '        } else {\n'
        for k in range(m // 2):
            v = 'y%d' % (k % 10)
            body += '            %s = %s + %d;\n' % (v, v, R.choice(EDGE))
        body += '        }\n        x = x >> 1;\n    }\n    out[0] = x; out[1] = y0; out[2] = i; out[8] = y1 + y2 + y3 + y4 + y5; out[9] = y6 ^ y7 ^ y8 ^ y9;\n'
        out.append(('far%02d' % i, program(body)))
    return out


# ------------------------------------------------------------------ C10: literals
def fam_c10(tier):
    out = []
    R = random.Random(1000 + SEED)
    q = tier == 'quick'

    def val():
        r = R.random()
        if r < .35:
            return R.choice(EDGE)
        if r < .6:
            return max(0, min(0x7fffffff, (1 << R.randrange(32)) + R.randrange(-2, 3)))
        return R.randrange(0, 1 << R.choice([4, 8, 12, 16, 24, 31]))

    def spell(v):
        k = R.randrange(6)
        if k < 2 or v == 0:
            return '%d' % v
        if k == 2:
            return '0x%x' % v
        if k == 3:
            return ('0x%X' if R.random() < .7 else '0X%X') % v
        if k == 4:
            return ('0%o' if R.random() < .7 else '00%o') % v
        return '0x' + ''.join(c.upper() if R.random() < .5 else c for c in '%0*x' % (R.randrange(1, 9), v))

    for i in range(40 if q else 500):
        top, body = '', ''
        for j in range(14):
            v = val()
            w = R.randrange(8)
            t = spell(v)
            if w == 0:
                body += '    out[%d] = %s;\n' % (j, t)
            elif w == 1:
                top += 'int g%d = %s;\n' % (j, t)
                body += '    out[%d] = g%d;\n' % (j, j)
            elif w == 2:
                body += '    out[%d] = a + %s;\n' % (j, t)
            elif w == 3:
                top += '#define K%d %s\n' % (j, t)
                body += '    out[%d] = a ^ K%d;\n' % (j, j)
            elif w == 4:
                top += 'typedef enum { E%d = %s, F%d } T%d;\n' % (j, t if v < 0x7fffffff else '5', j, j)
                body += '    out[%d] = E%d - F%d * 3;\n' % (j, j, j)
            elif w == 5:
                body += '    switch (b) { case %s: out[%d] = 1; break; default: out[%d] = 2; }\n' % (t, j, j) if j % 3 == 0 else \
                    '    out[%d] = b == %s;\n' % (j, t)
            elif w == 6:
                body += '    if (c < %s) out[%d] = %s;\n' % (t, j, t)
            else:
                body += '    int x%d = -%s; out[%d] = x%d;\n' % (j, t, j, j)
        out.append(('num%03d' % i, program(body, top)))
    # all 32 bits
    for i in range(6 if q else 60):
        body = ''
        for j in range(14):
            v = R.choice([0x80000000, 0xffffffff, 0x80000001, 0xfffffffe, 0xabcdef01, R.randrange(1 << 31, 1 << 32)])
            body += '    out[%d] = %s;\n' % (j, R.choice(['0x%x', '0x%X', '0%o']) % v)
        out.append(('wide%03d' % i, program(body)))
    # array sizes
    for i in range(6 if q else 40):
        n = R.choice([1, 7, 8, 9, 16, 63, 64, 100])
        out.append(('size%d' % i, program('    int x = b; out[0] = la[0]; la[%s] = a; int y = c; out[1] = la[%d]; out[2] = x; out[3] = y; out[4] = g1; out[5] = sizeof(int) * %d;\n'
                                          % (spell(n - 1), n - 1, n), 'int la[%s]; int g1 = 77;\n' % spell(n))))
    # characters and strings: every printable character and every supported escape
    esc = {'\n': '\\n', '\t': '\\t', '\r': '\\r', '\\': '\\\\', '"': '\\"', "'": "\\'"}
    chars = [chr(c) for c in range(32, 127)] + ['\n', '\t', '\r']

    def ch(c):
        if c == '"':
            return R.choice(['\'"\'', "'\\\"'"])
        return "'" + esc.get(c, c) + "'"

    def st(s):
        return '"' + ''.join((R.choice(["'", "\\'"]) if c == "'" else esc.get(c, c)) for c in s) + '"'
    for i in range(0, len(chars), 14):
        cs = chars[i:i + 14]
        body = ''.join('    out[%d] = %s;\n' % (j, ch(c)) for j, c in enumerate(cs))
        body2 = ''.join('    char c%d = %s; out[%d] = c%d + (a == %s);\n' % (j, ch(c), j, j, ch(c)) for j, c in enumerate(cs))
        body3 = ''.join('    out[%d] = g%d;\n' % (j, j) for j, c in enumerate(cs))
        out.append(('chr%d' % i, program(body)))
        out.append(('chrv%d' % i, program(body2)))
        out.append(('chrg%d' % i, program(body3, ''.join('char g%d = %s;\n' % (j, ch(c)) for j, c in enumerate(cs)))))
        out.append(('chrc%d' % i, program('    switch (a) {\n' + ''.join('    case %s:\n        out[0] = %d;\n        break;\n' % (ch(c), j + 1) for j, c in enumerate(cs))
                                          + '    default:\n        out[0] = 99;\n    }\n')))
    out.append(('nul', program("    out[0] = '\\0'; char c0 = '\\0'; out[1] = c0; out[2] = a == '\\0'; char *s = \"\"; out[3] = s[0];\n")))
    for i in range(30 if q else 300):
        top = 'int sum(char *s, int n) { int r = 7; int i; for (i = 0; i <= n; i++) r = r * 31 + s[i]; return r; }\n'
        body = ''
        for j in range(R.randrange(1, 9)):
            s = ''.join(R.choice(chars) for _ in range(R.choice([0, 1, 2, 3, 4, 5, 7, 8, 30, 100])))
            if R.random() < .15:
                s = ''.join(R.choice('\n\t\r\\"\'') for _ in range(R.randrange(1, 9)))
            if R.random() < .1:
                s = R.choice(['// not a comment', '/* nor this */', '#if 0', '%d %s', '??', 'a\\', '\\n', "'", 'x = "y";'])
            if R.random() < .5:
                body += '    out[%d] = sum(%s, %d);\n' % (j, st(s), len(s))
            else:
                body += '    char *s%d = %s; out[%d] = sum(s%d, %d) + s%d[%s];\n' % (j, st(s), j, j, len(s), j, 'a & %d' % ((1 << (len(s) + 1).bit_length() - 1) - 1))
        out.append(('str%03d' % i, program(body, top)))
    return out
