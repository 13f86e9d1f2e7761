"""Further program families (see gen.py for the conventions)."""
import os
import random
from .gen import *

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
EDGE = [0, 1, 2, 3, 7, 8, 31, 32, 127, 128, 255, 256, 257, 1023, 1024, 2047, 2048, 2049, 4095, 4096, 4097, 32767, 32768,
        65535, 65536, 65537, 0xfffff, 0x100000, 0x7ffff7ff, 0x7ffff800, 0x7ffff801, 0x7fffffff, 123456789, 0x12345678]


# ------------------------------------------------------------------ C05: constants next to every operation
def fam_c05(tier):
    out = []
    ops = ['+', '-', '*', '&', '|', '^', '<<', '>>', '<', '<=', '>', '>=', '==', '!=', '/', '%']
    ks = [0, 1, 2] if tier == 'quick' else [0, 1, 2, 3, 255, 256, 65536]
    n = 0
    cells = []
    for o in ops:
        for k in ks:
            if o in '/%' and k == 0:
                continue
            cells.append((o, k))
    R = random.Random(500 + SEED)
    # the constant is a literal, a variable read again afterwards, or the result of an earlier operation
    for o, k in cells:
        l = '%d %s a' % (k, o) if o not in '/%' else 'a'
        body = ('    out[0] = a %s %d;\n    out[1] = %s;\n    int z = %d; int y = a;\n    y = a %s z; out[2] = y; out[3] = z;\n'
                '    y = z + 1; z = a %s %d; out[4] = y; out[5] = z;\n'
                '    int w = %d; int u = b %s w; int t = w + c; out[6] = u; out[7] = t; out[8] = w;\n'
                '    u = w %s d; out[9] = %s; out[10] = w;\n'
                % (o, k, l, k, o, o, k, k, o, o if o not in '/%' else '+', 'u'))
        out.append(('const%03d' % n, program(body)))
        n += 1
    # a result moved on, and both copies used
    for i in range(60 if tier == 'quick' else 600):
        body = '    int x = a; int y = b; int z = c; int w = d;\n'
        for _ in range(R.randrange(6, 18)):
            v, p, q = R.choice('xyzw'), R.choice('xyzw'), R.choice('xyzw')
            r = R.random()
            if r < .25:
                body += '    %s = %d;\n' % (v, R.choice([0, 1, 0, 1, 5]))
            elif r < .5:
                body += '    %s = %s;\n' % (v, p)
            elif r < .75:
                body += '    %s = %s %s %d;\n' % (v, p, R.choice(['+', '-', '*', '+', '-', '^', '&', '|']), R.choice([0, 1, 0, 1, 2]))
            elif r < .85:
                body += '    %s = %d %s %s;\n' % (v, R.choice([0, 1]), R.choice(['+', '-', '*']), p)
            else:
                body += '    %s = %s %s %s;\n' % (v, p, R.choice(['+', '-', '&', '^', '|', '<']), q)
        body += '    out[0] = x; out[1] = y; out[2] = z; out[3] = w;\n'
        out.append(('move%03d' % i, program(body)))
    # the same inside loops and branches, where the constant lives across blocks
    for i in range(40 if tier == 'quick' else 500):
        body = '    int z = %d; int y = a; int x = b; int i;\n' % R.choice([0, 1])
        st = lambda: R.choice(['y = y + z;', 'x = x - z;', 'y = z - x;', 'x = z * y;', 'x = y * z;', 'y = x + 0;', 'x = 0 - y;',
                               'x = 1 * y;', 'y = x;', 'z = 0;', 'z = 1;', 'z = z + 0;', 'x = y; y = y + 1;', 'y = x + 1 * z;',
                               'g = x; x = g + 0;', 'g = 0; y = g + x;', 'ar[i & 3] = 0; x = ar[i & 3] + y;'])
        body += '    for (i = 0; i < %d; i++) {\n' % R.randrange(1, 4)
        for _ in range(R.randrange(2, 5)):
            body += '        %s\n' % st()
        body += '        if (in[4] >> i & 1) { %s } else { %s %s }\n        %s\n    }\n' % (st(), st(), st(), st())
        body += '    %s\n    out[0] = x; out[1] = y; out[2] = z; out[3] = i; out[4] = g; out[5] = ar[1];\n' % st()
        out.append(('flow%03d' % i, program(body, 'int g; int ar[4];\n')))
    return out


# ------------------------------------------------------------------ C06: more live variables than registers
def fam_c06(tier):
    out = []
    R = random.Random(600 + SEED)
    N = 120 if tier == 'quick' else 1500
    for k in range(N):
        n = R.choice([5, 6, 7, 8, 9, 10, 12, 14])
        shape = k % 6
        top = 'int g0; int g1; int ga[8];\nint f1(int x) { return x * 3 + g0; }\n' \
              'int f2(int x, int y) { int u = x + 1; int v = y + 2; int w = u ^ v; return w + x - y; }\n' \
              'int f5(int p, int q, int r, int s, int t) { int z = p + q * 2; g1 = g1 + r; return z - s + t; }\n'
        b = '    g0 = in[14]; g1 = in[15]; ga[3] = in[13];\n'
        for i in range(n):
            b += '    int v%d = %s;\n' % (i, R.choice(['in[%d] + %d' % (i, i), 'in[%d]' % i, str(R.choice(EDGE)), 'g0 - %d' % i,
                                                      'in[%d] ^ %d' % (i, 77 * i)]))
        V = lambda: 'v%d' % R.randrange(n)

        def atom():
            r = R.random()
            if r < .8:
                return V()
            if r < .86:
                return str(R.choice(EDGE))
            if r < .92:
                return R.choice(['g0', 'g1'])
            return 'in[%d]' % R.randrange(16)

        def ex(d):
            if d == 0:
                return atom()
            return '(%s %s %s)' % (ex(d - 1) if R.random() < .8 else atom(), R.choice(['+', '-', '^', '&', '|', '<', '+', '-']), ex(d - 1))

        def simple():
            r = R.random()
            if r < .5:
                return '%s = %s;' % (V(), ex(R.choice([1, 1, 2, 3])))
            if r < .58:
                return '%s = %s;' % (V(), ex(4))
            if r < .66:
                return 'ga[%d] = %s;' % (R.randrange(8), ex(1))
            if r < .72:
                return '%s = ga[%d];' % (V(), R.randrange(8))
            if r < .78:
                return '%s = %s;' % (R.choice(['g0', 'g1']), ex(1))
            if shape in (2, 5) or R.random() < .3:
                return R.choice(['%s = f1(%s);' % (V(), V()), '%s = f2(%s, %s);' % (V(), V(), V()), 'f1(%s);' % V(),
                                 '%s = f5(%s, %s, %s, %s, %s);' % (V(), V(), V(), V(), V(), V())])
            return '%s = %s;' % (V(), V())

        def seq(m, ind):
            return ''.join('%s%s\n' % (ind, simple()) for _ in range(m))
        b += seq(R.randrange(3, 14), '    ')
        if shape in (1, 5):
            b += '    if (in[12] & 1) {\n%s    } else {\n%s    }\n' % (seq(R.randrange(2, 5), '        '), seq(R.randrange(0, 4), '        '))
        if shape == 3:
            b += '    for (int i = 0; i < %d; i++) {\n%s        if (in[11] >> i & 1) {\n%s        }\n    }\n' % (
                R.randrange(1, 4), seq(R.randrange(2, 6), '        '), seq(2, '            '))
        if shape == 4:
            b += '    int i = 0;\n    while (i < (in[10] & 3)) {\n%s        i++;\n    }\n' % seq(R.randrange(2, 6), '        ')
        b += seq(R.randrange(2, 8), '    ')
        b += '    int s = 0;\n' + ''.join('    s = s * 3 + v%d;\n' % i for i in range(n))
        b += '    out[0] = s;\n' + ''.join('    out[%d] = v%d;\n' % (i + 1, i) for i in range(min(n, 10)))
        b += '    out[12] = g0; out[13] = g1; out[14] = ga[3];\n'
        out.append(('reg%04d' % k, program(b, top)))
    # deep operand stacks: right-nested expressions hold many temporaries
    for k in range(20 if tier == 'quick' else 200):
        d = R.randrange(4, 12)
        e = R.choice('abcd')
        for _ in range(d):
            l = R.choice(['a', 'b', 'c', 'd', 'in[%d]' % R.randrange(4, 9), 'g0', str(R.choice(EDGE)), '(a + %d)' % R.randrange(9), '(b ^ c)'])
            e = '%s %s (%s)' % (l, R.choice(['+', '-', '^', '|', '&']), e)
        f = R.choice('abcd')
        for _ in range(R.randrange(2, 5)):
            f = '(%s %s c) %s (%s %s d)' % (f, R.choice('+-^'), R.choice('+-^'), f, R.choice('+-&'))
            if len(f) > 200:
                break
        out.append(('nest%03d' % k, program('    g0 = in[9];\n    out[0] = %s;\n    out[1] = a; out[2] = b; out[3] = %s; out[4] = c; out[5] = d;\n' % (e, f),
                                            'int g0;\n')))
    return out


# ------------------------------------------------------------------ C13: objects, addresses and sizes
def fam_c13(tier):
    out = []
    R = random.Random(1300 + SEED)
    N = 110 if tier == 'quick' else 1500
    types = [('int', 4), ('char', 1)]
    for k in range(N):
        # a structure with random members, used as locals and globals, singly, in arrays and by pointer
        mem = []
        for i in range(R.randrange(2, 6)):
            r = R.random()
            if r < .55:
                mem.append(('int', 'm%d' % i, 0))
            elif r < .7:
                mem.append(('int', 'm%d' % i, R.choice([2, 4])))
            elif r < .85:
                mem.append(('char', 'm%d' % i, R.choice([4, 8, 3])))
            else:
                mem.append(('int *', 'm%d' % i, 0))
        if not any(m[0] == 'int' and not m[2] for m in mem):
            mem.append(('int', 'mz', 0))
        S = 'typedef struct {\n%s} S;\n' % ''.join('    %s%s%s;\n' % (t if t.endswith('*') else t + ' ', n, '[%d]' % a if a else '') for t, n, a in mem)
        big = R.choice([3, 4, 8, 8, 300, 1100])
        top = S + 'S g; S gs[4]; int gi[%d]; char gc[8]; int after;\n' % big
        body = '    S s; S t; S ls[3]; int li[%d]; char lc[8]; int i0 = a & 1; int i1 = b & 3; S *p = &s; S *q = &gs[i1]; int *ip = gi; char *cp = gc;\n' % R.choice([3, 4, 5, 6, 1100])
        body = body.replace('int i0', 'int n0 = 0; int i0')
        objs = ['s', 't', 'g', 'gs[i1]', 'gs[2]', 'ls[i0]', 'ls[2]', '(*p)' if 0 else 's']
        ptr = ['p', 'q']
        writes, reads = [], []
        for o in objs + ['p>', 'q>']:
            for t, n, a in mem:
                acc = (o[:-1] + '->' + n) if o.endswith('>') else o + '.' + n
                if t.endswith('*'):
                    continue
                if a:
                    idx = R.choice(['0', str(a - 1), 'i0', '1'])
                    writes.append((t, '%s[%s]' % (acc, idx)))
                else:
                    writes.append((t, acc))
        for ix in ('i0', 'i1', '2', '0'):
            writes += [('int', 'gi[%s]' % (ix if ix != 'i1' or big > 3 else 'i0')), ('char', 'gc[%s]' % ix), ('char', 'lc[%s]' % ix)]
        writes += [('int', 'li[i0]'), ('int', 'li[2]'), ('int', 'ip[i0]'), ('char', 'cp[i1]'), ('char', 'cp[7]'), ('int', 'after'), ('int', 'gi[%d]' % (big - 1))]
        # every object gets a value first
        fl = [('%s%s' % (n, '[%d]' % j if a else '')) for t, n, a in mem if not t.endswith('*') for j in range(a or 1)]
        top += 'void si(S *p, int k) {\n' + ''.join('    p->%s = k + %d;\n' % (f, R.randrange(60)) for f in fl) + '}\n'
        top += 'int sh(S *p, int h) {\n' + ''.join('    h = h * 31 + p->%s;\n' % f for f in fl) + '    return h;\n}\n'
        objl = ('s', 't', 'g', 'gs[0]', 'gs[1]', 'gs[2]', 'gs[3]', 'ls[0]', 'ls[1]', 'ls[2]')
        init = ''.join('    si(&%s, %d);\n' % (o, k * 6) for k, o in enumerate(objl))
        init += ''.join('    gc[%d] = %d; lc[%d] = %d;\n' % (j, j + 1, j, j + 11) for j in range(8))
        init += '    li[0] = 5; li[1] = 6; li[2] = 7; gi[0] = 15; gi[1] = 16; gi[2] = 17; gi[%d] = 99; after = 3;\n' % (big - 1)
        if big > 3:
            init += '    gi[3] = 18;\n'
        st = ''
        for _ in range(R.randrange(3, 8)):
            t, w = R.choice(writes)
            v = R.choice(['c', 'd', str(R.randrange(128)), 'in[5]', 'c + %d' % R.randrange(9)])
            if t == 'char':
                v = R.choice(['c & 127', 'd & 127', str(R.randrange(128)), '65'])
            st += '    %s = %s;\n' % (w, v)
            if R.random() < .25:
                st += '    p = &%s;\n' % R.choice(['t', 's', 'g', 'gs[1]', 'ls[i0]', 'ls[1]'])
            if R.random() < .15:
                st += '    ip = %s;\n' % R.choice(['li', 'gi', '&gi[1]', '&li[1]', '&after'] if 0 else ['li', 'gi', '&gi[1]', '&li[1]'])
        rd = []
        for _ in range(11):
            rd.append(R.choice(writes)[1])
        ob = ''.join('    out[%d] = %s;\n' % (i, e) for i, e in enumerate(rd))
        ob += '    h = 7;\n'
        ob += ''.join('    h = sh(&%s, h);\n' % o for o in objl)
        ob += ''.join('    h = h * 31 + gc[%d]; h = h * 31 + lc[%d];\n' % (j, j) for j in range(8))
        ob += ''.join('    h = h * 31 + li[%d]; h = h * 31 + gi[%d];\n' % (j, j) for j in range(3))
        ob += '    out[11] = h; out[12] = after; out[13] = gi[%d]; out[14] = sizeof(S); out[15] = sizeof(S *);\n' % (big - 1)
        if any(m[0] == 'char' for m in mem):
            ob = ob.replace('out[14] = sizeof(S);', '')     # shecc does not pad
        out.append(('obj%04d' % k, program('    int h;\n' + body + init + st + ob, top)))
    # sizeof
    out.append(('size0', program('''    int x; char y; int *p; char *q; S s; S *t; int ar[7]; char ca[5]; S sa[3];
    out[0] = sizeof(int); out[1] = sizeof(char); out[2] = sizeof(int *); out[3] = sizeof(char *); out[4] = sizeof(S);
    out[5] = sizeof(S *); out[6] = sizeof(S) * a;
    out[11] = sizeof(T); out[12] = sizeof(struct Q);
''', 'typedef struct { int a; int b[3]; int *c; } S;\ntypedef struct { S *s; int k; } T;\nstruct Q { int a; int b; };\n')))
    # pointers walk arrays of every element type
    for k in range(24 if tier == 'quick' else 200):
        ty = R.choice(['int', 'char', 'S'])
        acc = lambda e: e if ty != 'S' else '%s%s' % (e, R.choice(['.x', '.y', '.z[1]']))
        body = '    %s l[6]; %s *p; %s *q; int i;\n    for (i = 0; i < 6; i++) {\n' % (ty, ty, ty)
        if ty == 'S':
            for o in ('l', 'g'):
                body += ''.join('        %s[i].%s = i * %d + %d;\n' % (o, f, R.randrange(3, 99), R.randrange(9)) for f in ('x', 'y', 'z[0]', 'z[1]'))
        else:
            body += '        l[i] = i * 7 + 3;\n        g[i] = i * 5 + 60;\n'
        body += '    }\n    i = a & 3;\n    p = %s;\n    q = &%s[i];\n' % (R.choice(['l', 'g', '&l[0]', '&g[1]']), R.choice(['l', 'g']))
        n = 0
        for _ in range(R.randrange(4, 9)):
            r = R.random()
            if r < .3:
                body += '    p++;\n' if R.random() < .6 else '    p = p + 1;\n'
                if body.count('p++') + body.count('p + 1') > 2:
                    body += '    p = %s;\n' % R.choice(['l', 'g'])
            elif r < .5:
                e = acc('p[%s]' % R.choice(['0', '1', 'i' if 0 else '2']))
                body += '    %s = %s;\n' % (e, R.choice(['b & 127', '42', '99']))
            elif r < .65:
                e = acc('q[%s]' % R.choice(['0', '1']))
                body += '    %s = %s;\n' % (e, R.choice(['c & 127', '17']))
            elif ty == 'S':
                body += '    out[%d] = %s->%s;\n' % (n, R.choice('pq'), R.choice(['x', 'y', 'z[0]', 'z[1]']))
                n += 1
            else:
                body += '    out[%d] = %s;\n' % (n, R.choice(['*p', '*q', '*(q + 1)', 'p[1]', '*(p + 1)', '*p + *q']))
                n += 1
        body += '    int h = 1;\n    for (i = 0; i < 6; i++) {\n'
        for o in ('l', 'g'):
            if ty == 'S':
                body += ''.join('        h = h * 31 + %s[i].%s;\n' % (o, f) for f in ('x', 'y', 'z[0]', 'z[1]'))
            else:
                body += '        h = h * 31 + %s[i];\n' % o
        body += '    }\n    out[14] = h; out[15] = before + after;\n'
        out.append(('walk%03d' % k, program('    before = 21; after = 34;\n' + body,
                                            'typedef struct { int x; int y; int z[2]; } S;\nint before; %s g[6]; int after;\n' % ty)))
    # declarations of every shape next to each other; each object keeps what was put into it
    for k in range(50 if tier == 'quick' else 600):
        def decls(pre, n, initial):
            d, fill, read = [], [], []
            for i in range(n):
                nm = pre + str(i)
                sh = R.choice(['int', 'int', 'char', 'int *', 'char *', 'S', 'S *', 'int []', 'char []', 'S []', 'int *[]', 'char *[]', 'S *[]', 'En', 'T'])
                cnt = R.choice([1, 2, 3, 4, 5, 7])
                if sh.endswith('[]'):
                    b = sh[:-2]
                    d.append('%s%s%s[%d];' % (b.strip() if not b.endswith('*') else b, '' if b.endswith('*') else ' ', nm, cnt))
                    el = ['%s[%d]' % (nm, j) for j in range(cnt)]
                else:
                    b = sh
                    d.append('%s%s%s;' % (b, '' if b.endswith('*') else ' ', nm))
                    el = [nm]
                b = b.strip()
                for e in el:
                    if b in ('int', 'En'):
                        fill.append('%s = %s;' % (e, R.choice(['a', 'b', 'in[%d]' % R.randrange(8), str(R.randrange(1000))])))
                        read.append(e)
                    elif b == 'char':
                        fill.append('%s = %s;' % (e, R.choice(['%d' % R.randrange(128), 'in[3] & 127'])))
                        read.append(e)
                    elif b == 'int *':
                        fill.append('%s = %s;' % (e, R.choice(['&tg[1]', 'tg', '&tg[2]'])))
                        read.append('dri(%s)' % e)
                    elif b == 'char *':
                        fill.append('%s = %s;' % (e, R.choice(['tc', '&tc[1]', '&tc[3]', '"xyz"'])))
                        read.append('drc(%s)' % e)
                    elif b == 'S':
                        for f in ('x', 'y[0]', 'y[1]', 'z'):
                            fill.append('%s.%s = %d;' % (e, f, R.randrange(1000)))
                            read.append('%s.%s' % (e, f))
                    elif b == 'T':
                        for f in ('x', 's.z', 'c[0]', 'c[3]'):
                            if f == 's.z':
                                continue
                            fill.append('%s.%s = %d;' % (e, f, R.randrange(100)))
                            read.append('%s.%s' % (e, f))
                    else:
                        fill.append('%s = %s;' % (e, R.choice(['&ts', '&tss[1]'])))
                        read.append('drs(%s)' % e)
            return d, fill, read
        gd, gf, gr = decls('g', R.randrange(4, 9), True)
        ld, lf, lr = decls('l', R.randrange(2, 5), False)
        R.shuffle(gf)
        R.shuffle(lf)
        lf, lr = lf[:22], [e for e in lr if any(e in x or e[4:-1] in x for x in lf[:22])]
        lr = [e for e in lr if any(x.startswith((e[4:-1] if e.startswith('dr') else e) + ' =') for x in lf)]
        R.shuffle(lr)
        fn, calls, rcalls = '', '', ''
        for i in range(0, len(gf), 12):
            fn += 'void fill%d(int a, int b) {\n%s}\n' % (i, ''.join('    %s\n' % x for x in gf[i:i + 12]))
            calls += '    fill%d(a, b);\n' % i
        for i in range(0, len(gr), 12):
            fn += 'int read%d(int h) {\n%s    return h;\n}\n' % (i, ''.join('    h = (h << 1) ^ %s;\n' % x for x in gr[i:i + 12]))
            rcalls += '    out[%d] = read%d(7);\n' % (i // 12, i)
        top = ('typedef struct { int x; int y[2]; int z; } S;\ntypedef struct { int x; char c[4]; } T;\ntypedef enum { EA, EB = 5, EC } En;\n'
               'int tg[3]; char tc[4]; S ts; S tss[2];\nint dri(int *p) { return p[0]; }\nint drc(char *p) { return p[0]; }\nint drs(S *p) { return p->z; }\n'
               + '\n'.join(gd) + '\n' + fn)
        top += 'int loc(int a, int b) {\n%s%s    int h = 1;\n%s    return h;\n}\n' % (
            ''.join('    %s\n' % x for x in ld), ''.join('    %s\n' % x for x in lf),
            ''.join('    h = (h << 1) ^ %s;\n' % x for x in lr[:16]))
        body = ('    tg[0] = c; tg[1] = d; tg[2] = 5; tc[0] = 65; tc[1] = 66; tc[2] = 67; tc[3] = 68; ts.z = a; tss[1].z = b;\n'
                + calls + '    out[12] = loc(a, b);\n' + rcalls + ''.join('    %s\n' % x for x in gf[:2]) + rcalls.replace('out[', 'out[6 + '))
        out.append(('decl%03d' % k, program(body, top)))
    # linked structures: chains of -> and .
    for k in range(10 if tier == 'quick' else 80):
        body = '    N n0; N n1; N n2; N *p = &n0; H h; h.first = &n1; h.cnt = a;\n    n0.next = &n1; n1.next = &n2; n2.next = &n0;\n    n0.v = a; n1.v = b; n2.v = c; gh.first = &gn[1]; gn[1].next = &gn[2]; gn[2].next = &gn[0]; gn[0].v = d; gn[2].v = 9; gn[1].v = 4; gn[0].next = &n0;\n'
        paths = ['p->v', 'p->next->v', 'p->next->next->v', 'h.first->v', 'h.first->next->v', 'gh.first->v', 'gh.first->next->v',
                 'gh.first->next->next->v', 'n1.next->v', 'gn[1].next->v', 'h.cnt']
        for _ in range(R.randrange(2, 6)):
            if R.random() < .3:
                body += '    p = %s;\n' % R.choice(['p->next', 'h.first', '&n2', 'gh.first', 'p->next->next'])
            body += '    %s = %s;\n' % (R.choice(paths), R.choice(['in[4]', 'in[5]', '77', R.choice(paths) + ' + 1']))
        body += ''.join('    out[%d] = %s;\n' % (i, p) for i, p in enumerate(paths))
        out.append(('link%03d' % k, program(body, 'struct N_;\ntypedef struct N_ { int v; struct N_ *next; } N;\ntypedef struct { N *first; int cnt; } H;\nH gh; N gn[3];\n'
                                            if 0 else 'typedef struct N { int v; struct N *next; } N;\ntypedef struct { N *first; int cnt; } H;\nH gh; N gn[3];\n')))
    return out


# ------------------------------------------------------------------ C14: calls
def fam_c14(tier):
    out = []
    R = random.Random(1400 + SEED)
    for n in range(0, 9):
        ps = ', '.join('int p%d' % i for i in range(n))
        ex = ' + '.join('p%d * %d' % (i, 2 * i + 1) for i in range(n)) or '11'
        top = 'int g;\nint f(%s) { g = g + 1; return %s; }\nvoid v(%s) { g = %s; }\n' % (
            ps, ex, ps, ' ^ '.join('(p%d << %d)' % (i, i) for i in range(n)) or '5')
        for k in range(4 if tier == 'quick' else 30):
            arg = lambda: R.choice(['a', 'b', 'c', 'd', 'in[%d]' % R.randrange(4, 12), 'a + b', 'c - 1', '(a ^ d)', str(R.choice(EDGE)), 'l1', 'l2', '-b'])
            A = lambda: ', '.join(arg() for _ in range(n))
            body = '    int l1 = a + 3; int l2 = b ^ 9; int l3 = c - d; g = 0;\n    out[0] = f(%s);\n    int r = f(%s);\n    out[1] = r; out[2] = l1; out[3] = l2; out[4] = l3; out[5] = g;\n    v(%s); out[6] = g; l1 = f(%s); out[7] = l1 + l2 - l3; out[8] = a; out[9] = b; out[10] = c; out[11] = d;\n' % (A(), A(), A(), A())
            out.append(('par%d_%d' % (n, k), program(body, top)))
    # nested calls, calls as operands
    for k in range(40 if tier == 'quick' else 400):
        top = 'int s(int x) { return x + 1; }\nint t(int x, int y) { return x - y; }\nint u(int x, int y, int z) { return x ^ (y << 1) ^ (z << 2); }\n' \
              'int w(int a, int b, int c, int d, int e) { int k = t(a, b); int m = t(c, d); return k + m * 3 + e; }\nint z() { return 42; }\n' \
              'int x8(int a, int b, int c, int d, int e, int f, int g, int h) { return a + b * 2 - c * 3 + d * 4 - e * 5 + f * 6 - g * 7 + h * 8; }\n'

        def call(d):
            if d == 0 or R.random() < .25:
                return R.choice(['a', 'b', 'c', 'd', 'l', 'm', '3', 'in[6]'])
            f, n = R.choice([('s', 1), ('t', 2), ('u', 3), ('w', 5), ('z', 0), ('t', 2), ('u', 3), ('x8', 8)])
            e = '%s(%s)' % (f, ', '.join(call(d - 1) for _ in range(n)))
            if R.random() < .25:
                e = '%s %s %s' % (e, R.choice('+-^'), R.choice('abcd'))
            return e
        body = '    int l = a - c; int m = b + 5;\n' + ''.join('    out[%d] = %s;\n' % (i, call(R.choice([2, 2, 3]))) for i in range(3)) + \
            '    l = %s;\n    m = %s + l;\n    out[3] = l; out[4] = m; out[5] = a; out[6] = b; out[7] = c; out[8] = d; out[9] = %s + %s;\n' % (call(2), call(1), call(1), call(2))
        out.append(('nest%03d' % k, program(body, top)))
    # recursion: activations do not share locals
    rec = [
        ('int fib(int n) { if (n < 2) return n + g; int x = fib(n - 1); int y = fib(n - 2); return x + y; }', 'fib(a & 7)'),
        ('int ack(int m, int n) { if (m == 0) return n + 1; if (n == 0) return ack(m - 1, 1); return ack(m - 1, ack(m, n - 1)); }', 'ack(a & 1, b & 3)'),
        ('int od(int n);\nint ev(int n) { if (n == 0) return g; return od(n - 1); }\nint od(int n) { if (n == 0) return g + 1; return ev(n - 1); }', 'ev(a & 7)'),
        ('int h(int n, int x, int y) { int l = x + n; int r; if (n <= 0) return x - y; r = h(n - 1, y, l); return r + l * n + y; }', 'h(a & 7, c, d)'),
        ('int s(int n, int acc) { int ar[3]; ar[0] = n; ar[1] = acc; ar[2] = n + acc; if (n < 1) return acc; acc = s(n - 1, acc + g); return acc + ar[0] + ar[1] - ar[2]; }', 's(a & 3, c)'),
        ('int hanoi(int n, int x, int y, int z) { if (n == 0) return 0; int k = hanoi(n - 1, x, z, y); g = g * 3 + x - z; return k + 1 + hanoi(n - 1, y, x, z); }', 'hanoi(a & 3, b, c, d)'),
        ('int pw(int x, int n) { if (n == 0) return 1; int k = pw(x, n >> 1); if (n & 1) return k ^ x; return k + g; }', 'pw(b, a & 15)'),
    ]
    for k, (f, e) in enumerate(rec):
        out.append(('rec%d' % k, program('    g = in[8]; int l = b + 1; out[0] = %s; out[1] = l; out[2] = g; out[3] = a; out[4] = c + d;\n' % e, 'int g;\n' + f + '\n')))
    # calls through function pointers kept in structures
    for k in range(24 if tier == 'quick' else 200):
        n = R.randrange(0, 6)
        ps = ', '.join('int p%d' % i for i in range(n))
        top = 'typedef struct { int tag; int (*fn)(%s); int (*fm)(%s); int end; } F;\nF gf; F ga[3]; int g;\n' % (ps, ps)
        for j in range(3):
            top += 'int f%d(%s) { g = g + %d; return %s; }\n' % (j, ps, j, ' + '.join('p%d * %d' % (i, (j + 2) * (i + 1)) for i in range(n)) or str(j + 7))
        body = '    F l; F *p = &l; int k1 = a + 1; int k2 = b - 2; g = 0; l.tag = c; l.end = d; gf.tag = 5; gf.end = 6;\n'
        A = lambda: ', '.join(R.choice(['a', 'b', 'c', 'd', 'k1', 'k2', '9', 'in[5]']) for _ in range(n))
        for o in ('l', 'gf', 'ga[1]'):
            body += '    %s.fn = f%d;\n    %s.fm = f%d;\n' % (o, R.randrange(3), o, R.randrange(3))
        i = 0
        for _ in range(R.randrange(3, 6)):
            o = R.choice(['l.fn', 'l.fm', 'gf.fn', 'gf.fm', 'p->fn', 'p->fm', 'ga[1].fn', 'ga[1].fm'])
            body += '    out[%d] = %s(%s);\n' % (i, o, A())
            i += 1
            if R.random() < .3:
                body += '    %s = f%d;\n' % (o, R.randrange(3))
            if R.random() < .3:
                body += '    if (in[7] & %d) p = &gf;\n' % (1 << i)
        body += '    out[8] = k1; out[9] = k2; out[10] = l.tag; out[11] = l.end; out[12] = gf.tag + gf.end; out[13] = g;\n'
        out.append(('ind%03d' % k, program(body, top)))
    # main's arguments
    for k, argv in enumerate([(b'prog',), (b'prog', b'x'), (b'prog', b'hello', b'wor'), (b'./a', b'', b'q', b'123')]):
        src = HEAD + '''int work(int argc, char **argv) { int h = 0; int i; int j; char *s; for (i = 0; i < argc; i++) { s = argv[i]; for (j = 0; s[j]; j++) { h = h * 31 + s[j]; } h = h + 7; } return h; }
int main(int argc, char **argv)
{
    __syscall(SYS_READ, 0, in, 64);
    out[0] = argc; out[1] = work(argc, argv); out[2] = in[0] + argc;
    char *s = argv[0]; out[3] = s[0];
    __syscall(SYS_WRITE, 1, out, 64);
    return argc + 3;
}
'''
        out.append(('argv%d' % k, src, {'argv': argv}))
    # a value returned from every place
    for k in range(10 if tier == 'quick' else 100):
        top = 'int g;\nint f(int x, int y) {\n    int i;\n    for (i = 0; i < 3; i++) {\n        if (x >> i & 1) return y + i;\n        switch (y & 3) {\n        case %d:\n            return i * %d;\n        case %d:\n            g = g + 1;\n            break;\n        }\n    }\n    while (x > 0) { if (y & 8) return g; x = 0; }\n    return x ^ y;\n}\nvoid nop(int x) { if (x) return; g = g + 2; }\n' % (R.randrange(2), R.randrange(5), R.randrange(2, 4))
        out.append(('ret%02d' % k, program('    g = c; out[0] = f(a, b); nop(d); out[1] = g; out[2] = f(b, a) - f(c, %d); out[3] = a; out[4] = b;\n' % R.randrange(99), top)))
    return out
