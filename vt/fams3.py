"""Families about the bundled C library: programs linked with lib/c.c; the reference defines the same functions by the text
of the C standard."""
LIB = ()
REF_STRING = '''
int r_strlen(char *s) { int n = 0; while (s[n] != 0) n = n + 1; return n; }
int r_cmp(unsigned char *a, unsigned char *b, int n, int bounded)
{
    int i = 0;
    while (!bounded || i < n) {
        if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
        if (a[i] == 0) return 0;
        i = i + 1;
    }
    return 0;
}
int r_strcmp(char *a, char *b) { return r_cmp((unsigned char *) a, (unsigned char *) b, 0, 0); }
int r_strncmp(char *a, char *b, int n) { return r_cmp((unsigned char *) a, (unsigned char *) b, n, 1); }
char *r_memcpy(char *d, char *s, int n) { for (int i = 0; i < n; i++) d[i] = s[i]; return d; }
char *r_strcpy(char *d, char *s) { return r_memcpy(d, s, r_strlen(s) + 1); }
char *r_strncpy(char *d, char *s, int n)
{
    int i = 0;
    for (; i < n && s[i]; i++) d[i] = s[i];
    for (; i < n; i++) d[i] = 0;
    return d;
}
#define strlen r_strlen
#define strcmp r_strcmp
#define strncmp r_strncmp
#define memcpy r_memcpy
#define strcpy r_strcpy
#define strncpy r_strncpy
'''


def all_c16(tier):
    out = []
    big = tier != 'quick'

    def add(name, body, glob='', **o):
        if name.startswith('str') and 'cmp' in name and 'self' not in name and not o:
            # on RISC-V, where char is signed, bytes above 127 are ordered wrongly (known finding): there both operands have the
            # same top bits
            add(name, body, archs=('arm',))
            k = body.rindex('    r = str')
            same = '    for (i = 0; i < 16; i++) t[i] = t[i] & 127 | s[i] & 128;\n'
            add(name + '_top', (body[:k] + same + body[k:]).replace(' t[', '\n' + same + '    t[', 1) if 's[' in body else body[:k] + same + body[k:],
                archs=('riscv',))
            return
        src = ('char s[16]; char t[16]; char d[24]; char k[4]; int out[4];\n%sint main()\n{\n    int i, n, r;\n    char *p;\n%s'
               '    __syscall(SYS_WRITE, 1, out, 16);\n    __syscall(SYS_WRITE, 1, d, 24);\n    __syscall(SYS_WRITE, 1, s, 16);\n    return 0;\n}\n' % (glob, body))
        out.append((name, src, dict(o, flags=LIB, oracle=REF_STRING + src, deadline=60 if tier == 'quick' else 600)))

    def rd(v, n):
        return '    __syscall(SYS_READ, 0, %s, %d);\n' % (v, n)
    sign = '    out[0] = r < 0 ? 1 : 0; out[1] = r > 0 ? 1 : 0;\n'
    for n in (1, 8) + ((15,) if big else ()):
        add('strlen%d' % n, rd('s', n) + '    s[%d] = 0;\n    out[0] = strlen(s);\n    out[1] = strlen(s + 1);\n' % n if n > 1 else
            rd('s', n) + '    out[0] = strlen(s);\n')
    for a, b in ((4, 4), (2, 5), (5, 1), (0, 2), (6, 6)) + (((9, 8), (12, 12)) if big else ()):
        add('strcmp_%d_%d' % (a, b), rd('s', a) + rd('t', b) + '    s[%d] = 0; t[%d] = 0;\n    r = strcmp(s, t);\n' % (a, b) + sign)
    add('strcmp_self', rd('s', 5) + '    s[5] = 0;\n    r = strcmp(s, s);\n    out[0] = r;\n    r = strcmp(s + 1, s + 1);\n    out[1] = r;\n')
    for a, b in ((4, 4), (2, 5), (6, 3)) + (((9, 9),) if big else ()):
        add('strncmp_%d_%d' % (a, b), rd('k', 1) + rd('s', a) + rd('t', b) + '    s[%d] = 0; t[%d] = 0;\n    n = k[0] & 7;\n    r = strncmp(s, t, n);\n' % (a, b) + sign)
    add('strncmp_unterminated', rd('s', 16) + rd('t', 16) + '    r = strncmp(s + 10, t + 10, 6);\n' + sign)
    for a in (0, 1, 4, 7) + ((12,) if big else ()):
        add('strcpy_%d' % a, rd('s', a) + '    s[%d] = 0;\n' % a + rd('d', 16) + '    p = strcpy(d + 3, s);\n    out[0] = p == d + 3;\n')
        add('strncpy_%d' % a, rd('k', 1) + rd('s', a) + '    s[%d] = 0;\n' % a + rd('d', 16) + '    n = k[0] & 7;\n    p = strncpy(d + 2, s, n);\n    out[0] = p == d + 2;\n')
    add('strncpy_unterminated', rd('k', 1) + rd('s', 16) + rd('d', 12) + '    n = k[0] & 7;\n    p = strncpy(d + 1, s + 9, n);\n    out[0] = p == d + 1;\n')
    for o, q in ((0, 0), (1, 0), (0, 3), (2, 1)):
        add('memcpy_%d%d' % (o, q), rd('k', 1) + rd('s', 16) + rd('d', 14) + '    n = k[0] & %d;\n    p = memcpy(d + %d, s + %d, n);\n    out[0] = p == d + %d;\n' % (
            7 if tier == 'quick' else 11, o, q, o))
    add('memcpy_const', rd('s', 16) + rd('d', 16) + '    p = memcpy(d + 5, s, 9);\n    out[0] = p == d + 5;\n    memcpy(d, s + 15, 1);\n    memcpy(d + 2, s + 3, 0);\n')
    add('known_strcmp', rd('s', 2) + rd('t', 2) + '    s[2] = 0; t[2] = 0;\n    r = strcmp(s, t);\n' + sign, archs=('riscv',))
    add('known_strncmp', rd('s', 2) + rd('t', 2) + '    s[2] = 0; t[2] = 0;\n    r = strncmp(s, t, 2);\n' + sign, archs=('riscv',))
    # pieces put together
    add('concat', rd('s', 3) + rd('t', 3) + '    s[3] = 0; t[3] = 0;\n    strcpy(d, s);\n    strcpy(d + strlen(d), t);\n    out[0] = strlen(d);\n    r = strcmp(d, t);\n    out[1] = r == 0;\n')
    return out


def fmt_ref(fmt, width, zero, alt, conv):
    """the digits by repeated division, padding as the C standard says"""
    base = {'d': 10, 'x': 16, 'o': 8}[conv]
    return '''
int r_sprintf(char *b, char *f, int v)
{
    char g[16];
    int n = 0, k = 0, pre = 0, w;
    unsigned u = v;
    char p[2];
    int neg = %d && v < 0;
    if (neg) { u = -u; p[pre++] = '-'; }
    if (%d && v) { p[pre++] = '0'; %s }
    do { int t = u %% %du; g[k++] = 48 + t%s; u = u / %du; } while (u);
    w = %d - k - pre;
    if (!%d) while (w > 0) { b[n++] = ' '; w--; }
    for (int i = 0; i < pre; i++) b[n++] = p[i];
    if (%d) while (w > 0) { b[n++] = '0'; w--; }
    while (k) b[n++] = g[--k];
    b[n] = 0;
    return n;
}
#define sprintf r_sprintf
''' % (base == 10, alt, "p[pre++] = 'x';" if base == 16 else '', base, ' + 39 * ((t + 6) >> 4)' if base == 16 else '', base, width, zero, zero)


def fam_c17(tier):
    out = []
    big = tier != 'quick'

    def add(name, body, ref, **o):
        src = ('int in[4]; int out[4]; char buf[48];\nint main()\n{\n    int i, n;\n    __syscall(SYS_READ, 0, in, 16);\n%s'
               '    __syscall(SYS_WRITE, 1, buf, 48);\n    __syscall(SYS_WRITE, 1, out, 16);\n    return 0;\n}\n' % body)
        o.setdefault('deadline', 150 if tier == 'quick' else 900)
        o.setdefault('arith', True)
        out.append((name, src, dict(o, flags=LIB, oracle=ref + src)))
    ws = [('d', w, z, 0) for w, z in ((0, 0), (1, 0), (5, 0), (5, 1), (11, 1), (13, 0))]
    if big:
        ws += [('d', w, z, 0) for w in (2, 3, 4, 6, 7, 8, 9, 10, 11, 12, 15, 16, 20) for z in (0, 1)]
    ws += [(c, w, z, a) for c in 'xo' for w, z, a in ((0, 0, 0), (0, 0, 1), (4, 0, 0), (4, 1, 0), (9, 1, 1), (13, 0, 1), (12, 1, 0))]
    if big:
        ws += [(c, w, z, a) for c in 'xo' for w in (1, 2, 3, 7, 8, 10, 11, 16, 20) for z in (0, 1) for a in (0, 1)]
    for c, w, z, a in ws:
        f = '%' + '#' * a + '0' * z + (str(w) if w else '') + c
        add('conv_%s%s%s%d' % (c, '#' * a, '0' * z, w), '    n = sprintf(buf, "%s", in[0]);\n    out[0] = n;\n' % f, fmt_ref(f, w, z, a, c),
            arith=c == 'd')
    # text around conversions, %%, %c, %s, several arguments; the bounded print that has room
    ref = '''
static int put(char *b, int n, unsigned u, unsigned base)
{
    char g[12]; int k = 0;
    do { int t = u % base; g[k++] = 48 + t + (base == 16 ? 39 * ((t + 6) >> 4) : 0); u = u / base; } while (u);
    while (k) b[n++] = g[--k];
    return n;
}
'''
    small = '    in[0] = in[0] & 255; in[1] = in[1] & 127;\n'
    add('text', small + '    n = sprintf(buf, "a%%b %x-%c.%o%%", in[0], in[1], in[0]);\n    out[0] = n;\n', ref + '''
int r_sprintf(char *b, char *f, int x, int c, int o)
{
    int n = 0;
    b[n++] = 'a'; b[n++] = '%'; b[n++] = 'b'; b[n++] = ' '; n = put(b, n, x, 16); b[n++] = '-'; b[n++] = c; b[n++] = '.';
    n = put(b, n, o, 8); b[n++] = '%'; b[n] = 0; return n;
}
#define sprintf r_sprintf
''', arith=False)
    add('string', '    char *p = (char *) in;\n    p[3] = 0;\n    n = sprintf(buf, "<%s|%s>%x", in, "lit", in[1] & 15);\n    out[0] = n;\n'.replace('(char *) in', 'in'), ref + '''
int r_sprintf(char *b, char *f, char *s, char *t, int x)
{
    int n = 0;
    b[n++] = '<'; while (*s) b[n++] = *s++; b[n++] = '|'; while (*t) b[n++] = *t++; b[n++] = '>'; n = put(b, n, x, 16); b[n] = 0; return n;
}
#define sprintf r_sprintf
''', arith=False)
    for size in (48, 9):
        add('bounded%d' % size, '    n = snprintf(buf, %d, "%%x", in[0]);\n    out[0] = n;\n' % size, fmt_ref('%x', 0, 0, 0, 'x') +
            '#define snprintf(b, k, f, v) r_sprintf(b, f, v)\n', arith=False)
    # a bounded print of text that does not fit is cut and terminated
    for size in (0, 1, 2, 5, 8):
        add('cut%d' % size, '    char *p = in;\n    p[5] = 0;\n    n = snprintf(buf, %d, "<%%s>", in);\n    out[0] = %s;\n' % (size, 'n' if size > 0 else '0'), '''
int r_snprintf(char *b, int k, char *f, char *s)
{
    int n = 0;
    if (k == 0) return 0;
    if (n < k - 1) b[n++] = '<';
    while (*s) { if (n < k - 1) b[n++] = *s; s++; }
    if (n < k - 1) b[n++] = '>';
    b[n] = 0; return n;
}
#define snprintf r_snprintf
''', arith=False)
    # printf itself: the text goes to the standard output
    add('printf', '    printf("%x:%c;", in[0] & 4095, (in[1] & 63) + 32);\n', ref + '''
int r_printf(char *f, int x, int c)
{
    char b[20]; int n = put(b, 0, x, 16);
    b[n++] = ':'; b[n++] = c; b[n++] = ';';
    return __syscall(SYS_WRITE, 1, b, n);
}
#define printf r_printf
''', arith=False)
    return out


REF_ALLOC = '''
char r_pool[400000];
int r_top;
char *r_malloc(int n) { char *p = r_pool + r_top; if (n <= 0 || n > 50000) return 0; r_top = r_top + n + 16; return p; }
char *r_calloc(int n, int size) { if (size && n > 50000 / size) return 0; return r_malloc(n * size); }
void r_free(char *p) { }
#define malloc r_malloc
#define calloc r_calloc
#define free r_free
'''


def all_c18(tier):
    """histories of malloc, calloc and free over four slots; every live block is marked at its ends and in the middle, and all marks
    are checked after every step"""
    import random
    out = []
    big = tier != 'quick'
    TOP = '''char in[16]; int out[4]; char *p[4]; int sz[4]; int bad;
char *at(int i) { return p[i]; }
void mark(int i)
{
    char *q = at(i);
    int n = sz[i];
    q[0] = 17 + i; q[n - 1] = 33 + i;
    if (n > 16) { q[n >> 1] = 65 + i; q[n - 5] = 97 + i; q[3] = 113 + i; }
}
void check()
{
    for (int i = 0; i < 4; i++) {
        if (sz[i]) {
            char *q = at(i);
            int n = sz[i];
            if (n > 1 && q[0] != 17 + i) bad = bad + 1;
            if (q[n - 1] != 33 + i) bad = bad + 1;
            if (n > 16) { if (q[n >> 1] != 65 + i || q[n - 5] != 97 + i || q[3] != 113 + i) bad = bad + 1; }
        }
    }
}
void get(int i, int n)
{
    char *q = malloc(n);
    if (!q) { bad = bad + 100; return; }
    p[i] = q; sz[i] = n;
    mark(i); check();
}
void zero(int i, int n, int size)
{
    char *q = calloc(n, size);
    int k = n * size;
    if (!q) { bad = bad + 100; return; }
    for (int j = 0; j < k && j < 20; j++) if (q[j]) bad = bad + 1000;
    if (k > 20) for (int j = k - 12; j < k; j++) if (q[j]) bad = bad + 1000;
    if (q[k >> 1]) bad = bad + 1000;
    p[i] = q; sz[i] = k;
    mark(i); check();
}
void drop(int i)
{
    if (sz[i]) { free(at(i)); sz[i] = 0; }
    check();
}
int pick(int c)
{
    c = c & 3;
    if (c == 0) return S0;
    if (c == 1) return S1;
    if (c == 2) return S2;
    return S3;
}
'''

    def add(name, body, sizes=(1, 4000, 4084, 9000), **o):
        t = TOP
        for i, v in enumerate(sizes):
            t = t.replace('S%d' % i, str(v))
        src = t + 'int main()\n{\n    __syscall(SYS_READ, 0, in, 16);\n' + body + '    out[0] = bad;\n    __syscall(SYS_WRITE, 1, out, 16);\n    return 0;\n}\n'
        o.setdefault('deadline', 60 if tier == 'quick' else 600)
        out.append((name, src, dict(o, flags=LIB, oracle=REF_ALLOC + src, max_steps=600000)))
    # a request within 12 bytes of the end of a freed chunk gets that chunk (known finding): sizes avoid n % 4096 > 4084
    S = [(1, 4000, 4084, 9000), (4084, 4097, 4083, 8180), (12, 100, 4084, 4100), (8179, 8196, 8170, 4)]
    for k, ss in enumerate(S):
        add('reuse%d' % k, '    get(0, pick(in[0]));\n    get(1, pick(in[1]));\n    drop(in[2] & 1);\n    get(2, pick(in[3]));\n    get(3, 50);\n', ss)
        add('zero%d' % k, '    get(0, pick(in[0]));\n    drop(0);\n    zero(1, 1, pick(in[1]));\n    get(2, 30);\n', ss)
        add('two%d' % k, '    get(0, pick(in[0]));\n    get(1, pick(in[1]));\n    drop(0);\n    drop(1);\n    get(2, pick(in[2]));\n    get(3, pick(in[2] >> 2));\n', ss)
    # any order of freeing, then everything again
    add('orders', '    get(0, 40); get(1, 5000); get(2, 100); get(3, 9000);\n    drop(in[0] & 3); drop(in[1] & 3); drop(in[2] & 3);\n'
        '    for (int i = 0; i < 4; i++) if (!sz[i]) get(i, 3000 * (i + 1));\n')
    add('orders2', '    get(0, 40); get(1, 50); get(2, 60);\n    drop(in[0] & 3); drop(in[1] & 3);\n    get(3, 70);\n    drop(in[2] & 3); drop(in[3] & 3);\n'
        '    for (int i = 0; i < 4; i++) if (!sz[i]) get(i, 80);\n')
    add('pingpong', '    for (int i = 0; i < 4; i++) { get(0, pick(in[i])); drop(0); }\n    get(1, 20); get(2, 20);\n', (30, 4100, 4083, 8180))
    add('any', '    get(0, (in[0] & 15) + 4069);\n    drop(0);\n    get(1, (in[1] & 15) + 4069);\n    get(2, 10);\n')
    add('anyzero', '    get(0, pick(in[0]));\n    drop(0);\n    zero(1, pick(in[1]), pick(in[2]));\n    zero(2, 3, 7);\n', (1, 2, 5, 7))
    add('dirty', '    char *q = malloc(64);\n    for (int i = 0; i < 64; i++) q[i] = in[i & 15];\n    free(q);\n    zero(0, (in[0] & 31) + 1, 1);\n')
    add('words', '    zero(0, 5, 4); zero(1, 2, 3); zero(2, 1, 1);\n    drop(in[0] & 3);\n    zero(3, 9, 5);\n')
    add('known_fits', '    get(0, 4000);\n    drop(0);\n    get(1, (in[0] & 15) + 4080);\n    get(2, 10);\n')
    add('known_overflow', '    char *q = calloc(65536, 65537);\n    if (q) bad = bad + 1;\n    q = calloc(0x40000000, 4);\n    if (q) bad = bad + 2;\n'
        '    get(0, 10);\n')
    add('null', '    get(0, 10);\n    free(0);\n    get(1, 10);\n    drop(0);\n    free(0);\n    get(2, 10);\n')
    R = random.Random(18)
    for k in range(14 if not big else 120):
        b = ''
        live = set()
        for j in range(7 if not big else 10):
            i = R.randrange(4)
            if i in live:
                b += '    drop(%d);\n' % i
                live.discard(i)
            else:
                x = R.randrange(4)
                b += ('    zero(%d, pick(in[%d]), 1);\n' if x == 0 else '    get(%d, pick(in[%d]));\n') % (i, R.randrange(3)) if x < 3 else \
                     '    get(%d, %d);\n' % (i, R.choice((5, 90, 4080, 4084, 4097, 8200)))
                live.add(i)
        add('history%02d' % k, b, R.choice(S))
    return out


def fam_c16(tier):
    return [p for p in all_c16(tier) if 'known' not in p[0]]


def fam_c18(tier):
    return [p for p in all_c18(tier) if 'known' not in p[0]]


def known():
    return {p[0]: p for f in (all_c16, all_c18) for p in f('quick') if 'known' in p[0]}
