"""Program families: every program is valid C within the language shecc accepts, reads 16 symbolic words and
writes 16 result words.  Constructs listed in DESIGN.md ("outside the families") are not generated."""
import random

HEAD = 'int in[16]; int out[16];\n'


def program(body, top='', locals_='int a,b,c,d;'):
    return (HEAD + top + '\nint main()\n{\n    ' + locals_ + '\n    __syscall(SYS_READ, 0, in, 64);\n'
            '    a = in[0]; b = in[1]; c = in[2]; d = in[3];\n' + body +
            '\n    __syscall(SYS_WRITE, 1, out, 64);\n    return 0;\n}\n')


# ---------------------------------------------------------------- expressions (C11)
LIGHT = ['+', '-', '+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '<', '<=', '>', '>=', '==', '!=', '&', '|', '^',
         '<', '==']
BIN = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '<', '<=', '>', '>=', '==', '!=', '&&', '||']
PREC = {'?': 3, '||': 4, '&&': 5, '|': 6, '^': 7, '&': 8, '==': 9, '!=': 9, '<': 10, '<=': 10, '>': 10, '>=': 10,
        '<<': 11, '>>': 11, '+': 12, '-': 12, '*': 13, '/': 13, '%': 13}
LOGIC = ('&&', '||')


def nlogic(e):
    return sum(e.count(o) for o in LOGIC) + e.count('?')


def pack(exprs, per, budget, top='', pre='', name='x', locals_='int a,b,c,d;'):
    """programs computing `per` expressions each; at most `budget` branching operators per program"""
    progs, cur, br = [], [], 0
    for e in exprs:
        k = nlogic(e)
        if cur and (len(cur) >= per or br + k > budget):
            progs.append(cur)
            cur, br = [], 0
        cur.append(e)
        br += k
    if cur:
        progs.append(cur)
    res = []
    for i, p in enumerate(progs):
        body = pre + ''.join('    out[%d] = %s;\n' % (j, e) for j, e in enumerate(p))
        res.append(('%s%03d' % (name, i), program(body, top, locals_)))
    return res


def render(t, parent=0, right=False):
    """expression tree -> text with the fewest parentheses C's grammar needs"""
    k = t[0]
    if k == 'leaf':
        return t[1]
    if k == 'un':
        s = render(t[2], 14)
        if t[1] == '-' and t[2][0] == 'un':
            s = '(' + s + ')'
        if t[1] == '-' and s[0] in '-*&':
            s = '(' + s + ')'
        s = t[1] + s
        return s
    if k == 'par':
        return '(' + render(t[1]) + ')'
    if k == '?':
        s = '%s ? %s : %s' % (render(t[1], 4), render(t[2]), render(t[3], 3))
        return '(' + s + ')' if parent > 3 else s
    op = t[1]
    p = PREC[op]
    s = '%s %s %s' % (render(t[2], p), op, render(t[3], p + 1))
    return '(' + s + ')' if p < parent else s


def rand_tree(R, depth, leaves, ops, un=True, tern=0.0):
    if depth == 0 or R.random() < .12:
        x = ('leaf', R.choice(leaves))
        if un and R.random() < .15:
            x = ('un', R.choice('-~!'), x)
        return x
    r = R.random()
    if r < tern:
        return ('?', rand_tree(R, depth - 1, leaves, ops, un, tern), rand_tree(R, depth - 1, leaves, ops, un, tern),
                rand_tree(R, depth - 1, leaves, ops, un, tern))
    if un and r < tern + .08:
        return ('un', R.choice('-~!'), ('par', rand_tree(R, depth - 1, leaves, ops, un, tern)))
    if r < tern + .14:
        return ('par', rand_tree(R, depth - 1, leaves, ops, un, tern))
    return ('bin', R.choice(ops), rand_tree(R, depth - 1, leaves, ops, un, tern),
            rand_tree(R, depth - 1, leaves, ops, un, tern))


def fam_c11(tier):
    """(name, source) pairs"""
    out = []
    B = BIN
    out += pack(['a %s b %s c' % (o, p) for o in B for p in B], 12, 3, name='pair')
    out += pack([e % (o, p) for o in B for p in B for e in ('(a %s b) %s c', 'a %s (b %s c)')], 12, 3, name='paren')
    tr = [(o, p, q) for o in B for p in B for q in B]
    R = random.Random(11)
    if tier == 'quick':
        tr = R.sample(tr, 1500)
    out += pack(['a %s b %s c %s d' % t for t in tr], 12, 3, name='triple')
    # unary operators against every binary operator
    un = []
    for u in ('-', '~', '!', '!!', '~~', '~-', '!-', '-(-', '!~'):
        def ap(x):
            return u + x + ')' if '(' in u else u + x
        for o in B:
            un += ['%s %s b' % (ap('a'), o), 'a %s %s' % (o, ap('b')), '%s %s %s' % (ap('a'), o, ap('b')),
                   '%s %s c' % (ap('(a %s b)' % o), o)]
    out += pack(un, 12, 3, name='un')
    # primaries of every shape next to every operator
    top = ('typedef struct { int x; int y; } P;\nP gs[3]; int ga[4]; int gv;\n'
           'int f(int x, int y) { return x + y * 3; }\nint g0() { return gv; }\ntypedef enum { EK = 11 } En;\n')
    pre = ('    P s; P *q = &s; int *p = ga; s.x = a; s.y = b; gs[1].x = c; gs[2].y = d; ga[0] = b; ga[1] = c; ga[2] = d;\n'
           '    ga[3] = a; gv = in[4]; char ch[4]; ch[0] = 5; ch[1] = 7; int k = c & 3;\n')
    prim = ['*p', 'p[1]', 'ga[k]', 's.x', 'q->y', 'gs[1].x', 'f(a, b)', 'g0()', '(a)', '5', "'A'", 'gv', 'EK', 'ch[1]',
            '*(p + 1)', '(*p)', 'p[k]', '-7', '&ga[1] == p', 'f(a + 1, b - 2)', 'ga[ga[0] & 1]']
    prim = [x for x in prim if '==' not in x]
    pr = []
    for x in prim:
        for o in B:
            pr += ['%s %s b' % (x, o), 'a %s %s' % (o, x), '!%s %s c' % (x, o)] if not x.startswith('-') else \
                ['a %s %s' % (o, x)]
    for x in prim:
        pr += ['%s %s %s' % (x, R.choice(B), R.choice(prim)) for _ in range(4)]
    out += pack(pr, 12, 3, top, pre, name='prim')
    # conditional operator
    te = []
    for o in B:
        te += ['a %s b ? c : d' % o, 'a ? b %s c : d' % o, 'a ? b : c %s d' % o, '(a ? b : c) %s d' % o,
               'a %s (b ? c : d)' % o, 'a %s b ? c %s d : c %s a' % (o, R.choice(B), R.choice(B))]
    te += ['a ? b : c ? d : a', 'a ? b ? c : d : a', 'a ? b : c ? d : a ? b : c', 'a ? (b ? c : d) : (c ? d : a)',
           '(a ? b : c) ? d : a', 'a ? 1 : b ? 2 : c ? 3 : d ? 4 : 5', '!a ? b : -c', '-(a ? b : c)', '~(a ? b : c)',
           '(a ? b : c) + (c ? d : a)', '(a ? b : c) * (c ? d : a)']
    out += pack(te, 12, 4, name='tern')
    # random trees over everything
    n = 260 if tier == 'quick' else 2500
    R = random.Random(1111)
    leaves = ['a', 'b', 'c', 'd', '*p', 'p[1]', 's.x', 'q->y', 'f(a, b)', 'gv', '3', '10', 'gs[1].x', 'ga[k]', 'EK']
    ex = []
    for i in range(n):
        t = rand_tree(R, R.choice([3, 3, 4, 5]), leaves, LIGHT if i % 3 else LIGHT + ['&&', '||'], True, .0 if i % 4 else .12)
        e = render(t)
        if nlogic(e) <= 5:
            ex.append(e)
    out += pack(ex, 6, 5, top, pre, name='rand')
    # contexts in which an expression may stand
    R = random.Random(1112)
    for i in range(24 if tier == 'quick' else 300):
        es = []
        while len(es) < 6:
            e = render(rand_tree(R, 3, ['a', 'b', 'c', 'd', '2', '9'], LIGHT + ['&&', '||'], True, 0))
            if nlogic(e) <= 2:
                es.append(e)
        body = ('    if (%s) out[0] = 1; else out[0] = 2;\n    out[1] = h(%s);\n    out[2] = in[(%s) & 7];\n'
                '    int n = 0; while (%s) { n++; if (n > 1) break; } out[3] = n;\n    int v = %s; out[4] = v; v += %s; out[5] = v;\n'
                % tuple(es))
        out.append(('ctx%03d' % i, program(body, 'int h(int x) { return x ^ 5; }\n')))
    # compound assignment
    ca = []
    for o in ('+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^'):
        for p in B[:16]:
            ca.append('    x = a; x %s= b %s c; out[@] = x;\n' % (o, p))
    for i in range(0, len(ca), 10):
        out.append(('cas%03d' % (i // 10), program('    int x;\n' + ''.join(s.replace('@', str(k)) for k, s in enumerate(ca[i:i + 10])))))
    return out


# ---------------------------------------------------------------- statements (C08, C12, C21)
class Stmts:
    """random structured code over int variables; every branch decision is a symbolic bit or a bounded counter"""

    def __init__(self, R, nvars=4, trace=True, calls=True, shadow=False, depth=3, decisions=6, goto=False, arrays=True,
                 globals_=True, size=3, dead=0, chars=False):
        self.dead = dead
        self.chars = chars
        self.R, self.trace, self.calls, self.shadow, self.depth = R, trace, calls, shadow, depth
        self.left, self.size, self.arrays, self.globals_ = decisions, size, arrays, globals_
        self.uniq = 0
        self.scopes = [['v%d' % i for i in range(nvars)]]
        self.loop = 0
        self.sw = 0
        self.ident = 0

    def vars(self):
        seen, res = set(), []
        for sc in reversed(self.scopes):
            for v in sc:
                if v not in seen:
                    seen.add(v)
                    res.append(v)
        return res

    def var(self):
        return self.R.choice(self.vars())

    def atom(self):
        R = self.R
        r = R.random()
        if r < .6:
            return self.var()
        if r < .72:
            return str(R.choice([0, 1, 2, 3, 5, 7, 100, 255, 4096, 65537]))
        if r < .82:
            return 'in[%d]' % R.randrange(12)
        if self.globals_ and r < .92:
            return R.choice(['g0', 'g1'])
        if self.chars and R.random() < .7:
            return R.choice(['cs[k0]', 'cs[k1]', 'cs[k0]', 'cs[0]', 'cs[3]', 'ip[k0]'])
        if self.arrays:
            return 'ar[%d]' % R.randrange(4)
        return self.var()

    def expr(self, d=2):
        R = self.R
        if d == 0 or R.random() < .25:
            return self.atom()
        if R.random() < .08:
            return '(%s %s)' % (R.choice(['-', '~', '!']), self.var())
        return '(%s %s %s)' % (self.expr(d - 1), R.choice(['+', '-', '^', '&', '|', '+', '-', '^']), self.expr(d - 1))

    def cond(self):
        """a decision; uses up part of the path budget"""
        R = self.R
        self.left -= 1
        bit = '(in[%d] >> %d & 1)' % (12 + R.randrange(4), R.randrange(20))
        r = R.random()
        if r < .3:
            return bit
        if r < .55:
            return '%s %s %s' % (self.var(), R.choice(['<', '>', '==', '!=', '<=', '>=']), self.atom())
        if r < .65:
            return '!%s' % bit
        if r < .75:
            return '%s' % self.var()
        self.left -= 1
        return '%s %s %s' % (bit, R.choice(['&&', '||']), R.choice([
            '%s > %s' % (self.var(), self.atom()), self.var(),
            'e(%d, %s)' % (self.nid(), self.var()) if self.calls else self.var()]))

    def nid(self):
        self.ident += 1
        return self.ident

    def tr(self, ind):
        return ind + 't = t * 31 + %d;\n' % self.nid() if self.trace else ''

    def assign(self, ind):
        R = self.R
        v = self.var()
        r = R.random()
        if self.calls and r < .1:
            return ind + '%s = f%d(%s, %s);\n' % (v, R.randrange(2), self.atom(), self.atom())
        if r < .5:
            return ind + '%s = %s;\n' % (v, self.expr(R.choice([1, 2, 2, 3])))
        if r < .62:
            return ind + '%s %s= %s;\n' % (v, R.choice(['+', '-', '^', '|', '&']), self.expr(1))
        if r < .7:
            return ind + R.choice(['%s++;\n', '%s--;\n']) % v
        if self.globals_ and r < .8:
            return ind + '%s = %s;\n' % (R.choice(['g0', 'g1']), self.expr(1))
        if self.chars and r < .84:
            el = R.choice(['cs[k0]', 'cs[k1]', 'ip[k0]'])
            w = self.var()
            return ind + R.choice(['%s = %s; %s = %s;\n' % (w, el, el, w), '%s = %s; %s = %s; %s = %s;\n' % (w, el, el, self.atom(), v, el),
                                   '%s = %s; %s = %s + 1;\n' % (w, el, el, w)])
        if self.chars and r < .88:
            return ind + '%s = %s;\n' % (R.choice(['cs[k0]', 'cs[k1]', 'cs[0]', 'cs[2]', 'ip[k1]']), self.expr(1))
        if self.chars and r < .89:
            return ind + 'k0 = %s & 3;\n' % self.atom()
        if self.arrays and r < .9:
            return ind + 'ar[%d] = %s;\n' % (R.randrange(4), self.expr(1))
        if self.left > 0 and r < .95:
            return ind + '%s = %s ? %s : %s;\n' % (v, '(%s)' % self.cond(), self.expr(1), self.expr(1))
        return ind + '%s = %s;\n' % (v, self.expr(1))

    def block(self, d, ind):
        R = self.R
        s = ''
        self.scopes.append([])
        if self.shadow and R.random() < .7:
            for _ in range(R.randrange(1, 3)):
                outer = self.vars()
                n = R.choice(outer) if R.random() < .75 else R.choice(['w%d' % R.randrange(4), 'g0', 'p1', 'q'])
                if n in self.scopes[-1]:
                    continue
                init = self.expr(1)
                if n in init.replace('(', ' ').replace(')', ' ').replace(',', ' ').split():
                    init = str(R.randrange(50))
                s += ind + 'int %s = %s;\n' % (n, init)
                self.scopes[-1].append(n)
        for _ in range(R.randrange(1, self.size + 1)):
            s += self.stmt(d - 1, ind)
        self.scopes.pop()
        return s

    def stmt(self, d, ind):
        """a statement, now and then followed by a jump that leaves what follows unreachable"""
        s = self.stmt1(d, ind)
        R = self.R
        if self.dead and R.random() < self.dead:
            k = R.random()
            if self.loop and k < .6:
                s += ind + R.choice(['break;\n', 'continue;\n'])
            elif k < .75:
                s += ind + 'return %s;\n' % self.expr(1)
        return s

    def stmt1(self, d, ind):
        R = self.R
        s = self.tr(ind) if R.random() < .6 else ''
        if d <= 0 or self.left <= 0:
            s += self.assign(ind)
            if self.calls and R.random() < .15:
                s += ind + 'f%d(%s, %s);\n' % (R.randrange(2), self.atom(), self.atom())
            if self.loop and self.left > 0 and R.random() < .2:
                s += ind + 'if (%s) %s;\n' % (self.cond(), R.choice(['break', 'continue']))
            return s
        k = R.random()
        i2 = ind + '    '
        if k < .3:
            s += ind + 'if (%s) {\n%s%s}' % (self.cond(), self.block(d, i2), ind)
            if R.random() < .6:
                if R.random() < .3 and self.left > 0:
                    s += ' else if (%s) {\n%s%s}' % (self.cond(), self.block(d, i2), ind)
                s += ' else {\n%s%s}' % (self.block(d, i2), ind)
            s += '\n'
        elif k < .36:
            s += ind + 'if (%s)\n%s' % (self.cond(), i2 + self.assign('').strip() + '\n')
            if R.random() < .5:
                s += ind + 'else\n' + i2 + self.assign('').strip() + '\n'
        elif k < .48:
            self.uniq += 1
            n = 'n%d' % self.uniq
            self.loop += 1
            sw, self.sw = self.sw, 0
            c = self.cond()
            b = self.block(d, i2)
            self.loop -= 1
            self.sw = sw
            s += ind + 'int %s = 0;\n' % n
            s += ind + 'while (%s) {\n%s%s++;\n%sif (%s > 2) break;\n%s%s}\n' % (c, i2, n, i2, n, b, ind)
        elif k < .62:
            self.uniq += 1
            n = 'i%d' % self.uniq
            if self.shadow and R.random() < .6:
                two = R.choice(self.vars() + ['w0', 'w1'])
                init = str(R.randrange(60))
                self.scopes.append([two])
                self.loop += 1
                b = self.block(d, i2)
                self.loop -= 1
                self.scopes.pop()
                if R.random() < .5:
                    s += ind + 'for (int %s = 0, %s = %s; %s < %d; %s++) {\n' % (n, two, init, n, R.randrange(1, 4), n)
                    b += i2 + '%s = %s + 1;\n' % (two, two)
                else:
                    s += ind + 'for (int %s = %s, %s = 0; %s < %d; %s++) {\n' % (two, init, n, n, R.randrange(1, 4), n)
                s += b + ind + '}\n'
                return s
            self.loop += 1
            b = self.block(d, i2)
            self.loop -= 1
            s += ind + R.choice(['int %s;\n%sfor (%s = 0; %s < %d; %s++) {\n' % (n, ind, n, n, R.randrange(1, 4), n),
                                 'for (int %s = 0; %s < %d; %s++) {\n' % (n, n, R.randrange(1, 4), n),
                                 'for (int %s = %d; %s > 0; %s--) {\n' % (n, R.randrange(1, 4), n, n)])
            s += b + ind + '}\n'
        elif k < .7:
            self.uniq += 1
            n = 'm%d' % self.uniq
            self.loop += 1
            b = self.block(d, i2)
            self.loop -= 1
            s += ind + 'int %s = 0;\n' % n
            s += ind + 'do {\n%s%s++;\n%s%s} while (%s < %d);\n' % (i2, n, b, ind, n, R.randrange(1, 3))
        elif k < .85:
            self.left -= 2
            s += ind + 'switch (%s & 3) {\n' % R.choice(['in[%d]' % (12 + R.randrange(4)), self.var()])
            vals = R.sample(range(4), R.randrange(1, 4))
            lp, self.loop = self.loop, 0
            for v in vals:
                s += ind + 'case %d:\n' % v
                if R.random() < .15:
                    continue
                s += self.tr(i2) + self.assign(i2)
                r = R.random()
                if r < .2 and self.calls:
                    s += i2 + 'f%d(%s, %s);\n' % (R.randrange(2), self.atom(), self.atom())
                elif r < .4 and d > 1 and self.left > 0:
                    s += i2 + '{\n%s%s}\n' % (self.block(d - 1, i2 + '    '), i2)
                if lp and R.random() < .15:
                    s += i2 + R.choice(['continue;\n', 'if (%s) continue;\n' % self.cond()])
                if R.random() < .25 and self.left > 0:
                    s += i2 + 'if (%s) break;\n' % self.cond()
                if R.random() < .6:
                    s += i2 + 'break;\n'
            if R.random() < .6:
                s += ind + 'default:\n' + self.tr(i2) + self.assign(i2)
                if R.random() < .5:
                    s += i2 + 'break;\n'
            elif s.endswith(':\n'):
                s += i2 + 'break;\n'
            self.loop = lp
            s += ind + '}\n'
        elif k < .92:
            s += ind + '{\n%s%s}\n' % (self.block(d, i2), ind)
        elif k < .95 and self.calls:
            s += ind + '%s = r(%s, %s);\n' % (self.var(), self.atom(), self.var())
        elif k < .97 and not self.loop:
            s += ind + 'if (%s) return %s;\n' % (self.cond(), self.expr(1))
        else:
            s += self.assign(ind)
        return s


STOP = '''int g0; int g1; int t; int ar[4];
int f0(int x, int y) { g0 = g0 + x; return x - y; }
int f1(int x, int y) { if (x > y) return g1; g1 = y; ar[1] = x; return x + 1; }
int e(int k, int v) { t = t * 31 + k; return v; }
int r(int n, int x) { if ((n & 3) == 0) return x; return r((n & 3) - 1, x + g0) + 1; }
'''


def stmts_program(seed, fname='work', **kw):
    R = random.Random(seed)
    g = Stmts(R, **kw)
    nv = len(g.scopes[0])
    body = ''
    if g.chars:
        body += '    char *cs = cg; int *ip = ar; int k0 = p0 & 3; int k1 = p1 & 3;\n'
    for _ in range(R.randrange(3, 7)):
        body += g.stmt(g.depth, '    ')
    decl = ''.join('    int v%d = %s;\n' % (i, R.choice(['in[%d]' % i, 'p%d' % (i % 2), str(R.randrange(9))]))
                   for i in range(nv))
    ret = ' ^ '.join('v%d * %d' % (i, 2 * i + 1) for i in range(nv))
    top = (STOP.replace('int ar[4];', 'int ar[4]; char cg[4];').replace('ar[1] = x; return x + 1', 'ar[1] = x; cg[x & 3] = y; return x + 1')
           if g.chars else STOP) + 'int %s(int p0, int p1)\n{\n%s%s    return %s;\n}\n' % (fname, decl, body, ret)
    main = ('    g0 = c; g1 = d; t = 1; ar[0] = a; ar[3] = b;\n    out[0] = %s(a, b);\n    out[1] = g0; out[2] = g1; out[3] = t;\n'
            '    out[4] = ar[0]; out[5] = ar[1]; out[6] = ar[2]; out[7] = ar[3];\n' % fname)
    if g.chars:
        main += '    out[8] = cg[0]; out[9] = cg[1]; out[10] = cg[2]; out[11] = cg[3];\n'
    return program(main, top)


def fam_stmts(tag, base, n, **kw):
    return [('%s%04d' % (tag, i), stmts_program(base + i, **kw)) for i in range(n)]


def sized(tier, quick, thorough, decisions):
    """(number of programs, branch decisions per program)"""
    return (quick, min(decisions, 4)) if tier == 'quick' else (thorough, decisions)


def fam_c12(tier):
    n, d = sized(tier, 150, 3000, 6)
    out = fam_stmts('ctl', 120000, n, depth=3, decisions=d)
    out += fam_stmts('deep', 125000, n // 3, depth=5, decisions=d, size=2, nvars=2)
    out += fam_stmts('eff', 127000, n // 4, depth=2, decisions=d, nvars=2, arrays=False)
    out += fam_stmts('dead', 129000, n // 3, depth=3, decisions=d, nvars=2, dead=.12)
    return out


def fam_c21(tier):
    n, d = sized(tier, 140, 2500, 4)
    return fam_stmts('scope', 210000, n, depth=4, decisions=d, shadow=True, size=3) + \
        fam_stmts('scopef', 215000, n // 3, depth=3, decisions=d, shadow=True, calls=True, nvars=3)


def fam_c08(tier):
    n, d = sized(tier, 140, 3000, 6)
    return fam_stmts('ssa', 80000, n, depth=3, decisions=d, nvars=5, trace=False) + \
        fam_stmts('ssb', 85000, n // 2, depth=4, decisions=d, nvars=3, trace=False, size=4, calls=False) + \
        fam_stmts('ssc', 87000, n // 2, depth=2, decisions=min(d, 3), nvars=3, trace=False, size=4, chars=True)
