"""C19: macros and conditional groups.  The reference is the same text, preprocessed by clang."""
import os
import random

from .gen import BIN, LIGHT, program, rand_tree, render

SEED = 0
CHEAP = [o for o in LIGHT if o not in '*/%']


def expr(R, leaves, depth=2, un=True):
    return render(rand_tree(R, depth, leaves, ['+', '-', '&', '|', '^', '<', '==', '>='], un))


def spell(R, v):
    return R.choice(['%d', '0x%x', '0%o', '0X%X']) % v if v else '0'


def objects(R, i):
    """names that stand for one token"""
    top, body, n = 'int glob = 77; int tab[4];\nint twice(int v) { return v * 2; }\ntypedef enum { RED = 5, GREEN } colour;\n', '', 0
    vals = {}
    live = []
    for k in range(8):
        kind = R.randrange(7)
        name = R.choice(['M%d', 'm_%d', 'LONG_NAME_OF_A_MACRO_%d', '_x%d']) % k
        if kind == 0:
            top += '#define %s %s\n' % (name, spell(R, R.choice([0, 1, 7, 255, 256, 4096, 65535, 0x7fffffff, R.randrange(1 << 30)])))
            live.append(name)
        elif kind == 1:
            top += '#define %s %s\n' % (name, R.choice(['glob', 'RED', 'GREEN']))
            live.append(name)
        elif kind == 2:
            top += '#define %s %s\n' % (name, R.choice(['a', 'b', 'c']))
            live.append(name)
        elif kind == 3 and live:
            # a name for a name
            top += '#define %s %s\n' % (name, R.choice([x for x in live if x.isidentifier()] or ['a']))
            live.append(name)
        elif kind == 4:
            top += '#define %s twice\n' % name
            live.append('%s(%s)' % (name, R.choice(['a', 'b + 1', 'c & 15'])))
        elif kind == 5:
            top += '#define %s\n' % name
            live.append('%s %s' % (name, R.choice(['a', 'b', '3'])))
            live.append('(c %s ^ 9)' % name)
        else:
            s = ''.join(R.choice('abcdefgh') for _ in range(R.randrange(1, 6)))
            top += '#define %s "%s"\n' % (name, s)
            body += '    char *s%d = %s; out[%d] = s%d[%d];\n' % (k, name, 15 - k, k, R.randrange(len(s) + 1))
        if R.random() < .25 and live and live[-1] == name:
            # another value from here on
            top += 'int before%d(int a, int b, int c) { return %s + (c & 1); }\n#undef %s\n#define %s %s\n' % (k, name, name, name, R.choice(['31', 'b', 'glob']))
            body += '    out[%d] = before%d(b, c, a);\n' % (8 + (k & 3), k)
        elif R.random() < .15 and live and live[-1] == name and kind < 2:
            # an ordinary name again
            top += 'int use%d(int a, int b, int c) { return %s + 1; }\n#undef %s\nint %s = 1234;\n' % (k, name, name, name)
            body += '    out[%d] = use%d(b, c, a);\n' % (12 + (k & 1), k)
    for j in range(6):
        body += '    out[%d] = %s;\n' % (j, expr(R, live + ['a', 'b'], 2))
    return program(body, top)


BODIES = [  # (parameters, body); every parameter is safe to replace by any expression in these places
    ('x', '(x)'), ('x', '((x) + 1)'), ('x', '(x) + 1'), ('x', '-(x)'), ('x, y', '((x) - (y))'), ('x, y', '(x) - (y)'),
    ('x, y', '((x) > (y) ? (x) : (y))'), ('x, y, z', '((x) & (y) | (z))'), ('x, y', 'two((x), (y))'), ('x, y', 'two(x, y)'),
    ('x, y', 'two(y, x) ^ (x)'), ('x', 'tab[(x) & 3]'), ('x', 'tab[x & 3] + (x)'), ('x', '(!(x) && glob)'), ('x, y', '(~(x) ^ glob) + (y)'),
    ('x, y', '((x) << ((y) & 7))'), ('x', 'one((x) + (x))'), ('a', '((a) + b)'), ('b', 'one(b) - (b)'), ('a, b', '((b) - (a))'),
    ('x, y', '((x) == (y) || (x) < 0)'), ('x, y, z', '(x) ? (y) : (z)'), ('x', '100'), ('x, y', '(y)')]
SIMPLE = [('x', 'x + 1'), ('x', 'x - glob'), ('x, y', 'x - y'), ('x, y', 'x & y'), ('x, y', 'x < y'), ('x, y', 'x == y'), ('x', '2 - x'), ('x, y', 'y << 2 | x')]


def functions(R, i):
    """macros with arguments, used in every position of an expression"""
    top = ('int glob = 7; int tab[4];\nint one(int v) { return v ^ 21; }\nint two(int v, int w) { return v - w * 2; }\n')
    body = '    for (int i = 0; i < 4; i++) tab[i] = in[i + 4];\n    int k = d;\n'
    macs = []
    for k in range(4):
        simple = R.random() < .35
        ps, b = R.choice(SIMPLE if simple else BODIES)
        name = 'F%d' % k
        if R.random() < .3:
            cut = b.split(' ')
            p = R.randrange(len(cut))
            b = ' '.join(cut[:p]) + ' \\\n    ' + ' '.join(cut[p:])
        if R.random() < .2:
            b += R.choice([' ', '\t', ' // note', ' /* note */'])
        top += '#define %s(%s) %s\n' % (name, ps if R.random() < .7 else ps.replace(', ', ','), b)
        macs.append((name, ps.count(',') + 1, simple, '?' in b and b[0] != '(' or b.startswith('(x) ?')))

    def arg(simple):
        if simple:
            return R.choice(['a', 'b', 'c', '5', '0x10', 'tab[1]', 'one(b)', 'tab[a & 3]', '(a + b)', 'two(a, b)'])
        return R.choice([expr(R, ['a', 'b', 'c', 'k', '3', 'tab[2]', 'one(a)', 'two(a, b)'], R.randrange(1, 3)),
                         'a > b ? %s : c' % R.choice(['b', '1']), 'two(a, one(b + c))', '(a)', '((b) + (c))', 'tab[(c) & 3]', '-a', '!b'])

    def use():
        n, k, simple, tern = R.choice(macs)
        return '%s%s(%s)' % (n, '', (', ' if R.random() < .7 else ' , ').join(arg(simple) for _ in range(k))), tern
    j = 0
    while j < 6:
        u, tern = use()
        v, tern2 = use()
        w = R.randrange(9)
        if (tern or tern2) and w in (2, 3, 4):
            continue
        if w == 0:
            body += '    out[%d] = %s;\n' % (j, u)
        elif w == 1:
            body += '    out[%d] = %s + %s;\n' % (j, u, v)
        elif w == 2:
            body += '    if (%s) out[%d] = %s; else out[%d] = 3;\n' % (u, j, v, j)
        elif w == 3:
            body += '    int v%d = 0; while (v%d < 2 && (%s) != 5) v%d++; out[%d] = v%d;\n' % (j, j, u, j, j, j)
        elif w == 4:
            body += '    out[%d] = a - %s * 2;\n' % (j, u)
        elif w == 5:
            body += '    out[%d] = two(%s, %s);\n' % (j, u, v)
        elif w == 6:
            body += '    int w%d = %s; out[%d] = w%d ^ a;\n' % (j, u, j, j)
        elif w == 7:
            body += '    out[%d] = tab[(%s) & 3];\n' % (j, u)
        else:
            body += '    k += %s; out[%d] = k;\n' % (u, j)
        j += 1
    return program(body, top)


def variadic(R, i):
    top = 'int glob = 7;\n'
    for n in range(1, 7):
        top += 'int f%d(%s) { return %s; }\n' % (n, ', '.join('int x%d' % k for k in range(n)), ' ^ '.join('x%d * %d' % (k, 2 * k + 1) for k in range(n)))
    body = ''
    for k in range(5):
        fix = R.randrange(0, 3)
        tot = R.randrange(max(1, fix + 1), 7)
        ps = ['p', 'q'][:fix]
        order = ps[:]
        rest = tot - fix
        R.shuffle(order)
        where = R.randrange(fix + 1) if R.random() < .3 else fix
        order.insert(where, '__VA_ARGS__')
        top += '#define V%d(%s) f%d(%s)\n' % (k, ', '.join(ps + ['...']), tot, ', '.join(order))
        for j in (k, k + 5):
            body += '    out[%d] = %sV%d(%s);\n' % (j, R.choice(['', 'a ^ ', '1 + ']), k, ', '.join(
                R.choice(['a', 'b', 'c', '9', 'b - a', 'f2(a, b)', '(c & 3)', 'a < b ? c : 2', '-b']) for _ in range(tot)))
    return program(body, top)


def statements(R, i):
    """macros that stand for a statement"""
    top = 'int glob = 1; int acc = 0;\nint mix(int v) { acc = (acc << 1) + v; return acc; }\n'
    tmpl = ['mix(x);', 'acc = (x) - acc;', 'if (x) mix(glob); else acc = acc + 2;', 'glob = glob ^ (x);',
            'for (int q = 0; q < 2; q++) mix((x) + q);', 'int t = (x); mix(t & 255);', 'mix(y); mix(x);', 'glob = mix((x) ^ (y));']
    body = ''
    for k in range(3):
        b = R.sample(tmpl, R.randrange(1, 4))
        two = any('(y)' in s for s in b)
        top += '#define S%d(x%s) \\\n    do { \\\n%s    } while (0)\n' % (k, ', y' if two else '', ''.join('        %s \\\n' % s for s in b))
        for r in range(1 if k else 2):
            args = [R.choice(['a', 'b', '3', 'a + b', 'mix(c)', 'a > b', '(c & 7)', 'b ? 1 : 2']) for _ in range(2 if two else 1)]
            s = 'S%d(%s);' % (k, ', '.join(args))
            body += R.choice(['    %s\n', '    if (a < c) { %s }\n', '    for (int z = 0; z < 2; z++) { %s }\n']) % s
        body += '    out[%d] = acc; out[%d] = glob;\n' % (k, k + 4)
    return program(body, top)


def groups(R, i):
    """nested conditional groups around declarations and statements"""
    names = ['A', 'B', 'C', 'D2', 'E_E']
    cnt = [0]
    q = []

    def cond():
        r = R.randrange(9)
        n = R.choice(names)
        if r < 2:
            return R.choice(['0', '1', '2', '0x0', '00', '1 - 1', '3 > 2', '-1', '!1', '~0 == -1', '1 << 2 == 4'])
        if r < 4:
            return 'defined(%s)' % n
        if r == 4:
            return '!defined(%s) %s defined(%s)' % (n, R.choice(['&&', '||']), R.choice(names))
        if r == 5:
            return '(defined(%s) + defined(%s)) %s 1' % (n, R.choice(names), R.choice(['==', '>', '<', '!=']))
        if r == 6:
            return '%s %s %d' % (R.choice(['V1', 'V2', 'V1 + V2', 'UNKNOWN']), R.choice(['>', '==', '<=', '!=', '&', '%']), R.choice([1, 2, 3, 5]))
        return '%s == %d %s %s' % (R.choice(['V1', 'V2']), R.choice([3, 5]), R.choice(['||', '&&', '|', '^']), R.choice(['V1 < V2', '0', '1', 'defined(A)']))

    def leaf(fn):
        cnt[0] += 1
        r = R.randrange(6)
        if r == 0:
            n = R.choice(names)
            return '#undef %s\n' % n + ('#define %s%s\n' % (n, R.choice(['', ' 1', ' 5'])) if R.random() < .6 else '')
        if fn:
            return '    acc = acc * 5 + %s;\n' % R.choice(['%d' % cnt[0], 'a', 'V1', 'b'])
        q.append(cnt[0])
        return '    void g%d(int a) { acc = acc * 7 + a %s %d; }\n' % (cnt[0], R.choice('+-^'), cnt[0])

    def block(depth, fn, live=True):
        s = ''
        for _ in range(R.randrange(1, 4)):
            if depth and R.random() < .5:
                r = R.randrange(4)
                s += R.choice(['#if %s\n' % cond(), '#ifdef %s\n' % R.choice(names), '#ifndef %s\n' % R.choice(names)])
                s += block(depth - 1, fn)
                for _ in range(R.choice([0, 0, 1, 2])):
                    s += '#elif %s\n' % cond() + block(depth - 1, fn)
                if R.random() < .6:
                    s += '#else%s\n' % R.choice(['', ' // other', ' /* other */']) + block(depth - 1, fn)
                s += '#endif%s\n' % R.choice(['', '', ' // end', ' /* end */'])
            else:
                s += leaf(fn)
        return s
    top = '#define V1 3\n#define V2 5\n#define A\n'
    if R.random() < .5:
        top += '#define B 2\n'
    # text that is never compiled need not make sense
    junk = '#if 0\n  this is not + * C { ( \n#if 1\n more ) ]\n#else\n int\n#endif\n#error not here\n#define A1 5\n#undef V1\n#elif 1\n#define LATE 1\n#else\n } }\n#endif\n'
    top += 'int acc = 0;\n' + R.choice(['', junk])
    decls = block(3, False)
    # functions have the same name in every group that may be selected: count them by what they do
    import re
    decls = re.sub(r'    void g(\d+)', r'void g\1', decls)
    body = block(3, True) + R.choice(['', junk.replace('\n}', '\n')]) + block(2, True)
    body += '    out[0] = acc;\n'
    for n in ['A', 'B', 'C', 'D2', 'E_E', 'LATE', 'A1', 'V1']:
        body += '#ifdef %s\n    out[1] = out[1] * 2 + 1;\n#else\n    out[1] = out[1] * 2;\n#endif\n' % n
    body = '    out[1] = 0;\n' + body
    for k, g in enumerate(q):
        # which of the functions exist: each announces itself
        decls = decls.replace('void g%d(' % g, '#define HAVE%d 1\nvoid g%d(' % (g, g))
        body += '#ifdef HAVE%d\n    g%d(b); out[%d] = acc;\n#endif\n' % (g, g, 2 + k % 14)
    return program(body, top + decls)


def one_line(R, i):
    """where directives and white space may stand"""
    v = ['#define F(x)((x)+1)\n', '#define F(x)\t\t( ( x ) + 1 )\n', '#define F( x ) ((x) + 1)\n', '#define F(x) ( \\\n (x) \\\n + 1 )\n']
    sp = ['', ' ', '\t', '\n', ' \n ', '/* c */', '// c\n', '\n\n']
    body = ''
    for j in range(6):
        toks = R.choice([['a', '-', '-', 'b'], ['a', '&', '~', 'b'], ['a', '<', '-', 'b'], ['(', 'a', ')', '/', '(', 'b', '&', '7', '|', '1', ')'],
                         ['F', '(', 'a', ')', '-', 'b'], ['a', '==', '!', 'b'], ['a', '>', '-', '1'], ['N', '|', 'a', '^', 'N'],
                         ['a', '<=', 'b', '?', 'N', ':', 'c'], ['a', '>=', '-', 'N']])
        e = ''
        for k, t in enumerate(toks):
            s = R.choice(sp)
            if toks[k - 1:k] in (['+'], ['-']) and t in '+-' and s == '':
                s = ' '
            if toks[k - 1:k] == ['/'] and s[:1] == '/':
                s = ' '
            e += s + t
        if '+' in toks and '+ +' in ' '.join(toks):
            e = e.replace('+', '+').replace('+ b', '+b')
        body += '    out[%d] =%s%s;%s\n' % (j, R.choice(sp), e, R.choice(sp))
    return program(body, '#define N 12\n' + R.choice(v))


def redefined(R, i):
    """one name that is removed and defined again with other parameters or another kind"""
    top, body = 'int one(int v) { return v ^ 5; }\n', ''
    forms = [('(x)', ['x']), ('(y, x)', ['y', 'x']), ('(x, y)', ['x', 'y']), ('(p)', ['p']), ('(y, p, x)', ['y', 'p', 'x']), ('', []),
             ('(...)', None), ('(x, ...)', None)]
    R.shuffle(forms)
    for k, (ps, names) in enumerate(forms[:R.randrange(3, 7)]):
        if names is None:
            text, use = {'(...)': ('one(__VA_ARGS__)', 'NAME(a)'), '(x, ...)': ('((x) * 3 - one(__VA_ARGS__))', 'NAME(c, a)')}[ps]
        elif names:
            text = '(' + ' + '.join('(%s) * %d' % (n, 2 * j + 3 + k) for j, n in enumerate(names)) + ')'
            use = 'NAME(%s)' % ', '.join(R.choice(['a', 'b', 'c', 'a + b', 'one(c)', '7']) for _ in names)
        else:
            text, use = R.choice(['(b + %d)' % k, '%d' % (k + 9), 'a']), 'NAME'
        top += ('#undef NAME\n' if k else '') + '#define NAME%s %s\nint use%d(int a, int b, int c) { return %s; }\n' % (ps, text, k, use)
        body += '    out[%d] = use%d(a, b, c);\n' % (k, k)
    return program(body, top)


def fam_c19(tier):
    out = []
    for tag, fn, quick, big in (('obj', objects, 30, 300), ('fun', functions, 60, 900), ('var', variadic, 20, 200), ('stm', statements, 20, 200),
                                ('grp', groups, 60, 900), ('red', redefined, 12, 120), ('spc', one_line, 20, 150)):
        for i in range(quick if tier == 'quick' else big):
            out.append(('%s%03d' % (tag, i), fn(random.Random('%s %d %d' % (tag, i, SEED)), i)))
    return out
