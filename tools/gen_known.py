#!/usr/bin/env python3
"""Writes /verif/known_findings.json: genuine defects recorded (each with the one program that shows it) and defects repaired."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from vt import fams3
from vt.gen import program

F = []


def finding(id, what, program_, **kw):
    F.append(dict(id=id, property=id.split('-')[0], what=what, program=program_, **kw))


finding('C14-indirect8', 'a call through a function pointer with eight arguments passes a wrong value for one of them '
        '(the register that carries the address of the callee is an argument register)',
        program('    S s; s.f = f8; out[0] = s.f(a, b, c, d, 5, 6, 7, 8);\n',
                'typedef struct { int (*f)(int x0, int x1, int x2, int x3, int x4, int x5, int x6, int x7); } S;\n'
                'int f8(int x0, int x1, int x2, int x3, int x4, int x5, int x6, int x7)\n'
                '{ return x0 ^ x1 * 3 ^ x2 * 5 ^ x3 * 7 ^ x4 * 11 ^ x5 * 13 ^ x6 * 17 ^ x7 * 19; }\n'))
finding('C08-addrtaken', 'a scalar local whose address is taken keeps its old value when it is read by name after a write '
        'through the pointer, and the pointer sees the old value after an assignment by name',
        program('    int x = a; int *p = &x; x = b; out[0] = p[0];\n'))
finding('C13-charscalar', 'a char variable keeps more than eight bits of the value assigned to it',
        program('    char ch = a; out[0] = ch == (a & 255); ch = ch + 1; out[1] = ch < 256;\n'), archs=['arm'])
finding('C13-ptrminus', 'a pointer minus an integer is not scaled by the size of the element',
        program('    int ar[4]; ar[0] = a; ar[1] = b; ar[2] = c; ar[3] = d; int *p = ar; p = p + 3; p = p - 1; out[0] = p[0];\n'))
finding('C11-ptrmul', 'p + i * 2 with a pointer p is grouped as (p + i) * 2',
        program('    int ar[8]; int i = c & 3; ar[0] = a; ar[1] = 1; ar[2] = b; ar[3] = 3; ar[4] = c; ar[5] = 5; ar[6] = d; ar[7] = 7;\n'
                '    int *p = ar; int *q = p + i * 2; out[0] = q[0];\n'))

for _i, _n, _w in (
        ('C16-strcmp', 'known_strcmp', 'on RISC-V, where char is signed, strcmp orders bytes above 127 below all others'),
        ('C16-strncmp', 'known_strncmp', 'on RISC-V, where char is signed, strncmp orders bytes above 127 below all others'),
        ('C18-fits', 'known_fits', 'malloc reuses a freed chunk for a request that fits it only without its header: the last bytes lie '
         'behind the chunk'),
        ('C18-overflow', 'known_overflow', 'calloc does not notice that the product of its arguments overflows')):
    _p = fams3.known()[_n]
    finding(_i, _w + ' (lib/c.c cannot be repaired: stable snapshot tests pin its intermediate code)', _p[1], flags=[], oracle=_p[2]['oracle'],
            archs=list(_p[2].get('archs', ('arm', 'riscv'))))

finding('C19-argtext', 'an argument of a macro is evaluated as if it stood in parentheses: with #define SQ(x) x * x, SQ(a + 1) is (a + 1) * (a + 1)',
        program('    out[0] = SQ(a + 1);\n', '#define SQ(x) x * x\n'))

FIXED = '''
C04 ec27cf5 Arm software division of a register by itself lost the sign: a / a and a % a were wrong for negative a
C03 8c3ee04 Arm conditional branch with neither successor placed next went to the wrong block
C03 dbd8ee9 Arm self-move was skipped by the emitter but counted by the layout, so every later target was off by four
C05 b7107bc peephole folded a constant into an operation and removed it while its register was still read
C13 b5acb02 p[i]++, s.m += and *p compound lvalues stepped by the wrong size
C11 5e185ec unary * swallowed the following binary + (*p + 1 read p[1])
C11 d6f94df << and >> had the wrong precedence next to comparisons and bitwise operators
C11 2df6bc0 unary minus before a parenthesised expression was dropped
C12 4364f36 operands of ?: that branch themselves (&&, ||, nested ?:) were attached to the wrong block
C08 ed7bd5b phi for a temporary without a definition on every path crashed the compiler or read garbage
C12 3111307 side effects of ++ and -- took place after the wrong statement
C11 0de1ebe postfix -- in an expression was left in the token stream
C12 0ac3990 continue in a for loop without increment skipped the condition
C07 93bbe9b / and % were swapped or unsupported in constant initialisers
C07 204c8d8 constant division by zero or INT_MIN / -1 crashed the compiler
C12 b601827 a for loop whose body always leaves crashed the compiler
C07 a564406 negative case labels and enumerators were rejected
C10 a120534 invalid digits in numeric literals were given some value
C09 50f4729 adjacent tokens, comments ending in **/ and escapes were scanned wrongly
C19 09f865e macro arguments with parentheses or the caller's variables were substituted wrongly
C19 3974750 nested conditional directives and conditions over several operators were evaluated wrongly
C06 c3d7eb7 loading the second operand evicted the first from its register
C14 785c5b7 stores of function pointers and indirect calls left a stale value in a register
C12 7e62022 a switch without labels crashed the compiler
C08 f985441 phi at the head of a do loop for variables of its body crashed the compiler
C08 1451c78 phi placed for variables of an inner scope crashed the compiler or read the wrong variable
C06 4fce29e a result took the register of its own operand when all registers were in use
C12 18a4f96 statements behind return, break or continue crashed the compiler
C08 9c3e9b2 a char element read again after a store or call in between got the old value
C07 ca3ba12 bitwise operators in a global initialiser were rejected or evaluated as 0
C09 d12460c an error at the very end of the source read behind the source buffer
C10 ff87922 0X was not taken as a hexadecimal prefix, and a number like 00x1 was
C09 4cd48ca a character constant at the very end of the source was scanned past the end
C09 1de7c20 line comments continued by a backslash or ended by a carriage return swallowed or lost text
C19 fa688c2 __VA_ARGS__ inside the arguments of a call was not expanded
C19 2dd4e2f the conditional operator in a macro or its arguments lost its condition
C19 e769843 a macro that stands for an identifier was compiled as a string
C19 326a132 an object-like macro with operators was not grouped with what surrounds it
'''


def main():
    fixed = []
    for l in FIXED.strip().splitlines():
        p, c, w = l.split(' ', 2)
        fixed.append('fixed: property=%s %s %s' % (p, c, w))
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json')
    with open(out, 'w') as f:
        json.dump({'findings': F, 'fixed': fixed}, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
