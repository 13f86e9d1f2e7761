"""What decides which property."""
from . import fams, fams2, fams3, fams4, gen
from .bmc import H, harness_part
from .runner import program_part, TIER

QUICK_WALL = 170
THOROUGH_WALL = 3000

TRUSTED = ['the oracle is the same C source compiled by clang -O0 to LLVM IR and executed symbolically by vt/llir.py; '
           'clang is trusted for the meaning of C',
           'the Armv7-A and RV32IM instruction semantics in vt/cpu.py are trusted for "holds" verdicts; a counterexample is '
           'only reported after the real executable, run by qemu, gave the wrong result for it',
           'inputs for which the reference program has undefined behaviour are excluded',
           'z3 4.x is trusted']
PIPE = ['the whole compiler runs on each program of the family; encoded symbolically is the machine code it produced, from the '
        'entry point to exit, over all input bytes (in[0..15], 64 bytes, every value)']


def family(fn, note, wall=None):
    def part(ctx):
        progs = fn(ctx.tier)
        ctx.bounds.append('%s: %d programs; per program and target all paths for all 2^512 inputs, loops bounded by the program '
                          'text, at most 200000 instructions and 3000 paths; programs not settled within the time limit are '
                          'counted as undecided' % (note, len(progs)))
        program_part(ctx, progs, wall or (QUICK_WALL if ctx.tier == 'quick' else THOROUGH_WALL))
    return part


def tv(fn, note, functions=(), extra=()):
    return {'parts': [family(fn, note)], 'level': 'translation_validation', 'bounds': list(extra),
            'functions': PIPE + list(functions), 'assumptions': TRUSTED}


SPECS = {
    'C06': tv(fams.fam_c06, 'many live locals, constants, globals, arrays and calls under register pressure'),
    'C08': tv(gen.fam_c08, 'random structured functions over up to 5 variables, depth 4'),
    'C11': tv(gen.fam_c11, 'all ordered pairs of binary operators, unary and primary operands, ?:, random trees, contexts'),
    'C12': tv(gen.fam_c12, 'random nestings of all control statements up to depth 5 with a trace of the executed statements'),
    'C13': tv(fams.fam_c13, 'structures, arrays, pointers and char objects, local and global'),
    'C14': tv(fams.fam_c14, 'calls with 0 to 8 arguments, nested, recursive, indirect; main with argc and argv'),
    'C21': tv(gen.fam_c21, 'random nested blocks that redeclare outer names, depth 4'),
}

OPS = ('add sub lshift rshift bit_and bit_or bit_xor eq neq lt leq gt geq negate bit_not log_not assign load_constant address_of '
       'global_address_of load_data_address load global_load store global_store read write branch jump call address_of_func '
       'indirect function').split()


def codegen(arch):
    hs = [H('codegen', 'op_' + o, (arch,), functions=('emit_ph2_ir', 'update_elf_offset', 'emit', 'elf_write_code_int'),
            bounds='all registers, operands and machine states') for o in OPS]
    hs += [H('codegen', 'op_' + o, (arch,), real=True, bounds='all registers and machine states, divisor not 0') for o in ('mul', 'div', 'mod')]
    if arch == 'arm':
        hs.append(H('codegen', 'op_mul_soft', (arch,), real=True))
    return hs


def other(parts, explanation, assumptions=()):
    return {'kind': 'bmc', 'parts': parts, 'level': 'other', 'explanation': explanation, 'assumptions': list(assumptions)}


CBMC_TRUST = ['cbmc 6.11 and its SAT solver are trusted for "holds" verdicts; a counterexample is only reported after the real '
              'code, compiled natively, failed on it']
for _p, _a in (('C01', 'arm'), ('C02', 'riscv')):
    SPECS[_p] = other([harness_part(codegen(_a), 'one second-phase operation at a time, every operand (registers 0..7, any constant, '
                                    'offsets >= 0, branch targets within MAX_CODE), every machine state; code at offset 0x20000')],
                      'cbmc executes the real emit_ph2_ir/update_elf_offset on a symbolic operation, reads the emitted words back '
                      'and executes them with an instruction-set semantics on a symbolic machine state; asserted are the result, the '
                      'frame (all other value registers, sp, base register, memory), where control goes and the predicted size',
                      CBMC_TRUST + ['bmc/%s_sim.h is trusted as the meaning of the instructions' % _a])


def tvb(fn, note, hs, hnote, functions=()):
    s = tv(fn, note, functions)
    s['parts'] = [harness_part(hs, hnote)] + s['parts']
    s['assumptions'] = TRUSTED + CBMC_TRUST
    s['kind'] = 'both'
    return s


SPECS['C04'] = tv(fams2.fam_c04, 'software and hardware * / %: narrow operands, constants against any operand, large divisors, '
                  'INT_MIN, every register assignment')
SPECS['C07'] = tvb(fams2.fam_c07, 'constant expressions in code, initialisers, enumerators and case labels',
                   [H('fold', 'fold_%s_%s' % (f, o), ('arm',), functions=('eval_expression_imm', 'eval_const_arithmetic'),
                      bounds='operands within 11 bits' if o in ('mul', 'div', 'mod') else 'all 32-bit operands')
                    for f in ('initialiser', 'arithmetic') for o in 'add sub mul div mod lshift rshift bit_and bit_or bit_xor log_and '
                    'log_or eq neq lt leq gt geq'.split()],
                   'fold: one operation, all operand values (* / %: narrower)')

SPECS['C05'] = tvb(fams.fam_c05, 'constants, moves and reused results next to every operation',
                   [H('peephole', f, ('arm',), unwind=9, unwindset='peephole.0:4,peephole.1:2,peephole.2:2', defines=('NOPS=2',),
                      functions=('peephole', 'insn_fusion', 'is_fusible_insn'),
                      bounds='two operations of any kind with any operands and registers, every machine state')
                    for f in ('first_constant', 'first_binary', 'first_load', 'first_other')],
                   'peephole() on every pair of operations')

SPECS['C03'] = tvb(fams2.fam_c03, 'frames, global areas, code and strings whose sizes lie around every encoding limit; calls in both '
                   'directions, function pointers, long branches',
                   [H('layout', 'layout_' + k, functions=('cfg_flatten', 'code_generate', 'update_elf_offset', 'emit_ph2_ir'), unwind=40,
                      replace={'arm': 'elf_write_code_int:bmc_count_word error:bmc_error find_func:bmc_find_func __mov:bmc_mov',
                               'riscv': 'elf_write_code_int:bmc_count_word error:bmc_error find_func:bmc_find_func'},
                      bounds='up to one global and two function operations of any kind, any operands, frames up to 1 MB') for k in ('10', '11', '20')] +
                   [h for a in ('arm', 'riscv') for h in codegen(a) if h.fn in (
                       'op_branch', 'op_jump', 'op_call', 'op_address_of_func', 'op_load_data_address')],
                   'layout of symbolic operation lists; targets of branches, calls and addresses')
SPECS['C10'] = tvb(fams2.fam_c10, 'numbers in every base and position, all printable characters and escapes, strings',
                   [H('literal', f, ('arm',), unwind=18, replace='error:bmc_error', tier='thorough' if f in ('number_dec8', 'number_dec9', 'number_dec10') else 'quick', functions=('read_numeric_constant', 'unescape_char'),
                      bounds=b) for f, b in [('number_dec%d' % k, 'every decimal digit string (and hex letters, x) of %d characters' % k) for k in range(1, 11)] + [
                                             ('number_hex', '0x/0X and up to 8 characters'), ('number_oct', 'up to 12 characters'),
                                             ('escape', 'every character')]],
                   'literal: every character sequence within the stated lengths')
SPECS['C20'] = other([harness_part([H('tables', f, ('arm',), unwind=20, memory=f in ('arena', 'source'), functions=fs, bounds=b, tier=t) for f, fs, b, t in [
    ('table_1', ('hashmap_put', 'hashmap_get', 'hashmap_contains'), '3 keys of up to 2 characters in 1 bucket', 'quick'),
    ('table_2', ('hashmap_create', 'hashmap_hash_index'), '3 keys in 2 buckets', 'quick'),
    ('table_4', ('round_up_pow2', 'hashmap_node_new'), '3 keys in 4 buckets', 'quick'),
    ('table_empty', (), 'the empty key', 'quick'), ('table_16', (), '2 keys in 16 buckets', 'quick'),
    ('table_deep', (), '4 keys in one bucket', 'quick'), ('table_long', (), '3 keys of 3 characters', 'thorough'),
    ('arena', ('arena_init', 'arena_alloc', 'arena_block_create'), '5 allocations of 1 to 600000 bytes, capacity 8 to 4096', 'quick'),
    ('source', ('create_source', 'source_push', 'extend_source'), 'up to 6 characters, capacity 1 to 4', 'quick')]],
    'every history of insertions or allocations within the stated sizes'),
    harness_part([H('names', f, ('arm',), unwind=6, shrink=(('MAX_LOCALS', 4), ('MAX_FIELDS', 4)), functions=fs, bounds=b, tier=t) for f, fs, b, t in [
        ('%s_%s' % (k, o), ('add_' + v, 'find_' + v, 'remove_' + v), '#define and #undef of 3 names in the order %s' % o, t)
        for k, v in (('aliases', 'alias'), ('macros', 'macro')) for o, t in (('ddud', 'quick'), ('dudu', 'quick'), ('dddu', 'quick'), ('udud', 'thorough'))] + [
        ('constants', ('add_constant', 'find_constant'), '2 enumerators and a name that is none', 'quick'),
        ('type_names', ('add_named_type', 'find_type'), '3 structures and type names under 3 names', 'quick'),
        ('type_forward', (), 'a type name of a structure not complete yet', 'quick'),
        ('members', ('find_member',), 'up to 3 members', 'quick'),
        ('variables', ('add_block', 'find_var', 'find_local_var', 'find_global_var'), 'a block in a block beside another, a parameter, a global', 'quick'),
        ('functions', ('add_func', 'find_func'), '3 functions in 2 buckets', 'quick')]],
    'names of one or two characters, each any; MAX_LOCALS and MAX_FIELDS set to 4 to keep the encoding small')],
    'cbmc executes the real table, arena and source-buffer functions on symbolic keys, sizes and characters', CBMC_TRUST)

ELF = ('elf_generate', 'elf_generate_header', 'elf_generate_sections', 'elf_align', 'elf_add_symbol', 'elf_write_int', 'elf_write_code_int',
       'elf_write_data_str')
SPECS['C15'] = other([harness_part([H('elf', f, unwind=380, memory=True, functions=ELF, bounds=b) for f, b in [
    ('headers', 'every code size up to MAX_CODE and data size up to MAX_DATA, no symbols')] + [
        ('symbols_' + k, 'every code and data size, %s symbols with any name and address' % k) for k in ('1', '2', '00')] + [
            ('file_' + k, 'code_data sizes %s, any contents' % k) for k in ('0_0', '4_1', '8_6', '4_3', '8_8')]],
    'headers for all sizes; the written file for code and data of up to 8 bytes; names of up to 3 characters')],
    'cbmc executes the real ELF writer on symbolic sizes and contents; an independent reader checks the written image', CBMC_TRUST)

LIBA = 'the machine code of lib/c.c as the compiler translated it into each program'
SPECS['C16'] = tv(fams3.fam_c16, 'strings and blocks of up to 7 (thorough: 15) bytes, every content, every length 0..7', (LIBA,))
SPECS['C17'] = tv(fams3.fam_c17, '%d %x %o with widths 0 to 13 (thorough: 20), zero padding and #, every 32-bit value; %c %s %%, text; bounded '
                  'prints', (LIBA,), ['division-free digit conversion is decided in integer arithmetic (vt/lia.py): every quotient and '
                  'digit is proved equal to the division the reference does, level by level'])
SPECS['C18'] = tv(fams3.fam_c18, 'histories of up to 9 (thorough: 12) calls over four slots, sizes and indices symbolic among values around '
                  'every page and header limit', (LIBA,))
SPECS['C18']['assumptions'] = TRUSTED + ['mmap gives each mapping the addresses right below the one before; it fails above 16 MB']

LEX = 'error:bmc_error lex_token_internal:bmc_again bmc_lex:lex_token_internal'
LEX_KINDS = {'word': 'an identifier, keyword or number', 'directive': 'a directive', 'string': 'a string', 'comment': 'a comment',
             'line_comment': 'a line comment', 'line_end': 'the end of a line', 'char': 'a character literal', 'operator': 'anything else'}


def lex(sizes, tier='quick'):
    return [H('lexer', 'lex_' + k, ('arm',), unwind=n + 5, memory=True, defines=('N=%d' % n,), replace=LEX, tier=tier,
              functions=('lex_token_internal', 'read_char', 'skip_whitespace', 'peek_char', 'unescape_char', 'is_*') if k == 'word' else (),
              bounds='every text of %d characters that continues with %s, from its first or second character on' % (n, v))
            for k, v in LEX_KINDS.items() for n in sizes.get(k, ())]


SPECS['C09'] = other([harness_part(
    lex({'word': (9, 2), 'directive': (9, 4), 'string': (6, 2), 'comment': (6, 4), 'line_comment': (6, 3), 'line_end': (5, 2), 'char': (5, 3),
         'operator': (5, 2)}) +
    lex({'word': (12,), 'directive': (11,), 'string': (10,), 'comment': (10,), 'line_comment': (10,), 'line_end': (8,), 'char': (8,),
         'operator': (8,)}, 'thorough'),
    'one token of any text: its kind, its characters, where it ends, what is skipped; the text that follows is the same question again '
    '(comments and line ends recur through a summary of the same function). Outside: line splices inside a token, digraphs, floating '
    'constants, unsupported escapes, which shecc does not accept')],
    'cbmc executes the real scanner on a symbolic text, start, line mode and macro return position and compares it with a longest-match '
    'reference', CBMC_TRUST)

DIR = ('strcpy:bmc_strcpy add_alias:bmc_add find_alias:bmc_find find_macro:bmc_find_macro remove_alias:bmc_remove '
       'remove_macro:bmc_remove_macro add_macro:bmc_add_macro')
DIR_F = ('read_preproc_directive', 'cppd_control_flow_skip_lines', 'lex_peek', 'lex_accept', 'lex_expect')
COND_F = ('read_constant_expr', 'read_constant_infix_expr', 'read_constant_unary_expr', 'read_constant_expr_operand', 'get_operator',
          'get_operator_prio', 'is_defined', 'read_numeric_constant')
COND = 'n u1 u2 u3 u4 d e i nn un nu uu de nd in paren unu dnd left right nun'.split()
SPECS['C19'] = tvb(fams4.fam_c19, 'object-like, function-like and variadic macros in every position of an expression or statement, nested '
                   'conditional groups around declarations and statements, directives among white space and comments',
                   [H('directive', 'lines%d' % k, ('arm',), fields=300, unwind=2 * k + 1, defines=('LINES', 'L=%d' % k),
                      replace='error:bmc_error lex_token_internal:bmc_token read_constant_expr:bmc_cond ' + DIR,
                      functions=DIR_F, bounds='every well-formed sequence of %d lines (text, #if, #ifdef, #ifndef, #elif, #else, #endif, '
                      '#define, #undef of two names)' % k, tier='thorough' if k > 4 else 'quick', timeout=None if k < 6 else 3000) for k in (3, 4, 5, 6)] +
                   [H('directive', 'cond_' + f, ('arm',), fields=300, unwind=104, defines=('COND',), replace='error:bmc_error lex_token_internal:bmc_token ' + DIR,
                      functions=COND_F, bounds='operators chosen in turn, every value 0..7, unary operators, defined(), parentheses', tier=t)
                    for f, t in [(f, 'quick') for f in COND] + [('nnn_%d' % k, 'quick') for k in range(18)] +
                    [('nnnn_%d' % k, 'quick' if k in (0, 5) else 'thorough') for k in range(10)]] +
                   [H('directive', 'names_' + f, ('arm',), unwind=7, defines=('LINES', 'L=5'), functions=('add_alias', 'find_alias', 'remove_alias'),
                      bounds='%d definitions and removals of any of three one-character names' % len(f), tier='thorough' if len(f) > 4 else 'quick')
                    for f in ('ara', 'raa', 'aara', 'aarra')],
                   'directives: every sequence of lines and every condition of the stated shapes',
                   ('lex_token_internal', 'enter_macro', 'find_macro_param_src_idx', 'read_preproc_directive'))
