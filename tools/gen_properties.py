#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Arm: every lowered operation computes exactly its result",
 "For every lowered operation (constants, moves, arithmetic, logic, shifts, comparisons, loads, stores, address computations), every choice of operand and destination registers, every immediate or frame offset and every machine state, the Arm instructions the compiler emits leave the mathematically prescribed 32-bit result in the destination. They change no other register in which a program value may live, no stack pointer or global base, and no memory other than the bytes the operation is meant to write.",
 ["inputs", "configurations"], "all register operands (including coinciding ones), all 32-bit immediates/offsets, all register and memory contents, with and without hardware multiply/divide",
 "The tests compile a few hundred small programs whose frames, constants and operands are small: an encoding that goes wrong for an immediate above 255, an offset above 4095, a register pair that coincides or a value with the top bit set is never produced.",
 ["src/arm-codegen.c", "src/arm.c"],
 [("per-operation instruction emission", "src/arm-codegen.c:emit_ph2_ir"), ("instruction encoders", "src/arm.c"), ("12-bit / movw+movt range splits", "src/arm-codegen.c")],
 [("emitted words", "machine code image being built", "src/elf.c:elf_write_code_int")], ["bytes of the code section", "behaviour of the produced executable"])

prop("C02", "RISC-V: every lowered operation computes exactly its result",
 "For every lowered operation (constants, moves, arithmetic, logic, shifts, comparisons, loads, stores, address computations), every choice of operand and destination registers, every immediate or frame offset and every machine state, the RISC-V instructions the compiler emits leave the mathematically prescribed 32-bit result in the destination. They change no other register in which a program value may live, no stack pointer or global base, and no memory other than the bytes the operation is meant to write.",
 ["inputs", "configurations"], "all register operands (including coinciding ones), all 32-bit immediates/offsets, all register and memory contents, with and without hardware multiply/divide",
 "The hi/lo immediate split has its hard cases at +-2047/2048 and at bit 11 of large values; test programs have small frames and constants and only ever meet a few register combinations.",
 ["src/riscv-codegen.c", "src/riscv.c"],
 [("per-operation instruction emission", "src/riscv-codegen.c:emit_ph2_ir"), ("encoders and hi/lo split", "src/riscv.c:rv_hi,rv_lo"), ("12-bit range splits", "src/riscv-codegen.c")],
 [("emitted words", "machine code image being built", "src/elf.c:elf_write_code_int")], ["bytes of the code section", "behaviour of the produced executable"])

prop("C03", "Code layout: every branch, call and address lands on its target",
 "The position computed in advance for every basic block, function, string and global is exactly the position at which it is placed in the executable, and every branch, jump, call, function address and data address in the emitted code refers to that position. This holds on both targets whatever the sizes of constants, frames, functions and data that lie in between.",
 ["programs", "configurations"], "all operations, operands, immediates and offsets, all relative placements of source and target, both targets, soft and hardware multiply/divide",
 "Sizes are predicted in one switch and produced in another; tests only visit the size classes their small programs happen to use, and a mismatch in an unused class shifts every later target.",
 ["src/arm-codegen.c", "src/riscv-codegen.c", "src/arm.c", "src/riscv.c", "src/elf.c"],
 [("size prediction", "src/*-codegen.c:update_elf_offset"), ("block placement", "src/*-codegen.c:cfg_flatten"), ("branch/call displacement encoding", "src/arm.c, src/riscv.c")],
 [("elf_offset", "predicted position", "src/globals.c"), ("elf_code_idx", "actual position", "src/elf.c")], ["code section and branch targets of the produced executable"])

prop("C04", "Multiplication, division and remainder agree with C",
 "For all operands that C defines, the product, quotient (truncated toward zero) and remainder (sign of the dividend) of two signed 32-bit integers computed by compiled code equal the C results, with identical results from the software sequences and from the hardware instructions. The computation leaves all other program values intact.",
 ["inputs", "configurations"], "all pairs of signed 32-bit operands with non-zero divisor (INT_MIN / -1 excluded), same or different operands, both targets, software and hardware mode",
 "The tests divide a few dozen small constants; the software sequences are 13 to 29 instruction loops with sign handling over 2^64 operand pairs.",
 ["src/arm-codegen.c", "src/riscv-codegen.c", "src/arm.c", "src/riscv.c"],
 [("software shift/subtract division and shift/add multiplication", "src/*-codegen.c:emit_ph2_ir"), ("hardware mul/div selection", "src/main.c +m option")],
 (), ["value of a*b, a/b, a%b in the running program"])

prop("C05", "Peephole rewriting preserves program behaviour",
 "Replacing adjacent lowered instructions by shorter forms never changes what the function computes: every register whose value is still needed, and all of memory, hold the same values after the rewritten sequence as after the original one. This holds for every register assignment, immediate value and run-time value.",
 ["programs", "inputs"], "all adjacent instruction pairs over all registers and immediates, all register contents",
 "Each rewriting rule has register-equality and constant side conditions; tests exercise the few shapes that their sources generate, and rarely with the intermediate register still live.",
 ["src/peephole.c"],
 [("fusion rules", "src/peephole.c:insn_fusion"), ("which operations may be retargeted", "src/peephole.c:is_fusible_insn"), ("scan", "src/peephole.c:peephole")],
 (), ["lowered instruction list before/after", "results of compiled programs"])

prop("C06", "Register allocation and spilling preserve every variable's value",
 "Whenever an instruction reads a variable, the register it is given holds that variable's current value, however many variables are live, whichever values are constants, globals or stack slots, and across block boundaries, loops and calls. No two variables that are live at the same time share a register or stack slot, and a value evicted from a register is stored before its register is reused.",
 ["programs", "inputs"], "all programs within the compiler's limits (any register pressure, any control-flow graph), all run-time values",
 "With eight registers, eviction decisions depend on the exact mix of live variables; tests mostly stay below the pressure at which the second eviction heuristic, operand protection or dirty-value write-back matter.",
 ["src/reg-alloc.c", "src/ssa.c"],
 [("operand loading and eviction", "src/reg-alloc.c:prepare_operand, prepare_dest"), ("write-back at block ends and calls", "src/reg-alloc.c:spill_live_out, spill_alive"), ("liveness", "src/ssa.c:liveness_analysis")],
 [("REGS[8]", "register descriptors: owner variable and dirty bit", "src/globals.c, src/reg-alloc.c")], ["results of compiled programs"])

prop("C07", "Compile-time evaluation equals run-time evaluation",
 "Whenever the compiler computes an expression over constants itself - by folding, in a global initialiser, or for an enumerator or case label - the value equals what the generated code would compute for the same operands in 32-bit two's-complement arithmetic, including negative operands, wrap-around and truncating division. No expression over constants, not even one whose result C leaves undefined, makes the compiler itself crash.",
 ["inputs", "programs"], "all 32-bit operand values for every foldable operator",
 "Folding is exercised with a handful of small positive literals; wrap-around, negative operands, shifts and division corner cases are unreachable by sampling.",
 ["src/ssa.c", "src/parser.c"],
 [("constant propagation and folding", "src/ssa.c:mark_const, eval_const_arithmetic, const_folding"), ("global initialiser evaluation", "src/parser.c:eval_expression_imm, read_global_assignment")],
 (), ["value seen by the running program"])

prop("C08", "SSA construction and optimisation preserve program behaviour",
 "Translating a function into single-assignment form, eliminating common subexpressions, folding and removing dead code never change its results, its calls or its stores. In particular every use of a variable sees the value of the assignment that reaches it on the path taken, a stored or called-for effect is never removed, and a value re-read after an intervening store or call is the new value.",
 ["programs", "inputs"], "all control-flow shapes and statement sequences within the compiler's limits, all run-time values",
 "Correct placement of merges and the legality of reuse or removal depend on control-flow shape and on aliasing; tests look at a small number of hand-written functions with fixed values.",
 ["src/ssa.c"],
 [("phi placement and renaming", "src/ssa.c:solve_phi_insertion, solve_phi_params, unwind_phi"), ("common subexpression elimination", "src/ssa.c:cse"), ("dead code elimination", "src/ssa.c:dce_*")],
 (), ["results of compiled programs"])

prop("C09", "The scanner splits every source text into the right tokens",
 "For every sequence of characters the scanner yields the longest-match token sequence of C for the supported operators, punctuation, identifiers, keywords, numbers, and string and character literals, skipping white space, comments and continued line ends between tokens, and nothing else. A line end spliced inside a token, digraphs, floating constants and unsupported escapes are outside. It never reads before the beginning or past the end of the source text and always makes progress.",
 ["inputs"], "all source buffers up to the stated length; every operator adjacent to every other character",
 "The tests' sources are conventionally formatted; adjacency of operators, comments ending in several stars, tabs, line ends and end of file next to any token are combinatorial.",
 ["src/lexer.c"],
 [("token recognition", "src/lexer.c:lex_token_internal"), ("comment and white space skipping", "src/lexer.c:skip_whitespace, lex_token_internal"), ("identifier table", "src/lexer.c")],
 [("SOURCE", "source buffer", "src/globals.c"), ("next_char, token_str", "scanner position and current token text", "src/lexer.c")], ["token stream", "accept/reject and meaning of the compiled program"])

prop("C10", "Integer, character and string literals denote their C values",
 "Every decimal, octal or hexadecimal integer literal, every character literal and every string literal - including each supported escape sequence - denotes in the compiled program exactly the value or bytes that C gives it, for all values representable in 32 bits, and a literal that is not valid (an invalid digit or prefix) is rejected rather than silently given another value. This holds wherever literals may appear: expressions, global initialisers, array sizes, enumerators, case labels and preprocessor conditions.",
 ["inputs"], "all literals up to 32-bit values; all characters and escapes",
 "Tests use a few short literals; the conversion is written several times for different contexts and each has its own boundary values.",
 ["src/lexer.c", "src/parser.c", "src/globals.c"],
 [("number conversion", "src/parser.c:read_numeric_constant, read_numeric_param"), ("escape handling", "src/lexer.c, src/parser.c:read_literal_param, write_symbol")],
 (), ["value seen by the running program"])

prop("C11", "Expressions are grouped by C's precedence and associativity",
 "For every combination of the supported unary, binary, conditional and parenthesised operators, the compiled program evaluates the expression with the grouping C's grammar prescribes. The value of the whole equals the value obtained by fully parenthesising the expression according to C.",
 ["programs", "inputs"], "all ordered combinations of supported operators up to the stated depth, all operand values",
 "There are 18 binary operators; tests include a few mixed expressions, not the several hundred pairs and thousands of triples, and value coincidences hide wrong grouping for fixed operands.",
 ["src/parser.c"],
 [("operator precedence table and operator stack", "src/parser.c:get_operator_prio, read_expr"), ("unary operators and primaries", "src/parser.c:read_expr_operand"), ("conditional operator", "src/parser.c:read_ternary_operation")],
 (), ["value seen by the running program"])

prop("C12", "Control statements execute exactly the statements C prescribes",
 "For every nesting of if/else, while, do-while, for, switch (with fall-through, default and break), break, continue, return, the conditional operator and short-circuit && and ||, the compiled program executes exactly the statements and evaluates exactly the operands C prescribes, in the same order, the same number of times. Operands skipped by short-circuit or the conditional operator have no effect.",
 ["programs", "inputs"], "all nestings up to the stated size, all condition values",
 "The number of nestings and of condition outcomes is exponential; tests fix one outcome each.",
 ["src/parser.c", "src/ssa.c"],
 [("statement translation to basic blocks", "src/parser.c:read_body_statement"), ("short-circuit", "src/parser.c:read_logical"), ("edges and reverse post-order", "src/ssa.c:build_rpo; src/globals.c:bb_connect")],
 [("break/continue targets", "current exits for loops and switches", "src/parser.c")], ["trace of effects of the running program"])

prop("C13", "Objects have the right size and place, and accesses touch only them",
 "Every variable, array element, pointer target and structure member is stored in its own bytes with its type's size and at the offset its type prescribes; an access through a name, index, pointer, member or any chain of these reads or writes exactly those bytes, with char accesses touching a single byte. Distinct objects, elements and members never overlap, whether local or global.",
 ["programs", "inputs"], "all supported declarations and access paths up to the stated depth, all index and stored values in range",
 "Tests check particular structures and small indices; an offset or size error for another member order, nesting or element size, or one that clobbers a neighbour not inspected, goes unseen.",
 ["src/parser.c", "src/globals.c", "src/reg-alloc.c"],
 [("member offsets and struct sizes", "src/parser.c:read_global_statement"), ("address computation", "src/parser.c:read_lvalue"), ("storage assignment", "src/globals.c:size_var; src/reg-alloc.c")],
 (), ["memory contents observed by the running program"])

prop("C14", "Calls pass every argument and preserve the caller's values",
 "A call, direct, recursive or through a function pointer, runs the named function with each parameter holding the corresponding argument value, evaluates to the returned value, and leaves every other live value of the caller intact. This holds for every number of parameters the compiler accepts, every nesting of calls within arguments, and for main's argument count and vector.",
 ["programs", "inputs"], "all parameter counts up to the limit, nesting and recursion within stated bounds, all argument values",
 "Tests use small argument counts and few live values across a call; argument shuffles and saved values depend on register pressure around the call.",
 ["src/parser.c", "src/reg-alloc.c", "src/arm-codegen.c", "src/riscv-codegen.c"],
 [("argument pushes", "src/reg-alloc.c (OP_push), src/parser.c:read_func_parameters"), ("prologue/epilogue", "src/*-codegen.c OP_define/OP_return"), ("indirect calls", "OP_load_func/OP_indirect")],
 (), ["values observed by callee and caller"])

prop("C15", "Every produced executable is a well-formed static ELF image",
 "For every combination of code, data and symbol sizes the output is an ELF32 little-endian executable for the selected machine whose header, program header, section headers, symbol and string tables all lie inside the file, agree with each other and describe the same bytes: code then data are loaded at the addresses the code was generated for, the entry point is the first instruction, and every section name and symbol name offset resolves inside its string table. The file contains the code and data bytes unchanged.",
 ["inputs", "configurations"], "all code, data and symbol-table sizes within the compiler's limits, both targets",
 "Tests only run the programs; loaders ignore section headers and symbols, so wrong sizes, offsets or alignments show for particular sizes or tools only.",
 ["src/elf.c"],
 [("header generation", "src/elf.c:elf_generate_header"), ("section table generation", "src/elf.c:elf_generate_sections"), ("output", "src/elf.c:elf_generate")],
 [("elf_header/code/data/symtab/strtab/section buffers", "output being assembled", "src/elf.c")], ["the produced file"])

prop("C16", "Bundled string functions behave as in C",
 "The bundled string and memory routines (string length, comparison, bounded comparison, copy, bounded copy, and memory copy) return and write exactly what the C standard prescribes for all contents and lengths, and touch no byte outside their operands.",
 ["inputs"], "all strings/blocks up to the stated length, including unaligned lengths and bytes above 127",
 "They work word-wise or unrolled with tail handling; tests try a few fixed strings.",
 ["lib/c.c"], [("string functions", "lib/c.c")], (), ["result and memory after the call"])

prop("C17", "Bundled formatted output prints integers exactly",
 "The bundled formatted printing renders every 32-bit integer exactly as C does for the decimal, hexadecimal and octal conversions it supports, with the field width and zero padding requested, and copies all other text unchanged. A bounded print that has room produces the same text as the unbounded one.",
 ["inputs"], "all 32-bit values, widths up to the stated bound, flags",
 "Tests print a few small numbers; digit extraction uses multiply-free division tricks over the whole 32-bit range including the most negative number.",
 ["lib/c.c"], [("digit conversion", "lib/c.c:__str_base10, __str_base8, __str_base16"), ("padding", "lib/c.c:__format")], (), ["bytes written"])

prop("C18", "The bundled allocator never hands out overlapping blocks",
 "For every sequence of malloc, calloc and free calls, each returned block is at least as large as requested and overlaps neither another live block nor the allocator's bookkeeping; freeing a block makes only that block reusable. Zero-initialised allocation returns zeroed memory.",
 ["histories", "inputs"], "all call histories up to the stated length, all request sizes up to the stated bound",
 "Reuse of freed blocks depends on the order and sizes of a history; tests allocate a few blocks and hardly ever reuse one.",
 ["lib/c.c"], [("free list and best fit", "lib/c.c:malloc, free, calloc")],
 [("__alloc_head/tail, __freelist_head", "chunk lists", "lib/c.c")], ["returned pointers and memory contents"])

prop("C19", "Preprocessor directives select and substitute exactly the right text",
 "For every nesting and combination of #if, #ifdef, #ifndef, #elif, #else, #endif, #define and #undef, exactly the groups C would compile are compiled, with condition expressions evaluated by C's rules. Object-like and function-like macros expand with exactly the supplied argument text.",
 ["programs", "inputs"], "all directive sequences up to the stated length and all condition values; macro bodies and arguments of the stated shapes",
 "Skipping must track nesting while ignoring other text; tests have a handful of nests and conditions.",
 ["src/lexer.c", "src/parser.c"],
 [("conditional processing", "src/parser.c:read_preproc_directive, cppd_control_flow_skip_lines"), ("condition evaluation", "src/parser.c:read_constant_expr, read_constant_infix_expr"), ("macro expansion", "src/lexer.c, src/parser.c")],
 [("preproc_match, skip_newline, macro_return_idx", "preprocessor state", "src/globals.c")], ["which code the produced program contains"])

prop("C20", "Internal tables never lose, confuse or corrupt entries",
 "For every history of insertions, the compiler's hash tables return for each key the value inserted for it and report absent keys as absent, through any number of collisions and growths. Memory handed out by its arenas is aligned, never overlaps an earlier live allocation, is never smaller than requested, and stays unchanged as arenas grow.",
 ["histories", "inputs"], "all histories up to the stated length, all request sizes, all keys up to the stated length including colliding ones",
 "Collisions, growth boundaries and odd sizes hardly occur in test programs; their effects are silent corruption.",
 ["src/globals.c"],
 [("hash tables", "src/globals.c:hashmap_*"), ("arena allocation", "src/globals.c:arena_*")],
 [("arena block list", "current block, offset, capacity", "src/globals.c"), ("hash buckets", "chains of key/value nodes", "src/globals.c")], ["lookup results", "addresses and contents of allocations"])

prop("C21", "Names resolve to the innermost visible declaration",
 "Every use of a variable, parameter or global name in a program refers to the declaration that C's block scoping makes visible at that point; a shadowed variable keeps its value while an inner one of the same name is in use, and becomes visible again when the inner scope ends. Locals of different functions, and different activations, never interfere.",
 ["programs", "inputs"], "all nestings of scopes up to the stated depth, all stored values",
 "Shadowing combinations across nested blocks, loops and functions are not sampled beyond one or two shapes.",
 ["src/globals.c", "src/parser.c", "src/ssa.c"],
 [("lookup", "src/globals.c:find_local_var, find_global_var, find_var"), ("block scopes", "src/parser.c:read_code_block")],
 (), ["values seen by the running program"])

prop("C22", "The compiled compiler reproduces itself and its results",
 "Compiling the compiler with itself yields a compiler that produces byte-identical output for every source program, and compiling the same source twice gives the same bytes.",
 ["programs"], "all source programs",
 "The bootstrap test compares one program (the compiler itself); other programs may still differ between generations.",
 ["src/main.c"], [("bootstrap", "Makefile:bootstrap")], (), ["output files"])

prop("C23", "No source text makes the compiler corrupt its own memory",
 "For every source text, valid or not, the compiler terminates with an executable or a diagnostic, and never reads or writes outside its own objects.",
 ["inputs"], "all source texts",
 "Tests contain only valid or simply invalid programs of moderate size.",
 ["src/lexer.c", "src/parser.c", "src/globals.c"], [("fixed-size buffers and limits", "src/defs.h")], (), ["exit of the compiler"])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
