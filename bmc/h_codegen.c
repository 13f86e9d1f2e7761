/* C01/C02/C03/C04/C05: the machine code emitted for one second-phase IR operation, executed on an arbitrary machine state */
#include "common.h"
#include "mem.h"
#ifdef T_ARM
#include "arm_sim.h"
#else
#include "riscv_sim.h"
#endif

#define OLD(x) R0[&(x) - &R[0]]
#define IDX0 0x20000
static char buf[512];
static uint32_t R0[NREG];
static ph2_ir_t ir;
static basic_block_t bb1, bb2;
static fn_t fnn;
static func_t *fun;
static int words, predicted;
static uint32_t start_pc;

static void machine(void)
{
    for (int i = 0; i < NREG; i++)
        R[i] = in();
#ifdef T_ARM
    fN = in() & 1;
    fZ = in() & 1;
    fC = in() & 1;
    fV = in() & 1;
#else
    R[0] = 0;
#endif
    ASSUME((SP & 3) == 0 && (GB & 3) == 0);
    for (int i = 0; i < NREG; i++)
        R0[i] = R[i];
    elf_code_start = ELF_START + elf_header_len;
    elf_code = buf - IDX0;
    elf_code_idx = IDX0;
    elf_offset = 0;
    elf_data_start = in();
    ASSUME((elf_data_start & 3) == 0 && elf_data_start > elf_code_start && elf_data_start < elf_code_start + MAX_CODE);
    start_pc = sim_pc = elf_code_start + IDX0;
    ir.next_bb = &bb1;
    ir.then_bb = &bb1;
    ir.else_bb = &bb2;
}

static void place(void)
{
    uint32_t a = in(), b = in();
    ASSUME((a & 3) == 0 && a < MAX_CODE && (b & 3) == 0 && b < MAX_CODE);
    bb1.elf_offset = a;
    bb2.elf_offset = b;
}

static void gen(void)
{
    int o = elf_offset, n = elf_code_idx;
    update_elf_offset(&ir);
    emit_ph2_ir(&ir);
    PROP(elf_offset - o == elf_code_idx - n, "the code has the size that was predicted for it");
}

static uint32_t word_at(uint32_t pc)
{
    uint32_t i = pc - elf_code_start - IDX0;
    return (buf[i] & 255) | (buf[i + 1] & 255) << 8 | (buf[i + 2] & 255) << 16 | (uint32_t) (buf[i + 3] & 255) << 24;
}

/* straight-line code: n words at most, one after the other; stops when control leaves the sequence */
static void run_words(int from, int max)
{
    int n = (elf_code_idx - IDX0) / 4;
    PROP(n <= max, "length");
    for (int i = from; i < max; i++)
        if (i < n && sim_pc == start_pc + 4 * i)
            SIM_STEP(word_at(start_pc + 4 * i));
}

static int reg(void)
{
    uint32_t r = in();
    ASSUME(r < REG_CNT);
    return r;
}

static void fall_through(void)
{
    PROP(sim_pc == elf_code_start + elf_code_idx, "control goes on after the operation");
}

/* every register but `dest` (-1: none) that holds program values is as before */
static void frame(int dest)
{
    for (int i = 0; i < REG_CNT; i++)
        if (i != dest)
            PROP(VREG(i) == OLD(VREG(i)), "no other register that holds a value changes");
    PROP(SP == OLD(SP), "the stack pointer is kept");
    PROP(GB == OLD(GB), "the base of the globals is kept");
}

static void binary(int op)
{
    machine();
    ir.op = op;
    ir.dest = reg();
    ir.src0 = reg();
    ir.src1 = reg();
    uint32_t a = VREG(ir.src0), b = VREG(ir.src1), r = 0;
    switch (op) {
    case OP_add: r = a + b; break;
    case OP_sub: r = a - b; break;
    case OP_mul: r = SIM_MUL(a, b); break;
    case OP_div:
        ASSUME(b != 0 && !(a == 0x80000000u && b == 0xffffffffu));
        r = SIM_DIV(a, b);
        break;
    case OP_mod:
        ASSUME(b != 0 && !(a == 0x80000000u && b == 0xffffffffu));
        r = SIM_REM(a, b);
        break;
    case OP_lshift:
        ASSUME(b < 32);
        r = a << b;
        break;
    case OP_rshift:
        ASSUME(b < 32);
        r = (uint32_t) ((int32_t) a >> b);
        break;
    case OP_bit_and: r = a & b; break;
    case OP_bit_or: r = a | b; break;
    case OP_bit_xor: r = a ^ b; break;
    case OP_eq: r = a == b; break;
    case OP_neq: r = a != b; break;
    case OP_lt: r = (int32_t) a < (int32_t) b; break;
    case OP_leq: r = (int32_t) a <= (int32_t) b; break;
    case OP_gt: r = (int32_t) a > (int32_t) b; break;
    case OP_geq: r = (int32_t) a >= (int32_t) b; break;
    case OP_negate: r = -a; break;
    case OP_bit_not: r = ~a; break;
    case OP_log_not: r = !a; break;
    case OP_assign: r = a; break;
    }
    gen();
    run_words(0, 5);
    PROP(VREG(ir.dest) == r, "the result of the operation");
    fall_through();
    frame(ir.dest);
    mem_frame(OLD(SP), 0, 0, 0);
    REACHED();
}
#define BIN(o) void op_##o(void) { binary(OP_##o); }
BIN(add) BIN(sub) BIN(lshift) BIN(rshift) BIN(bit_and) BIN(bit_or) BIN(bit_xor) BIN(eq) BIN(neq) BIN(lt) BIN(leq)
BIN(gt) BIN(geq) BIN(negate) BIN(bit_not) BIN(log_not) BIN(assign)
void op_mul(void) { hard_mul_div = 1; binary(OP_mul); }
void op_div(void) { hard_mul_div = 1; binary(OP_div); }
void op_mod(void) { hard_mul_div = 1; binary(OP_mod); }
#ifdef T_ARM
void op_mul_soft(void) { hard_mul_div = 0; binary(OP_mul); }
#endif

void op_load_constant(void)
{
    machine();
    ir.op = OP_load_constant;
    ir.dest = reg();
    ir.src0 = in();
    gen();
    run_words(0, 5);
    PROP(VREG(ir.dest) == (uint32_t) ir.src0, "the constant");
    fall_through();
    frame(ir.dest);
    mem_frame(OLD(SP), 0, 0, 0);
    REACHED();
}

static void addr(int op)
{
    machine();
    ir.op = op;
    ir.dest = reg();
    ir.src0 = in();
    ASSUME(ir.src0 >= 0);
    gen();
    run_words(0, 5);
    uint32_t base = op == OP_address_of ? OLD(SP) : op == OP_global_address_of ? OLD(GB) : (uint32_t) elf_data_start;
    PROP(VREG(ir.dest) == base + ir.src0, "the address");
    fall_through();
    frame(ir.dest);
    mem_frame(OLD(SP), 0, 0, 0);
    REACHED();
}
void op_address_of(void) { addr(OP_address_of); }
void op_global_address_of(void) { addr(OP_global_address_of); }
void op_load_data_address(void) { addr(OP_load_data_address); }

static void load(int op)
{
    machine();
    ir.op = op;
    ir.dest = reg();
    ir.src0 = in();
    ASSUME(ir.src0 >= 0);
    gen();
    run_words(0, 5);
    PROP(VREG(ir.dest) == mem_initial((op == OP_load ? OLD(SP) : OLD(GB)) + ir.src0, 4), "the value of the variable");
    fall_through();
    frame(ir.dest);
    mem_frame(OLD(SP), 0, 0, 0);
    REACHED();
}
void op_load(void) { load(OP_load); }
void op_global_load(void) { load(OP_global_load); }

static void store(int op)
{
    machine();
    ir.op = op;
    ir.src0 = reg();
    ir.src1 = in();
    ASSUME(ir.src1 >= 0);
    gen();
    run_words(0, 5);
    fall_through();
    frame(-1);
    int i = ir.src0;
    mem_frame(OLD(SP), (op == OP_store ? OLD(SP) : OLD(GB)) + ir.src1, OLD(VREG(i)), 4);
    REACHED();
}
void op_store(void) { store(OP_store); }
void op_global_store(void) { store(OP_global_store); }

void op_read(void)
{
    machine();
    ir.op = OP_read;
    ir.dest = reg();
    ir.src0 = reg();
    ir.src1 = in();
    ASSUME(ir.src1 == 1 || ir.src1 == 4);
    uint32_t a = VREG(ir.src0), v;
    gen();
    run_words(0, 4);
    v = mem_initial(a, ir.src1);
    PROP(VREG(ir.dest) == (ir.src1 == 1 ? CHAR_OF(v) : v), "the value read");
    fall_through();
    frame(ir.dest);
    mem_frame(OLD(SP), 0, 0, 0);
    REACHED();
}

void op_write(void)
{
    machine();
    ir.op = OP_write;
    ir.src0 = reg();
    ir.src1 = reg();
    ir.dest = in();
    ASSUME(ir.dest == 1 || ir.dest == 4);
    uint32_t a = VREG(ir.src0), v = VREG(ir.src1);
    gen();
    run_words(0, 4);
    fall_through();
    frame(-1);
    mem_frame(OLD(SP), a, v, ir.dest);
    REACHED();
}

void op_branch(void)
{
    machine();
    place();
    ir.op = OP_branch;
    ir.src0 = reg();
    ir.is_branch_detached = in() & 1;
    gen();
#ifdef T_ARM
    if (!ir.is_branch_detached)
        bb2.elf_offset = elf_code_idx;
#endif
    uint32_t c = VREG(ir.src0);
    ASSUME(bb1.elf_offset < IDX0 || bb1.elf_offset >= elf_code_idx);
    ASSUME(bb2.elf_offset < IDX0 || bb2.elf_offset >= elf_code_idx);
    int n = (elf_code_idx - IDX0) / 4, left = 0;
    PROP(n <= 6, "length");
    for (int i = 0; i < 6; i++)
        if (!left && i < n && sim_pc == start_pc + 4 * i) {
            SIM_STEP(word_at(start_pc + 4 * i));
            left = sim_pc <= start_pc + 4 * i || sim_pc >= start_pc + 4 * n;
        }
    PROP(sim_pc == (uint32_t) elf_code_start + (c ? bb1.elf_offset : bb2.elf_offset), "the branch goes where the condition says");
    frame(-1);
    mem_frame(OLD(SP), 0, 0, 0);
    REACHED();
}

void op_jump(void)
{
    machine();
    place();
    ir.op = OP_jump;
    gen();
    PROP(elf_code_idx == IDX0 + 4, "length");
    SIM_STEP(word_at(start_pc));
    PROP(sim_pc == (uint32_t) elf_code_start + bb1.elf_offset, "the jump reaches its block");
    frame(-1);
    mem_frame(OLD(SP), 0, 0, 0);
    REACHED();
}

static void function_f(void)
{
    FUNCS_MAP = hashmap_create(4);
    fun = add_func("f");
    fun->fn = &fnn;
    fnn.bbs = &bb1;
    fnn.func = fun;
    ir.func_name[0] = 'f';
    ir.func_name[1] = 0;
}

void op_call(void)
{
    function_f();
    machine();
    place();
    ir.op = OP_call;
    gen();
    PROP(elf_code_idx == IDX0 + 4, "length");
    SIM_STEP(word_at(start_pc));
    PROP(sim_pc == (uint32_t) elf_code_start + bb1.elf_offset, "the call reaches the function");
    PROP(LINK == (uint32_t) elf_code_start + elf_code_idx, "the return address is the next instruction");
    frame(-1);
    mem_frame(OLD(SP), 0, 0, 0);
    REACHED();
}

void op_address_of_func(void)
{
    function_f();
    machine();
    place();
    ir.op = OP_address_of_func;
    ir.src0 = reg();
    uint32_t a = VREG(ir.src0);
    gen();
    run_words(0, 5);
    fall_through();
    frame(-1);
    mem_frame(OLD(SP), a, elf_code_start + bb1.elf_offset, 4);
    REACHED();
}

void op_indirect(void)
{
    machine();
    ir.op = OP_load_func;
    ir.src0 = reg();
    uint32_t t = VREG(ir.src0);
    ASSUME((t & 3) == 0);
    gen();
    run_words(0, 2);
    fall_through();
    int k = (elf_code_idx - IDX0) / 4;
    MODEL(k == 1, "length");
    ir.op = OP_indirect;
    ir.src0 = in();
    gen();
    PROP(elf_code_idx == IDX0 + 8, "length");
    SIM_STEP(word_at(start_pc + 4));
    PROP(sim_pc == t, "the indirect call reaches the function");
    PROP(LINK == (uint32_t) elf_code_start + elf_code_idx, "the return address is the next instruction");
    frame(-1);
    mem_frame(OLD(SP), 0, 0, 0);
    REACHED();
}

/* a function from its first to its last instruction: a body may change its own slots, the values, and memory below */
void op_function(void)
{
    machine();
    int stack = in(), ret_reg = in();
    ASSUME(stack >= 4 && stack <= 0x100000 && (stack & 3) == 0);
    ASSUME(ret_reg >= -1 && ret_reg < REG_CNT);
    uint32_t ret = LINK, sp0 = SP;
    ASSUME((ret & 3) == 0);
    int o = elf_offset;
    ir.op = OP_define;
    ir.src0 = stack;
    emit_ph2_ir(&ir);
    int n1 = (elf_code_idx - IDX0) / 4;
    PROP(n1 == 4, "the prologue has the size that was predicted for it");
    run_words(0, 4);
    fall_through();
    for (int i = 0; i < REG_CNT; i++)
        PROP(VREG(i) == OLD(VREG(i)), "arguments arrive");
    PROP(sp0 - SP >= (uint32_t) stack && sp0 - SP <= (uint32_t) stack + 64, "room for the locals is reserved");
    PROP(GB == OLD(GB), "the base of the globals is kept");
    uint32_t sp1 = SP, slot = in(), v = in(), below = in();
    /* body */
    if (stack >= 8) {
        ASSUME(slot >= 4 && slot <= (uint32_t) stack - 4 && (slot & 3) == 0);
        mem_store(sp1 + slot, v, 4);
    }
    ASSUME(below >= 4 && below <= 0x1000 && (below & 3) == 0);
    mem_store(sp1 - below, v, 4);
    for (int i = 0; i < REG_CNT; i++)
        VREG(i) = in();
    for (int i = 0; i < NREG; i++)
        if (SCRATCH(i))
            R[i] = in();
    uint32_t r = VREG(ret_reg < 0 ? 0 : ret_reg);
    ir.op = OP_return;
    ir.src0 = ret_reg;
    ir.src1 = stack;
    gen();
    int n = (elf_code_idx - IDX0) / 4;
    PROP(n <= 12, "length");
    int left = 0;
    for (int i = 4; i < 12; i++)
        if (!left && i < n) {
            branched = 0;
            SIM_STEP(word_at(start_pc + 4 * i));
            left = branched;
        }
    PROP(left && sim_pc == ret, "the function returns to its caller");
    PROP(SP == sp0, "the stack pointer is as before the call");
    PROP(GB == OLD(GB), "the base of the globals is kept");
    if (ret_reg >= 0)
        PROP(VREG(0) == r, "the result is in the result register");
    REACHED();
}
