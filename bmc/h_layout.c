/* C03: the positions cfg_flatten computes are the positions at which code_generate puts things */
#include "common.h"
static char code[2048];
static fn_t f_fn, g_fn, s_fn;
static basic_block_t g_bb, s_bb, b0, b1, b2;
static ph2_ir_t g_ir, ir0, ir1;
static int n_words;

/* stands for elf_write_code_int: only the number of words matters here */
void bmc_count_word(int v)
{
    (void) v;
    elf_code_idx += 4;
    n_words++;
}

/* registers do not matter for sizes, but whether two are the same does */
static int reg(void) { return in() & 1; }

#ifdef T_ARM
int bmc_mov(arm_cond_t cond, int io, int opcode, int s, int rn, int rd, int op2) { return cond + io + opcode + s + rn + rd + op2; }
#endif

void bmc_error(char *msg)
{
    (void) msg;
    abort();
}

static const int ops[] = {OP_load_constant, OP_address_of, OP_global_address_of, OP_assign, OP_load, OP_global_load, OP_store,
                          OP_global_store, OP_read, OP_write, OP_branch, OP_jump, OP_call, OP_load_func, OP_indirect, OP_add,
                          OP_sub, OP_mul, OP_div, OP_mod, OP_lshift, OP_rshift, OP_bit_and, OP_bit_or, OP_bit_xor, OP_negate,
                          OP_bit_not, OP_load_data_address, OP_address_of_func, OP_eq, OP_neq, OP_gt, OP_lt, OP_geq, OP_leq,
                          OP_log_not, OP_return};
#define NOPS (sizeof ops / sizeof ops[0])

static void some_ir(ph2_ir_t *p)
{
    uint32_t k = in();
    ASSUME(k < NOPS);
    p->op = ops[k];
    p->dest = reg();
    p->src0 = reg();
    p->src1 = reg();
    int v = in();
    switch (p->op) {
    case OP_load_constant: p->src0 = v; break;
    case OP_address_of: case OP_global_address_of: case OP_load: case OP_global_load: case OP_load_data_address:
        ASSUME(v >= 0);
        p->src0 = v;
        break;
    case OP_store: case OP_global_store:
        ASSUME(v >= 0);
        p->src1 = v;
        break;
    case OP_read: p->src1 = v & 1 ? 1 : 4; break;
    case OP_write: p->dest = v & 1 ? 1 : 4; break;
    case OP_return: p->src0 = v & 1 ? -1 : p->src0; break;
    }
    p->func_name[0] = 'f';
    p->next_bb = p->then_bb = &b0;
    p->else_bb = v & 1 ? &b1 : &b0;
}

static func_t s_func, f_func;
func_t *bmc_find_func(char *name) { return name[0] == '_' ? &s_func : &f_func; }

static void layout(int n, int m)
{
#ifndef BMC
    FUNCS_MAP = hashmap_create(4);
    hashmap_put(FUNCS_MAP, "__syscall", &s_func);
    hashmap_put(FUNCS_MAP, "f", &f_func);
#endif
    BB_ARENA = arena_init(4096);
    static ph2_ir_t *flat[16];
    PH2_IR_FLATTEN = flat;
    func_t *g = &GLOBAL_FUNC, *s = &s_func, *f = &f_func;
    g->fn = &g_fn;
    s->fn = &s_fn;
    f->fn = &f_fn;
    g_fn.bbs = &g_bb;
    g_fn.func = g;
    s_fn.bbs = &s_bb;
    s_fn.func = s;
    f_fn.bbs = &b0;
    f_fn.func = f;
    g->stack_size = in() & 0xffffc;
    f->stack_size = in() & 0xffffc;
    hard_mul_div = in() & 1;
    elf_code = code;
    elf_code_start = ELF_START + elf_header_len;
    FUNC_LIST.head = FUNC_LIST.tail = &f_fn;
    b0.rpo_next = &b1;
    b0.belong_to = b1.belong_to = b2.belong_to = &f_fn;
    if (m) {
        some_ir(&g_ir);
        ASSUME(g_ir.op != OP_return && g_ir.op != OP_branch && g_ir.op != OP_jump);
        g_bb.ph2_ir_list.head = g_bb.ph2_ir_list.tail = &g_ir;
    }
    some_ir(&ir0);
    some_ir(&ir1);
    if (n == 2) { /* both in the first block */
        ir0.next = &ir1;
        b0.ph2_ir_list.head = &ir0;
        b0.ph2_ir_list.tail = &ir1;
    } else {      /* one in each, an empty one at the end */
        b0.ph2_ir_list.head = b0.ph2_ir_list.tail = &ir0;
        b1.ph2_ir_list.head = b1.ph2_ir_list.tail = &ir1;
        b1.rpo_next = &b2;
    }
    MAIN_BB = &b0;
    cfg_flatten();
    int end = n == 2 ? b1.elf_offset : b2.elf_offset;
    code_generate();
    PROP(elf_code_idx == elf_offset, "the code has the length that was computed in advance");
    PROP(end == elf_code_idx, "a block lies where it was said to lie");
    PROP(elf_data_start == elf_code_start + elf_code_idx, "the data follows the code");
    REACHED();
}
void layout_10(void) { layout(1, 0); }
void layout_11(void) { layout(1, 1); }
void layout_20(void) { layout(2, 0); }
