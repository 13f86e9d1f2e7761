/* C05: peephole() on a block of symbolic operations: registers and effects must be the same before and after */
#include "common.h"
#ifndef NOPS
#define NOPS 3
#endif
#define NREG 8
static ph2_ir_t op[NOPS + 1], old[NOPS + 1];
static uint32_t reg0[NREG], answer[NOPS + 1];
typedef struct {
    uint32_t r[NREG];
    int n;
    struct { int op; uint32_t a, b, c; } ev[NOPS + 1];
} run_t;

/* operations no rewriting is about: the same operands give the same result; exact when a counterexample is replayed */
#if defined(BMC) && !defined(BMC_REAL)
uint32_t __CPROVER_uninterpreted_alu(int, uint32_t, uint32_t);
#define ALU(op, a, b, exact) __CPROVER_uninterpreted_alu(op, a, b)
#else
#define ALU(op, a, b, exact) (exact)
#endif
static uint32_t mul(uint32_t a, uint32_t b)
{
    if (!a || !b)
        return 0;
    if (a == 1)
        return b;
    if (b == 1)
        return a;
    return a < b ? ALU(OP_mul, a, b, a * b) : ALU(OP_mul, b, a, a * b);
}
/* which of the fields are registers: 1 src0, 2 src1, 4 dest */
static int fields(int o)
{
    switch (o) {
    case OP_add: case OP_sub: case OP_mul: case OP_div: case OP_mod: case OP_lshift: case OP_rshift: case OP_bit_and: case OP_bit_or:
    case OP_bit_xor: case OP_eq: case OP_neq: case OP_lt: case OP_leq: case OP_gt: case OP_geq:
        return 7;
    case OP_negate: case OP_bit_not: case OP_log_not: case OP_assign: case OP_read:
        return 5;
    case OP_load_constant: case OP_load: case OP_global_load: case OP_address_of: case OP_global_address_of: case OP_load_data_address:
        return 4;
    case OP_write:
        return 3;
    case OP_store: case OP_global_store: case OP_address_of_func: case OP_load_func:
        return 1;
    case OP_call: case OP_indirect:
        return 0;
    }
    return -1;
}
static void step(run_t *t, ph2_ir_t *p)
{
    int f = fields(p->op);
    uint32_t a = f & 1 ? t->r[p->src0] : p->src0, b = f & 2 ? t->r[p->src1] : p->src1, v = 0;
    switch (p->op) {
    case OP_add: v = a + b; break;
    case OP_sub: v = a - b; break;
    case OP_mul: v = mul(a, b); break;
    case OP_div: v = b == 1 ? a : ALU(OP_div, a, b, b ? SIM_DIV(a, b) : 0); break;
    case OP_mod: v = b == 1 ? 0 : ALU(OP_mod, a, b, b ? SIM_REM(a, b) : 0); break;
    case OP_lshift: v = !b ? a : !a ? 0 : ALU(OP_lshift, a, b, b < 32 ? a << b : 0); break;
    case OP_rshift: v = !b ? a : !a ? 0 : ALU(OP_rshift, a, b, (int32_t) a >> (b < 32 ? b : 31)); break;
    case OP_bit_and: v = a & b; break;
    case OP_bit_or: v = a | b; break;
    case OP_bit_xor: v = a ^ b; break;
    case OP_eq: v = ALU(OP_eq, a, b, a == b); break;
    case OP_neq: v = ALU(OP_neq, a, b, a != b); break;
    case OP_lt: v = ALU(OP_lt, a, b, (int32_t) a < (int32_t) b); break;
    case OP_leq: v = ALU(OP_leq, a, b, (int32_t) a <= (int32_t) b); break;
    case OP_gt: v = ALU(OP_gt, a, b, (int32_t) a > (int32_t) b); break;
    case OP_geq: v = ALU(OP_geq, a, b, (int32_t) a >= (int32_t) b); break;
    case OP_negate: v = -a; break;
    case OP_bit_not: v = ~a; break;
    case OP_log_not: v = !a; break;
    case OP_assign: case OP_load_constant: v = a; break;
    default:
        /* touches memory or calls: what it is given must be the same, and it answers the same */
        MODEL(t->n <= NOPS, "effects");
        v = answer[t->n];
        t->ev[t->n].op = p->op;
        t->ev[t->n].a = a;
        t->ev[t->n].b = f & 2 || p->op == OP_store || p->op == OP_global_store || p->op == OP_read ? b : 0;
        t->ev[t->n].c = p->op == OP_write ? p->dest : 0;
        t->n++;
    }
    if (f & 4)
        t->r[p->dest] = v;
}
static void pairs(int kind)
{
    run_t x, y;
    static fn_t fn;
    static basic_block_t bb;
    for (int i = 0; i < NREG; i++)
        reg0[i] = in();
    for (int i = 0; i < NOPS; i++) {
        op[i].op = in();
        op[i].src0 = in();
        op[i].src1 = in();
        op[i].dest = in();
        answer[i] = in();
        int f = fields(op[i].op);
        ASSUME(f >= 0);
        ASSUME(i || kind == (op[0].op == OP_load_constant ? 0 : f == 7 ? 1 : f == 4 ? 2 : 3));
        ASSUME(!(f & 1) || (op[i].src0 >= 0 && op[i].src0 < NREG));
        ASSUME(!(f & 2) || (op[i].src1 >= 0 && op[i].src1 < NREG));
        ASSUME(!(f & 4) || (op[i].dest >= 0 && op[i].dest < NREG));
        op[i].next = &op[i + 1];
    }
    op[NOPS].op = OP_jump;
    op[NOPS].next = NULL;
    /* the result of an operation that is only copied is not used again, except as the copy: the register allocator copies a
     * value that stays alive before it is computed again */
    bool gone[NREG] = {0};
    for (int i = 0; i < NOPS; i++) {
        int f = fields(op[i].op);
        bool copy = i && op[i].op == OP_assign && (fields(op[i - 1].op) & 4) && op[i - 1].dest == op[i].src0;
        ASSUME(!(f & 1) || !gone[op[i].src0]);
        ASSUME(!(f & 2) || !gone[op[i].src1]);
        if (copy)
            gone[op[i].src0] = true;
        if (f & 4)
            gone[op[i].dest] = false;
    }
    x.n = y.n = 0;
    for (int i = 0; i < NREG; i++)
        x.r[i] = y.r[i] = reg0[i];
    for (int i = 0; i < NOPS; i++)
        step(&x, &op[i]);
    FUNC_LIST.head = &fn;
    fn.next = NULL;
    fn.bbs = &bb;
    bb.rpo_next = NULL;
    bb.ph2_ir_list.head = &op[0];
    bb.ph2_ir_list.tail = &op[NOPS];
    peephole();
    ph2_ir_t *p = bb.ph2_ir_list.head;
    int left = NOPS;
    for (int i = 0; i <= NOPS && p && p != &op[NOPS]; i++, p = p->next)
        for (int j = 0; j < NOPS; j++)
            if (p == &op[j]) {
                PROP(fields(op[j].op) >= 0 && left--, "the rewritten operations are operations on registers");
                step(&y, &op[j]);
            }
    PROP(p == &op[NOPS] && op[NOPS].op == OP_jump, "the end of the block is kept");
    PROP(x.n == y.n, "the same accesses and calls happen");
    for (int i = 0; i < NOPS; i++)
        if (i < x.n)
            PROP(x.ev[i].op == y.ev[i].op && x.ev[i].a == y.ev[i].a && x.ev[i].b == y.ev[i].b && x.ev[i].c == y.ev[i].c,
                 "accesses and calls are given the same values");
    for (int i = 0; i < NREG; i++)
        if (!gone[i])
            PROP(x.r[i] == y.r[i], "every register has the same value");
    REACHED();
}
void first_constant(void) { pairs(0); }
void first_binary(void) { pairs(1); }
void first_load(void) { pairs(2); }
void first_other(void) { pairs(3); }
