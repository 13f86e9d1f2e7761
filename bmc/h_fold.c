/* C07: what the compiler computes at compile time */
#include "common.h"

static int spec(int op, int a, int b)
{
    switch (op) {
    case OP_add: return (int) ((uint32_t) a + (uint32_t) b);
    case OP_sub: return (int) ((uint32_t) a - (uint32_t) b);
    case OP_mul: return (int) ((unsigned) a * (unsigned) b);
    case OP_div: return b == -1 ? (int) -(uint32_t) a : a / b;
    case OP_mod: return b == -1 ? 0 : a % b;
    case OP_lshift: return (int) ((uint32_t) a << b);
    case OP_rshift: return a >> b;
    case OP_bit_and: return a & b;
    case OP_bit_or: return a | b;
    case OP_bit_xor: return a ^ b;
    case OP_log_and: return a != 0 && b != 0;
    case OP_log_or: return a != 0 || b != 0;
    case OP_eq: return a == b;
    case OP_neq: return a != b;
    case OP_lt: return a < b;
    case OP_leq: return a <= b;
    case OP_gt: return a > b;
    case OP_geq: return a >= b;
    }
    return 0;
}

static void fold_initialiser(int op, int range)
{
    int a = in(), b = in();
    if (op == OP_div || op == OP_mod)
        ASSUME(b != 0);
    ASSUME(a <= range && a >= -range - 1 && b <= range && b >= -range - 1);
    if (op == OP_lshift || op == OP_rshift)
        ASSUME(b >= 0 && b < 32);
    PROP(eval_expression_imm(op, a, b) == spec(op, a, b), "the value of a constant expression");
    REACHED();
}

static void fold_arithmetic(int op, int range)
{
    static var_t l, r, d;
    static insn_t i;
    int a = in(), b = in();
    ASSUME(a <= range && a >= -range - 1 && b <= range && b >= -range - 1);
    i.opcode = op;
    i.rs1 = &l;
    i.rs2 = &r;
    i.rd = &d;
    l.is_const = in() & 1;
    r.is_const = in() & 1;
    l.init_val = a;
    r.init_val = b;
    int done = eval_const_arithmetic(&i);
    if (done) {
        PROP(l.is_const && r.is_const, "only constants are folded");
        PROP(!((op == OP_div || op == OP_mod) && b == 0), "division by zero is left to the run time");
        if (op == OP_lshift || op == OP_rshift)
            ASSUME(b >= 0 && b < 32);
        PROP(i.opcode == OP_load_constant && i.rd == &d && d.is_const, "the operation becomes a constant");
        PROP(d.init_val == spec(op, a, b), "the folded value");
    } else
        PROP(i.opcode == op && i.rs1 == &l && i.rs2 == &r && i.rd == &d && !d.is_const, "nothing changes when nothing is folded");
    PROP(l.init_val == a && r.init_val == b, "the operands are kept");
    REACHED();
}

#define F(o, r) void fold_initialiser_##o(void) { fold_initialiser(OP_##o, r); } \
    void fold_arithmetic_##o(void) { fold_arithmetic(OP_##o, r); }
#define ALL 0x7fffffff
F(add, ALL) F(sub, ALL) F(mul, 63) F(div, 1023) F(mod, 1023) F(lshift, ALL) F(rshift, ALL) F(bit_and, ALL) F(bit_or, ALL)
F(bit_xor, ALL) F(log_and, ALL) F(log_or, ALL) F(eq, ALL) F(neq, ALL) F(lt, ALL) F(leq, ALL) F(gt, ALL) F(geq, ALL)
