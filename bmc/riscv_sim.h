/* RV32IM semantics */
static uint32_t R[32];
static uint32_t sim_pc;
static int branched;

static void riscv_step(uint32_t w)
{
    int op = w & 127, rd = (w >> 7) & 31, f3 = (w >> 12) & 7, r1 = (w >> 15) & 31, r2 = (w >> 20) & 31;
    uint32_t a = R[r1], b = R[r2], f7 = w >> 25, r = 0, next = sim_pc + 4;
    int32_t ii = (int32_t) w >> 20;
    int32_t is = ((int32_t) (w & 0xfe000000) >> 20) | rd;
    int32_t ib = ((int32_t) (w & 0x80000000) >> 19) | ((w & 0x80) << 4) | ((w >> 20) & 0x7e0) | ((w >> 7) & 0x1e);
    int32_t ij = ((int32_t) (w & 0x80000000) >> 11) | (w & 0xff000) | ((w >> 9) & 0x800) | ((w >> 20) & 0x7fe);
    int wr = 1;
    switch (op) {
    case 0x37: r = w & 0xfffff000; break;
    case 0x17: r = sim_pc + (w & 0xfffff000); break;
    case 0x6f: r = next; next = sim_pc + ij; branched = 1; break;
    case 0x67:
        MODEL(f3 == 0, "jalr");
        r = next;
        next = (a + ii) & ~1u;
        branched = 1;
        break;
    case 0x63: {
        int t;
        wr = 0;
        MODEL(f3 != 2 && f3 != 3, "branch");
        switch (f3) {
        case 0: t = a == b; break;
        case 1: t = a != b; break;
        case 4: t = (int32_t) a < (int32_t) b; break;
        case 5: t = (int32_t) a >= (int32_t) b; break;
        case 6: t = a < b; break;
        default: t = a >= b; break;
        }
        if (t)
            next = sim_pc + ib;
        break;
    }
    case 0x03:
        MODEL(f3 == 0 || f3 == 2 || f3 == 4, "load");
        r = mem_load(a + ii, f3 == 2 ? 4 : 1);
        if (f3 == 0)
            r = (uint32_t) (int32_t) (int8_t) r;
        break;
    case 0x23:
        wr = 0;
        MODEL(f3 == 0 || f3 == 2, "store");
        mem_store(a + is, b, f3 == 2 ? 4 : 1);
        break;
    case 0x13:
    case 0x33:
        if (op == 0x33 && f7 == 1) {
            switch (f3) {
            case 0: r = SIM_MUL(a, b); break;
            case 1: case 2: case 3: MODEL(0, "mulh"); break;
            case 4: r = b == 0 ? 0xffffffffu : (a == 0x80000000u && b == 0xffffffffu) ? a : SIM_DIV(a, b); break;
            case 5: case 7: MODEL(0, "divu"); break;
            case 6: r = b == 0 ? a : (a == 0x80000000u && b == 0xffffffffu) ? 0 : SIM_REM(a, b); break;
            }
            break;
        }
        if (op == 0x13) {
            b = ii;
            MODEL(f3 != 1 || f7 == 0, "slli");
            MODEL(f3 != 5 || f7 == 0 || f7 == 32, "srli");
        } else
            MODEL(f7 == 0 || (f7 == 32 && (f3 == 0 || f3 == 5)), "op");
        switch (f3) {
        case 0: r = op == 0x33 && f7 == 32 ? a - b : a + b; break;
        case 1: r = a << (b & 31); break;
        case 2: r = (int32_t) a < (int32_t) b; break;
        case 3: r = a < b; break;
        case 4: r = a ^ b; break;
        case 5: r = f7 == 32 ? (uint32_t) ((int32_t) a >> (b & 31)) : a >> (b & 31); break;
        case 6: r = a | b; break;
        default: r = a & b; break;
        }
        break;
    default:
        MODEL(0, "instruction");
    }
    if (wr && rd)
        R[rd] = r;
    sim_pc = next;
}
#define SIM_STEP riscv_step
#define SP R[2]
#define GB R[3]
#define LINK R[1]
#define VREG(i) R[(i) + 10]
#define SCRATCH(i) ((i) == 1 || ((i) >= 5 && (i) <= 7) || (i) >= 28 || (i) == 8 || (i) == 9 || ((i) >= 18 && (i) <= 27) || (i) == 4)
#define NREG 32
#define CHAR_OF(v) ((uint32_t) (int32_t) (int8_t) (v))
