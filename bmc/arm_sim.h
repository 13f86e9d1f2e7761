/* Armv7-A semantics of what the compiler may emit */
static uint32_t R[16];
static int fN, fZ, fC, fV;
static uint32_t sim_pc;
static int branched;

static int arm_cond(uint32_t c)
{
    int r;
    switch (c >> 1) {
    case 0: r = fZ; break;
    case 1: r = fC; break;
    case 2: r = fN; break;
    case 3: r = fV; break;
    case 4: r = fC && !fZ; break;
    case 5: r = fN == fV; break;
    case 6: r = !fZ && fN == fV; break;
    default: r = 1; break;
    }
    if ((c & 1) && c != 15)
        r = !r;
    return r;
}

static uint32_t rd_reg(int i) { return i == 15 ? sim_pc + 8 : R[i]; }

static void wr_reg(int i, uint32_t v)
{
    if (i == 15) {
        sim_pc = v - 4;
        branched = 1;
    } else
        R[i] = v;
}

static void arm_step(uint32_t w)
{
    MODEL((w >> 28) != 15, "unconditional space");
    if (!arm_cond(w >> 28)) {
        sim_pc += 4;
        return;
    }
    uint32_t op1 = (w >> 25) & 7;
    int rn = (w >> 16) & 15, rd = (w >> 12) & 15, rm = w & 15, rs = (w >> 8) & 15;
    if ((w & 0x0ffffff0) == 0x012fff30) { /* blx */
        uint32_t t = R[rm];
        R[14] = sim_pc + 4;
        sim_pc = t - 4;
        branched = 1;
    } else if ((w & 0x0fc000f0) == 0x00000090) { /* mul */
        MODEL(!(w & 0x00300000), "mla or flags");
        R[rn] = SIM_MUL(R[rm], R[rs]);
    } else if ((w & 0x0ff0f0f0) == 0x0710f010) { /* sdiv */
        uint32_t a = R[rm], b = R[rs];
        R[rn] = b == 0 ? 0 : (a == 0x80000000u && b == 0xffffffffu) ? a : SIM_DIV(a, b);
    } else if ((w & 0x0ff00000) == 0x03000000) { /* movw */
        R[rd] = ((w >> 4) & 0xf000) | (w & 0xfff);
    } else if ((w & 0x0ff00000) == 0x03400000) { /* movt */
        R[rd] = (R[rd] & 0xffff) | (((w >> 4) & 0xf000) | (w & 0xfff)) << 16;
    } else if (op1 == 0 || op1 == 1) {
        int op = (w >> 21) & 15, s = (w >> 20) & 1, cout = fC;
        uint32_t b, a = rd_reg(rn), r = 0;
        MODEL(s || op < 8 || op > 11, "miscellaneous instruction");
        if (op1 == 1) {
            int rot = ((w >> 8) & 15) * 2;
            b = w & 255;
            if (rot) {
                b = (b >> rot) | (b << (32 - rot));
                cout = b >> 31;
            }
        } else {
            int ty = (w >> 5) & 3;
            uint32_t n, v = rd_reg(rm);
            if (w & 16) {
                MODEL(!(w & 128), "multiply or extra load");
                n = R[rs] & 255;
            } else {
                n = (w >> 7) & 31;
                if (n == 0 && (ty == 1 || ty == 2))
                    n = 32;
                MODEL(!(n == 0 && ty == 3), "rrx");
            }
            b = v;
            if (n) {
                switch (ty) {
                case 0:
                    b = n < 32 ? v << n : 0;
                    cout = n < 32 ? (v >> (32 - n)) & 1 : n == 32 ? v & 1 : 0;
                    break;
                case 1:
                    b = n < 32 ? v >> n : 0;
                    cout = n <= 32 ? (v >> (n - 1)) & 1 : 0;
                    break;
                case 2:
                    b = n < 32 ? (uint32_t) ((int32_t) v >> n) : (uint32_t) ((int32_t) v >> 31);
                    cout = n < 32 ? (v >> (n - 1)) & 1 : v >> 31;
                    break;
                default:
                    n &= 31;
                    if (n)
                        b = (v >> n) | (v << (32 - n));
                    cout = b >> 31;
                }
            }
        }
        uint64_t u;
        int c = cout, ov = fV, wr = 1;
        switch (op) {
        case 0: r = a & b; break;
        case 1: r = a ^ b; break;
        case 2:
            r = a - b;
            c = a >= b;
            ov = ((a ^ b) & (a ^ r)) >> 31;
            break;
        case 3:
            r = b - a;
            c = b >= a;
            ov = ((a ^ b) & (b ^ r)) >> 31;
            break;
        case 4:
            u = (uint64_t) a + b;
            r = (uint32_t) u;
            c = (u >> 32) & 1;
            ov = (~(a ^ b) & (a ^ r)) >> 31;
            break;
        case 5:
            u = (uint64_t) a + b + fC;
            r = (uint32_t) u;
            c = (u >> 32) & 1;
            ov = (~(a ^ b) & (a ^ r)) >> 31;
            break;
        case 6:
            r = a - b - !fC;
            c = (uint64_t) a >= (uint64_t) b + !fC;
            ov = ((a ^ b) & (a ^ r)) >> 31;
            break;
        case 7:
            r = b - a - !fC;
            c = (uint64_t) b >= (uint64_t) a + !fC;
            ov = ((a ^ b) & (b ^ r)) >> 31;
            break;
        case 8: r = a & b; wr = 0; break;
        case 9: r = a ^ b; wr = 0; break;
        case 10:
            r = a - b;
            c = a >= b;
            ov = ((a ^ b) & (a ^ r)) >> 31;
            wr = 0;
            break;
        case 11:
            u = (uint64_t) a + b;
            r = (uint32_t) u;
            c = (u >> 32) & 1;
            ov = (~(a ^ b) & (a ^ r)) >> 31;
            wr = 0;
            break;
        case 12: r = a | b; break;
        case 13: r = b; break;
        case 14: r = a & ~b; break;
        default: r = ~b; break;
        }
        if (s) {
            fN = r >> 31;
            fZ = r == 0;
            fC = c;
            fV = ov;
        }
        if (wr)
            wr_reg(rd, r);
    } else if (op1 == 2 || (op1 == 3 && !(w & 16))) {
        MODEL(op1 == 2 || (w & 0xff0) == 0, "shifted register offset");
        uint32_t off = op1 == 2 ? w & 0xfff : R[rm];
        uint32_t base = rd_reg(rn), ea;
        int p = (w >> 24) & 1, u = (w >> 23) & 1, by = (w >> 22) & 1, wb = (w >> 21) & 1, l = (w >> 20) & 1;
        ea = u ? base + off : base - off;
        uint32_t at = p ? ea : base;
        if (l) {
            uint32_t v = mem_load(at, by ? 1 : 4);
            if (wb || !p)
                R[rn] = ea;
            wr_reg(rd, v);
        } else {
            mem_store(at, rd_reg(rd), by ? 1 : 4);
            if (wb || !p)
                R[rn] = ea;
        }
    } else if (op1 == 5) {
        int32_t o = (int32_t) (w << 8) >> 6;
        if (w & (1 << 24))
            R[14] = sim_pc + 4;
        sim_pc = sim_pc + 8 + o - 4;
        branched = 1;
    } else
        MODEL(0, "instruction");
    sim_pc += 4;
}
#define SIM_STEP arm_step
#define SP R[13]
#define GB R[12]
#define LINK R[14]
#define VREG(i) R[i]
/* registers in which no program value lives */
#define SCRATCH(i) ((i) == 8 || (i) == 9 || (i) == 10 || (i) == 11 || (i) == 14)
#define NREG 15
#define CHAR_OF(v) ((uint32_t) (uint8_t) (v))
