/* C10: the value of a number, and of an escape sequence */
#include "common.h"
static int rejected;

void bmc_error(char *msg)
{
    (void) msg;
    rejected = 1;
    PROP(bmc_may_abort, "a valid literal is accepted");
    BMC_STOP();
}

static char s[16];

/* representable values only: at most 8 hexadecimal, 11 octal and 10 decimal digits */
static void number(int base, int n, int maxlen)
{
    int p = 0, ok = 1;
    uint32_t v = 0;
    if (!n) {
        n = in();
        ASSUME(n >= 1 && n <= maxlen);
    }
    if (base == 16) {
        s[0] = '0';
        s[1] = in() & 1 ? 'x' : 'X';
        p = 2;
    } else if (base == 8) {
        s[0] = '0';
        p = 1;
        n--;
    }
    for (int i = 0; i < maxlen; i++)
        if (i < n) {
            char c = in();
            ASSUME((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F') || c == 'x' || c == 'X');
            int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
            if (base == 10 && i == 0)
                ASSUME(c != '0' && (n < 10 || c <= '3'));
            if (base == 8 && i == 0 && n == 11)
                ASSUME(c <= '3');
            if (base == 8 && i == 0)
                ASSUME(c != 'x' && c != 'X');
            if (d >= base)
                ok = 0;
            else if (base == 10)
                v = v * 10 + c - '0';
            else
                v = (base == 16 ? v << 4 : v << 3) | d;
            s[p + i] = c;
        }
    s[p + n] = 0;
    bmc_may_abort = !ok;
    int r = read_numeric_constant(s);
    PROP(ok, "an invalid number is rejected");
    PROP((uint32_t) r == (uint32_t) v, "the value of the number");
    REACHED();
}
#define D(k) void number_dec##k(void) { number(10, k, k); }
D(1) D(2) D(3) D(4) D(5) D(6) D(7) D(8) D(9) D(10)
void number_hex(void) { number(16, 0, 8); }
void number_oct(void) { number(8, 0, 12); }

void escape(void)
{
    char c = in();
    int v = c == 'n' ? 10 : c == 't' ? 9 : c == 'r' ? 13 : c == '0' ? 0 : c == '\\' ? 92 : c == '\'' ? 39 : c == '"' ? 34 :
            c == 'a' ? 7 : c == 'b' ? 8 : c == 'f' ? 12 : c == 'v' ? 11 : c == '?' ? 63 : -1;
    int supported = c == 'n' || c == 't' || c == 'r' || c == '0' || c == '\\' || c == '\'' || c == '"';
    bmc_may_abort = !supported;
    int r = unescape_char(c);
    PROP(v == r, "the value of an escape sequence");
    REACHED();
}
