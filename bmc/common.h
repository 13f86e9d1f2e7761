/* Every harness includes the compiler's real sources (all of main.c) and runs some of its functions on symbolic values. */
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static unsigned bmc_in_val[256];
static int bmc_in_n;
#ifdef BMC
unsigned nondet_uint(void);
static unsigned in(void)
{
    unsigned v = nondet_uint();
    bmc_in_val[bmc_in_n] = v;
    bmc_in_n++;
    return v;
}
#define ASSUME(c) __CPROVER_assume(c)
#define PROP(c, msg) __CPROVER_assert(c, "PROP " msg)
#define MODEL(c, msg) do { _Bool ok_ = (c); __CPROVER_assert(ok_, "MODEL " msg); __CPROVER_assume(ok_); } while (0)
#define REACHED() __CPROVER_assert(0, "REACH")
#define BMC_STOP() __CPROVER_assume(0)
#else
static unsigned in(void) { return bmc_in_val[bmc_in_n++]; }
#define ASSUME(c) do { if (!(c)) { printf("assumption does not hold: %s\n", #c); exit(0); } } while (0)
#define PROP(c, msg) do { if (!(c)) { printf("violated: %s\n", msg); fflush(stdout); _Exit(42); } } while (0)
#define MODEL(c, msg) do { if (!(c)) { printf("outside the model: %s\n", msg); exit(0); } } while (0)
#define REACHED()
#define BMC_STOP() exit(0)
#endif
/* products and quotients: uninterpreted first, exact when a counterexample is looked for */
#if defined(BMC) && !defined(BMC_REAL)
uint32_t __CPROVER_uninterpreted_mul(uint32_t, uint32_t);
uint32_t __CPROVER_uninterpreted_div(uint32_t, uint32_t);
uint32_t __CPROVER_uninterpreted_rem(uint32_t, uint32_t);
static uint32_t SIM_MUL(uint32_t a, uint32_t b)
{
    return a < b ? __CPROVER_uninterpreted_mul(a, b) : __CPROVER_uninterpreted_mul(b, a);
}
#define SIM_DIV(a, b) __CPROVER_uninterpreted_div(a, b)
#ifdef T_ARM
#define SIM_REM(a, b) ((a) - SIM_MUL(b, SIM_DIV(a, b)))
#else
#define SIM_REM(a, b) __CPROVER_uninterpreted_rem(a, b)
#endif
#else
#define SIM_MUL(a, b) ((uint32_t) (a) * (uint32_t) (b))
#define SIM_DIV(a, b) ((uint32_t) ((int32_t) (a) / (int32_t) (b)))
#define SIM_REM(a, b) ((uint32_t) ((int32_t) (a) % (int32_t) (b)))
#endif
/* a compiler that gives up (error(), abort()) on something it must handle violates the property under check */
static int bmc_may_abort;
static void bmc_abort(void)
{
    PROP(bmc_may_abort, "the compiler does not give up");
    BMC_STOP();
}
#define abort() bmc_abort()
#ifdef BMC_ERROR
#define error bmc_real_error
#endif
#define main shecc_main
#include "main.c"
#undef main
#ifndef BMC
#define ENTRY(f) int main(int argc, char **argv) { FILE *fp = fopen(argv[1], "r"); for (int i = 0; fp && i < 256; i++) \
    if (fscanf(fp, "%u", &bmc_in_val[i]) != 1) break; f(); puts("held"); return 0; }
#ifdef BMC_FN
void BMC_FN(void);
ENTRY(BMC_FN)
#endif
#endif
