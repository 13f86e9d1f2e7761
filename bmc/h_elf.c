/* C15: the file written for any sizes of code, data and symbols */
#include <stdio.h>
#define NOUT 640
static unsigned char out[NOUT];
static int nout, opened, closed, wrong;
static char *opened_name;
static FILE *bmc_fopen(const char *name, const char *mode)
{
    opened++;
    opened_name = (char *) name;
    if (mode[0] != 'w')
        wrong = 1;
    return (FILE *) out;
}
static int bmc_fputc(int c, FILE *f)
{
    if (f != (FILE *) out || opened != 1 || closed || nout >= NOUT)
        wrong = 1;
    else
        out[nout] = c;
    nout++;
    return c & 255;
}
static int bmc_fclose(FILE *f)
{
    if (f != (FILE *) out)
        wrong = 1;
    closed++;
    return 0;
}
#ifndef BMC_FN
#define fopen bmc_fopen
#endif
#define fputc bmc_fputc
#ifndef BMC_FN
#define fclose bmc_fclose
#endif
#ifdef BMC_FN
/* natively the harness's own main needs the real fopen */
#define fopen(a, b) bmc_fopen(a, b)
#define fclose(a) bmc_fclose(a)
#endif
#include "common.h"

static uint32_t H(int p) { return (unsigned char) elf_header[p] | (unsigned char) elf_header[p + 1] << 8; }
static uint32_t W(int p) { return H(p) | H(p + 2) << 16; }
static uint32_t S(int p)
{
    return (unsigned char) elf_section[p] | (unsigned char) elf_section[p + 1] << 8 | (unsigned char) elf_section[p + 2] << 16 |
           (uint32_t) (unsigned char) elf_section[p + 3] << 24;
}
static int streq(int at, char *s)
{
    for (int i = 0;; i++) {
        if (elf_section[at + i] != s[i])
            return 0;
        if (!s[i])
            return 1;
    }
}

static void buffers(void)
{
    elf_header = malloc(MAX_HEADER);
    elf_symtab = malloc(MAX_SYMTAB);
    elf_strtab = malloc(MAX_STRTAB);
    elf_section = malloc(MAX_SECTION);
    elf_code_start = ELF_START + elf_header_len;
}

/* the header, and the section headers in elf_section from 'rest' on; the file is header, code, data, elf_section */
static void well_formed(uint32_t code, uint32_t data, uint32_t nsym)
{
    uint32_t total = elf_header_idx + code + data + elf_section_index, body = elf_header_idx + code + data;
    PROP(W(0) == 0x464c457f && H(4) == 0x0101 && elf_header[6] == 1, "the identification is that of a little-endian ELF32 file");
    PROP(H(16) == 2 && H(18) == ELF_MACHINE && W(20) == 1, "it is an executable for the selected machine");
    PROP(W(36) == ELF_FLAGS, "the flags are those of the machine");
    PROP(H(40) == 0x34 && H(42) == 0x20 && H(46) == 0x28, "the header sizes are those of ELF32");
    PROP(W(28) == 0x34 && H(44) == 1 && elf_header_idx == 0x54, "the program header follows the file header");
    PROP(W(0x34) == 1 && W(0x38) == elf_header_idx && W(0x44) == code + data && W(0x48) >= code + data,
         "the segment loads code and data, and nothing but them");
    PROP(W(0x3c) == elf_code_start && (W(0x4c) & 7) == 7, "the segment is loaded where the code was generated for");
    uint32_t al = W(0x50);
    PROP(al <= 1 || (al & (al - 1)) == 0 && (W(0x3c) & (al - 1)) == (W(0x38) & (al - 1)), "offset and address agree modulo the alignment");
    PROP(W(24) == elf_code_start, "the entry point is the first instruction");
    uint32_t sh = W(32);
    PROP(sh >= body && sh <= total && total - sh == (uint32_t) H(48) * 0x28, "the section headers end the file");
    PROP(H(48) == 6 && H(50) < H(48), "there are six sections and one of them has the names");
    /* positions in elf_section are kept concrete: the three tables, then the section headers */
    int t = elf_section_index - 6 * 0x28, names = t + 5 * 0x28, str, strat, strn = S(t + 4 * 0x28 + 20), seen = 0;
    PROP(H(50) == 5 && S(names + 4) == 3, "the section with the names has the right type");
    strat = nsym * 16;
    str = strat + strn;
    PROP(S(names + 16) == body + str && str + S(names + 20) == t, "the section names are in the file");
    uint32_t end = elf_header_idx;
    for (int i = 0; i < 6; i++) {
        int p = t + i * 0x28;
        if (i == 0) {
            for (int j = 0; j < 10; j++)
                PROP(S(p + 4 * j) == 0, "the null section is empty");
            continue;
        }
        uint32_t name = S(p), off = S(p + 16), size = S(p + 20);
        PROP(name < S(names + 20), "the name is in the table of names");
        PROP(off == end, "each section begins where the one before ends");
        end = off + size;
        if (streq(str + name, ".text")) {
            PROP(S(p + 4) == 1 && (S(p + 8) & 6) == 6 && S(p + 12) == elf_code_start && off == W(0x38) && size == code,
                 "the text section is the code");
            seen |= 1;
        } else if (streq(str + name, ".data")) {
            PROP(S(p + 4) == 1 && (S(p + 8) & 3) == 3 && S(p + 12) == elf_code_start + code && size == data, "the data section is the data");
            seen |= 2;
        } else if (streq(str + name, ".symtab")) {
            PROP(S(p + 4) == 2 && S(p + 36) == 16 && size == nsym * 16, "the symbol table has one entry per symbol");
            PROP(S(p + 24) == 4 && S(t + 4 * 0x28 + 4) == 3, "the symbol table is linked to a string table");
            PROP(S(p + 28) <= nsym, "the symbol table has no more local symbols than symbols");
            int q = t + 4 * 0x28;
            PROP(streq(str + S(q), ".strtab"), "the names of symbols are in .strtab");
            PROP(off == body && S(q + 16) == body + strat && S(q + 20) == strn, "the symbols come first, then their names");
            seen |= 4;
        } else if (streq(str + name, ".strtab")) {
            PROP(S(p + 4) == 3, "the string table is one");
            seen |= 8;
        } else {
            PROP(streq(str + name, ".shstrtab") && p == names, "every section is known");
            seen |= 16;
        }
    }
    PROP(seen == 31, "all sections are there");
    PROP(end == sh, "the section headers follow the sections");
    for (uint32_t i = 0; i < nsym; i++)
        PROP(S(16 * i) < strn, "the name of a symbol is in the string table");
}

/* any code and data size */
void headers(void)
{
    buffers();
    elf_code_idx = in();
    elf_data_idx = in();
    ASSUME(elf_code_idx >= 0 && elf_code_idx <= MAX_CODE && (elf_code_idx & 3) == 0);
    ASSUME(elf_data_idx >= 0 && elf_data_idx <= MAX_DATA - 3);
    int code = elf_code_idx, data = elf_data_idx;
    elf_align();
    PROP(elf_code_idx == code && elf_data_idx >= data && elf_data_idx < data + 4 && (elf_data_idx & 3) == 0, "the data is padded to a word");
    elf_generate_header();
    elf_generate_sections();
    well_formed(elf_code_idx, elf_data_idx, 0);
    REACHED();
}

/* up to two symbols with names of up to three characters */
static void symbols(int n, int l0, int l1)
{
    char name[2][4] = {{0}};
    int len[2] = {l0, l1}, pc[2], at[2];
    buffers();
    elf_code_idx = in();
    elf_data_idx = in();
    ASSUME(elf_code_idx >= 0 && elf_code_idx <= MAX_CODE && (elf_code_idx & 3) == 0);
    ASSUME(elf_data_idx >= 0 && elf_data_idx <= MAX_DATA - 3);
    for (int i = 0; i < n; i++) {
        pc[i] = in();
        for (int j = 0; j < len[i]; j++) {
            char c = in();
            ASSUME(c > 0);
            name[i][j] = c;
        }
        elf_add_symbol(name[i], len[i], pc[i]);
    }
    elf_align();
    elf_generate_header();
    elf_generate_sections();
    well_formed(elf_code_idx, elf_data_idx, n);
    for (int i = 0; i < n; i++) {
        at[i] = S(16 * i);
        PROP(S(16 * i + 4) == pc[i], "a symbol has its address");
        for (int j = 0; j <= len[i]; j++)
            PROP(elf_section[n * 16 + at[i] + j] == name[i][j], "a symbol has its name");
    }
    REACHED();
}
void symbols_1(void) { symbols(1, 3, 0); }
void symbols_2(void) { symbols(2, 1, 3); }
void symbols_00(void) { symbols(2, 0, 2); }

/* the whole file for small sizes */
static void file(int code, int data, int named)
{
    static char c[8], d[8];
    char cc[8], dd[8];
    buffers();
    elf_code = c;
    elf_data = d;
    for (int i = 0; i < 8; i++) {
        cc[i] = i < code ? in() : 0;
        dd[i] = i < data ? in() : 0;
    }
    for (int i = 0; i < code; i += 4)
        elf_write_code_int((unsigned char) cc[i] | (unsigned char) cc[i + 1] << 8 | (unsigned char) cc[i + 2] << 16 | (unsigned) (unsigned char) cc[i + 3] << 24);
    for (int i = 0; i < data; i += 3)
        elf_write_data_str(dd + i, data - i < 3 ? data - i : 3);
    char name[2] = "x";
    elf_generate(named ? name : NULL);
    PROP(opened == 1 && closed == 1 && !wrong, "one file is written and closed");
    PROP(named ? opened_name == name : !strcmp(opened_name, "a.out"), "the file has the requested name");
    PROP(elf_code_idx == code && elf_data_idx == (data + 3) / 4 * 4, "code and data have their size");
    PROP(nout == elf_header_idx + elf_code_idx + elf_data_idx + elf_section_index, "the file has the size of its parts");
    well_formed(elf_code_idx, elf_data_idx, 0);
    for (int i = 0; i < 0x54; i++)
        PROP(out[i] == (unsigned char) elf_header[i], "the header comes first");
    for (int i = 0; i < code; i++)
        PROP(out[0x54 + i] == (unsigned char) cc[i], "the code is written unchanged behind the header");
    for (int i = 0; i < data; i++)
        PROP(out[0x54 + code + i] == (unsigned char) dd[i], "the data is written unchanged behind the code");
    for (int i = 0; i < elf_section_index; i++)
        PROP(out[0x54 + code + elf_data_idx + i] == (unsigned char) elf_section[i], "the sections come last");
    REACHED();
}
void file_0_0(void) { file(0, 0, 1); }
void file_4_1(void) { file(4, 1, 0); }
void file_8_6(void) { file(8, 6, 1); }
void file_4_3(void) { file(4, 3, 1); }
void file_8_8(void) { file(8, 8, 0); }
