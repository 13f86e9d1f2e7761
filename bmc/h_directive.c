/* C19: conditional groups, and the value of a condition, on every token sequence of the stated shapes */
#include "common.h"
#ifndef L
#define L 6
#endif
static bool skip, gave_up;
void bmc_error(char *msg)
{
    (void) msg;
    PROP(skip, "a supported sequence of directives is accepted");
    gave_up = true;
#ifdef LINES
    BMC_STOP();
#endif
}

#ifdef LINES
#define TEXT 2
#else
#define TEXT 8
#endif
#define T (2 * L + 4)
static unsigned char tok[T], arg[T], ntok, pos;

/* the token stream: names A and B, one-digit numbers */
token_t bmc_token(bool aliasing)
{
    (void) aliasing;
    if (pos >= ntok)
        return T_eof;
    int k = pos++;
#ifdef LINES
    token_str[0] = tok[k] == T_identifier ? 'A' + (arg[k] & 1) : '0' + (arg[k] & 1);
    token_str[1] = 0;
    next_char = '\n';
    return (token_t) tok[k];
#else
    token_str[0] = 0;
    if (tok[k] == T_identifier)
        token_str[0] = 'A' + (arg[k] & 1);
    if (tok[k] == T_numeric)
        token_str[0] = '0' + arg[k];
    token_str[1] = 0;
    if (tok[k] == T_else)
        strcpy(token_str, "defined");
    return tok[k] == T_else ? T_identifier : (token_t) tok[k];
#endif
}

int bmc_cond(void)
{
    int v = token_str[0] - '0';
    PROP(next_token == T_numeric, "the condition follows #if or #elif");
    next_token = bmc_token(true);
    return v;
}

#ifdef BMC
/* no token text is longer than this */
char *bmc_strcpy(char *d, const char *s)
{
    for (int i = 0; i < TEXT; i++)
        d[i] = s[i];
    return d;
}

/* which names are macros; the table itself is the subject of alias_* below */
static bool defined_now[2];
static alias_t some_alias;
void bmc_add(char *name, char *value, int type)
{
    (void) value, (void) type;
    defined_now[name[0] == 'B'] = true;
}
alias_t *bmc_find(char *name) { return defined_now[name[0] == 'B'] ? &some_alias : NULL; }
macro_t *bmc_find_macro(char *name) { (void) name; return NULL; }
bool bmc_remove(char *name)
{
    bool was = defined_now[name[0] == 'B'];
    defined_now[name[0] == 'B'] = false;
    return was;
}
macro_t *bmc_add_macro(char *name)
{
    (void) name;
    PROP(0, "#define of a plain name makes no function-like macro");
    BMC_STOP();
    return NULL;
}
bool bmc_remove_macro(char *name) { (void) name; return false; }
#define DEFINE(i) (defined_now[i] = true)
#define DEFINED(i) defined_now[i]
#else
#define DEFINE(i) add_alias(i ? "B" : "A", "1", T_numeric)
#define DEFINED(i) is_defined(i ? "B" : "A")
#endif

#ifndef BMC
/* the native replay reads the same tokens as text */
static char text[1024];
static void spell(void)
{
    int n = 0;
    static const struct { int t; const char *s; } names[] = {
        {T_cppd_if, "#if "}, {T_cppd_elif, "#elif "}, {T_cppd_else, "#else"}, {T_cppd_endif, "#endif"}, {T_cppd_ifdef, "#ifdef "},
        {T_cppd_ifndef, "#ifndef "}, {T_cppd_define, "#define "}, {T_cppd_undef, "#undef "}, {T_semicolon, ";"}, {T_plus, "+"},
        {T_minus, "-"}, {T_asterisk, "*"}, {T_divide, "/"}, {T_mod, "%"}, {T_lshift, "<<"}, {T_rshift, ">>"}, {T_log_and, "&&"},
        {T_log_or, "||"}, {T_eq, "=="}, {T_noteq, "!="}, {T_lt, "<"}, {T_le, "<="}, {T_gt, ">"}, {T_ge, ">="}, {T_ampersand, "&"},
        {T_bit_or, "|"}, {T_bit_xor, "^"}, {T_log_not, "!"}, {T_bit_not, "~"}, {T_open_bracket, "("}, {T_close_bracket, ")"},
        {T_else, "defined"}};
    for (int i = 0; i < ntok; i++) {
        if (tok[i] == T_identifier)
            n += sprintf(text + n, "%c\n", 'A' + (arg[i] & 1));
        else if (tok[i] == T_numeric)
            n += sprintf(text + n, "%d ", arg[i]);
        else
            for (unsigned k = 0; k < sizeof names / sizeof *names; k++)
                if (names[k].t == tok[i])
                    n += sprintf(text + n, "%s ", names[k].s);
        if (tok[i] == T_cppd_else || tok[i] == T_cppd_endif || tok[i] == T_semicolon)
            n += sprintf(text + n, "\n");
    }
    static source_t s;
    s.elements = text;
    s.size = 0;
    SOURCE = &s;
    next_char = text[0];
    skip_newline = true;
    skip_whitespace();
}
#define FIRST() (spell(), next_token = lex_token())
#else
#define FIRST() (next_token = bmc_token(true))
#endif

static void put(int t, int a)
{
    tok[ntok] = t;
    arg[ntok++] = a;
}

static alias_t aliases[L + 3];
static macro_t macros[1];

static unsigned char want[L + 1], nwant;

static void lines(int n)
{
    /* for each open conditional: 0 compiling, 1 no group taken yet, 2 done; outer group compiled?; #else seen? */
    unsigned char state[L + 1], els[L + 1], depth = 0;
    bool def[2];
    ALIASES = aliases;
    MACROS = macros;
    for (int i = 0; i < 2; i++) {
        def[i] = in() & 1;
        if (def[i])
            DEFINE(i);
    }
    for (int i = 0; i < n; i++) {
        int kind = in(), v = in() & 1;
        bool on = true;
        ASSUME(kind >= 0 && kind <= 8);
        for (int d = 0; d < depth; d++)
            on = on && state[d] == 0;
        if (kind == 0) {
            if (on)
                want[nwant++] = i;
            put(T_semicolon, 0);
        } else if (kind <= 3) {
            bool c = kind == 1 ? v : kind == 2 ? def[v] : !def[v];
            put(kind == 1 ? T_cppd_if : kind == 2 ? T_cppd_ifdef : T_cppd_ifndef, 0);
            put(kind == 1 ? T_numeric : T_identifier, v);
            ASSUME(depth < L);
            els[depth] = 0;
            state[depth++] = c ? 0 : 1;
        } else if (kind == 4) {
            put(T_cppd_elif, 0);
            put(T_numeric, v);
            ASSUME(depth && !els[depth - 1]);
            state[depth - 1] = state[depth - 1] != 1 ? 2 : v ? 0 : 1;
        } else if (kind == 5) {
            put(T_cppd_else, 0);
            ASSUME(depth && !els[depth - 1]);
            els[depth - 1] = 1;
            state[depth - 1] = state[depth - 1] != 1 ? 2 : 0;
        } else if (kind == 6) {
            put(T_cppd_endif, 0);
            ASSUME(depth);
            depth--;
        } else {
            put(kind == 7 ? T_cppd_define : T_cppd_undef, 0);
            put(T_identifier, v);
            if (on)
                def[v] = kind == 7;
        }
    }
    ASSUME(depth == 0);
    FIRST();
    int got = 0;
    for (int k = 0; k <= n && next_token != T_eof; k++) {
        if (read_preproc_directive())
            continue;
        PROP(next_token == T_semicolon && got < nwant, "only the selected text is compiled");
        got++;
#ifdef BMC
        PROP(pos - 1 >= 0 && tok[pos - 1] == T_semicolon, "MODEL");
        /* which line is it: the text lines before it in the stream */
        int line = -1;
        for (int j = 0; j < pos; j++)
            if (1)
                line += tok[j] != T_numeric && tok[j] != T_identifier;
        PROP(want[got - 1] == line, "the selected groups are compiled, in order");
#endif
        next_token =
#ifdef BMC
            bmc_token(true);
#else
            lex_token();
#endif
    }
    PROP(got == nwant && next_token == T_eof, "all of the selected text is compiled");
    PROP(DEFINED(0) == def[0] && DEFINED(1) == def[1], "the names defined at the end");
    REACHED();
}
void lines3(void) { lines(3); }
void lines4(void) { lines(4); }
void lines5(void) { lines(5); }
void lines6(void) { lines(6); }
void lines7(void) { lines(7); }
void lines8(void) { lines(8); }

/* conditions */
static const int OPS[18] = {T_plus, T_minus, T_asterisk, T_divide, T_mod, T_lshift, T_rshift, T_log_and, T_log_or, T_eq, T_noteq, T_lt,
                            T_le, T_gt, T_ge, T_ampersand, T_bit_or, T_bit_xor};
static int prio(int o)
{
    return o == 8 ? 1 : o == 7 ? 2 : o == 16 ? 3 : o == 17 ? 4 : o == 15 ? 5 : o == 9 || o == 10 ? 6 : o >= 11 && o <= 14 ? 7 :
           o == 5 || o == 6 ? 8 : o == 0 || o == 1 ? 9 : 10;
}

static int apply(int o, int a, int b)
{
    if ((o == 3 || o == 4) && b == 0) {
        skip = true;
        b = 1;
    }
    if ((o == 5 || o == 6) && (b < 0 || b > 31)) {
        skip = true;
        b = 0;
    }
    switch (o) {
    case 0: return a + b;
    case 1: return a - b;
    case 2: return a * b;
    case 3: return a / b;
    case 4: return a % b;
    case 5: return (int) ((unsigned) a << b);
    case 6: return a >> b;
    case 7: return a && b;
    case 8: return a || b;
    case 9: return a == b;
    case 10: return a != b;
    case 11: return a < b;
    case 12: return a <= b;
    case 13: return a > b;
    case 14: return a >= b;
    case 15: return a & b;
    case 16: return a | b;
    }
    return a ^ b;
}

static int value[4], known;
/* an operand: n number, d defined(A), e defined(B), +-!~ that operator before a number, i a name that is no macro */
static int operand(char kind, int v)
{
    if (kind == 'd' || kind == 'e') {
        put(T_else, 0);
        put(T_open_bracket, 0);
        put(T_identifier, kind == 'e');
        put(T_close_bracket, 0);
        return kind == 'd' ? known : 0;
    }
    if (kind == 'i') {
        put(T_identifier, 1);
        return 0;
    }
    if (kind != 'n')
        put(kind == '+' ? T_plus : kind == '-' ? T_minus : kind == '!' ? T_log_not : T_bit_not, 0);
    put(T_numeric, v);
    return kind == '-' ? -v : kind == '!' ? !v : kind == '~' ? ~v : v;
}

static int evaluate(int n, int *v, int *o)
{
    while (n > 1) {
        int best = 0;
        for (int i = 1; i < n - 1; i++)
            if (prio(o[i]) > prio(o[best]))
                best = i;
        v[best] = apply(o[best], v[best], v[best + 1]);
        for (int i = best + 1; i < n - 1; i++)
            v[i] = v[i + 1], o[i - 1] = o[i];
        n--;
    }
    return v[0];
}

/* operands first..last are inside parentheses (none when first is last) */
static void one(const char *kinds, int first, int last, const int *op)
{
    int v[4], o[4], n = 0;
    ntok = pos = 0;
    skip = false;
    for (; kinds[n]; n++) {
        if (n) {
            o[n - 1] = op[n - 1];
            put(OPS[o[n - 1]], 0);
        }
        if (first < last && n == first)
            put(T_open_bracket, 0);
        v[n] = operand(kinds[n], value[n]);
        if (first < last && n == last)
            put(T_close_bracket, 0);
    }
    if (first < last) {
        int x = evaluate(last - first + 1, v + first, o + first);
        if (first == 0) {
            v[0] = x;
            v[1] = v[2];
            o[0] = o[1];
        } else
            v[1] = x;
        n -= last - first;
    }
    int want = evaluate(n, v, o);
    /* an expression that divides by zero or shifts by a wrong amount has no value */
#ifndef BMC
    if (skip)
        return;
#endif
    gave_up = false;
    FIRST();
    int got = read_constant_expr();
    PROP(skip || gave_up || (got == want && next_token == T_eof), "the value of the condition");
}

/* every choice of numbers; two operators: a and any other, or (a < 0) some; three operators: a and one of each precedence */
static void condition(const char *kinds, int first, int last, int a)
{
    static const int some[10] = {1, 4, 5, 8, 12, 15, 7, 9, 16, 17};
    int n = 0, op[3];
    ALIASES = aliases;
    MACROS = macros;
    known = in() & 1;
    if (known)
        DEFINE(0);
    for (; kinds[n]; n++) {
        value[n] = in() & 7;
    }
    if (n == 1)
        one(kinds, first, last, op);
    for (int b = 0; b < 18 && n == 2; b++) {
        op[0] = b;
        one(kinds, first, last, op);
    }
    for (int b = 0; b < 18 && n == 3 && a >= 0; b++) {
        op[0] = a;
        op[1] = b;
        one(kinds, first, last, op);
    }
    for (int b = 0; b < 100 && n == 3 && a < 0; b++) {
        op[0] = some[b / 10];
        op[1] = some[b % 10];
        one(kinds, first, last, op);
    }
    for (int b = 0; b < 100 && n == 4; b++) {
        op[0] = some[a];
        op[1] = some[b / 10];
        op[2] = some[b % 10];
        one(kinds, first, last, op);
    }
    REACHED();
}
void cond_n(void) { condition("n", 0, 0, -1); }
void cond_u1(void) { condition("+", 0, 0, -1); }
void cond_u2(void) { condition("-", 0, 0, -1); }
void cond_u3(void) { condition("!", 0, 0, -1); }
void cond_u4(void) { condition("~", 0, 0, -1); }
void cond_d(void) { condition("d", 0, 0, -1); }
void cond_e(void) { condition("e", 0, 0, -1); }
void cond_i(void) { condition("i", 0, 0, -1); }
void cond_nn(void) { condition("nn", 0, 0, -1); }
void cond_un(void) { condition("-n", 0, 0, -1); }
void cond_nu(void) { condition("n~", 0, 0, -1); }
void cond_uu(void) { condition("!!", 0, 0, -1); }
void cond_de(void) { condition("de", 0, 0, -1); }
void cond_nd(void) { condition("nd", 0, 0, -1); }
void cond_in(void) { condition("in", 0, 0, -1); }
void cond_paren(void) { condition("nn", 0, 1, -1); }
void cond_unu(void) { condition("-n!", 0, 0, -1); }
void cond_dnd(void) { condition("dne", 0, 0, -1); }
void cond_left(void) { condition("nnn", 0, 1, -1); }
void cond_right(void) { condition("nnn", 1, 2, -1); }
void cond_nun(void) { condition("n-n", 1, 2, -1); }
void cond_nnn_0(void) { condition("nnn", 0, 0, 0); }
void cond_nnn_1(void) { condition("nnn", 0, 0, 1); }
void cond_nnn_2(void) { condition("nnn", 0, 0, 2); }
void cond_nnn_3(void) { condition("nnn", 0, 0, 3); }
void cond_nnn_4(void) { condition("nnn", 0, 0, 4); }
void cond_nnn_5(void) { condition("nnn", 0, 0, 5); }
void cond_nnn_6(void) { condition("nnn", 0, 0, 6); }
void cond_nnn_7(void) { condition("nnn", 0, 0, 7); }
void cond_nnn_8(void) { condition("nnn", 0, 0, 8); }
void cond_nnn_9(void) { condition("nnn", 0, 0, 9); }
void cond_nnn_10(void) { condition("nnn", 0, 0, 10); }
void cond_nnn_11(void) { condition("nnn", 0, 0, 11); }
void cond_nnn_12(void) { condition("nnn", 0, 0, 12); }
void cond_nnn_13(void) { condition("nnn", 0, 0, 13); }
void cond_nnn_14(void) { condition("nnn", 0, 0, 14); }
void cond_nnn_15(void) { condition("nnn", 0, 0, 15); }
void cond_nnn_16(void) { condition("nnn", 0, 0, 16); }
void cond_nnn_17(void) { condition("nnn", 0, 0, 17); }
void cond_nnnn_0(void) { condition("nnnn", 0, 0, 0); }
void cond_nnnn_1(void) { condition("nnnn", 0, 0, 1); }
void cond_nnnn_2(void) { condition("nnnn", 0, 0, 2); }
void cond_nnnn_3(void) { condition("nnnn", 0, 0, 3); }
void cond_nnnn_4(void) { condition("nnnn", 0, 0, 4); }
void cond_nnnn_5(void) { condition("nnnn", 0, 0, 5); }
void cond_nnnn_6(void) { condition("nnnn", 0, 0, 6); }
void cond_nnnn_7(void) { condition("nnnn", 0, 0, 7); }
void cond_nnnn_8(void) { condition("nnnn", 0, 0, 8); }
void cond_nnnn_9(void) { condition("nnnn", 0, 0, 9); }

/* the table of object-like macros: 'a' defines, 'r' removes one of the names; every name is looked up in the end */
static void history(const char *ops)
{
    char name[3][2], txt[2], last[3] = {0, 0, 0};
    ALIASES = aliases;
    txt[1] = 0;
    for (int i = 0; i < 3; i++) {
        name[i][0] = in();
        name[i][1] = 0;
        ASSUME(name[i][0]);
        for (int j = 0; j < i; j++)
            ASSUME(name[i][0] != name[j][0]);
    }
    for (int k = 0; ops[k]; k++) {
        int w = in() % 3;
        txt[0] = '0' + k;
        if (ops[k] == 'a') {
            ASSUME(!last[w]);
            add_alias(name[w], txt, k & 1 ? T_string : T_numeric);
            last[w] = txt[0];
        } else {
            bool was = remove_alias(name[w]);
            PROP(was == (last[w] != 0), "#undef says whether the name was defined");
            last[w] = 0;
        }
        for (int i = 0; i < 3; i++) {
            alias_t *a = find_alias(name[i]);
            PROP((a != NULL) == (last[i] != 0), "exactly the names defined and not undefined are defined");
            if (a)
                PROP(a->value[0] == last[i] && !a->value[1] && a->type == ((last[i] - '0') & 1 ? T_string : T_numeric), "a name has its last replacement");
        }
    }
    REACHED();
}
void names_ara(void) { history("ara"); }
void names_aara(void) { history("aara"); }
void names_aarra(void) { history("aarra"); }
void names_raa(void) { history("raa"); }
