/* C09: the scanner takes the next token of any text */
#include "common.h"
#ifndef N
#define N 8
#endif
static char text[N + 1];
static source_t source;
static int restarted, restart_at, restart_ok;

void bmc_error(char *msg)
{
    (void) msg;
    PROP(bmc_may_abort, "a supported token is accepted");
    BMC_STOP();
}

/* The scanner starts again behind a comment or a line end: the rest is the same question from another place. */
token_t bmc_again(bool aliasing)
{
    (void) aliasing;
    restarted = 1;
    restart_at = SOURCE->size;
    restart_ok = next_char == text[SOURCE->size];
    return T_start;
}

/* the one call that is the scanner itself */
#ifdef BMC
token_t bmc_lex(bool aliasing);
#else
#define bmc_lex lex_token_internal
#endif

static bool nl, ref_any;
static int ref_ret, ref_start, ref_end, ref_first;
static char ref_str[N + 2];
static int ref_len;

static bool splice(int p) { return text[p] == '\\' && text[p + 1] == '\n'; }
static bool newline(char c) { return c == '\n' || c == '\r'; }
static bool digit(char c) { return c >= '0' && c <= '9'; }
static bool word(char c) { return digit(c) || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }

static int space(int p)
{
    for (;;) {
        if (splice(p))
            p += 2;
        else if (text[p] == ' ' || text[p] == '\t' || (nl && newline(text[p])))
            p++;
        else
            return p;
    }
}

static int escape(char c)
{
    return c == 'n' ? 10 : c == 't' ? 9 : c == 'r' ? 13 : c == '0' ? 0 : c == '\\' ? 92 : c == '\'' ? 39 : c == '"' ? 34 : -1;
}

static bool is(const char *s)
{
    int i = 0;
    for (; s[i]; i++)
        if (i >= ref_len || ref_str[i] != s[i])
            return false;
    return i == ref_len;
}

/* an operator: c alone, doubled, before '=' or doubled before '=' */
static token_t op(int p, token_t one, token_t two, token_t eq, token_t two_eq)
{
    char c = text[p];
    int n = 1;
    token_t t = one;
    if (two && text[p + 1] == c) {
        n = 2, t = two;
        if (two_eq && text[p + 2] == '=')
            n = 3, t = two_eq;
        if (two_eq && splice(p + 2))
            ref_any = true;
    } else if (eq && text[p + 1] == '=')
        n = 2, t = eq;
    else if (c == '-' && text[p + 1] == '>')
        n = 2, t = T_arrow;
    else if (splice(p + 1) && (two || eq))
        ref_any = true;
    ref_end = p + n;
    return t;
}
#define NO 0

static token_t reference(int p)
{
    ref_first = -1;
    for (int k = 0; k <= N; k++) {
        char c = text[p];
        if (newline(c)) {
            if (ref_ret && !nl) {
                nl = true;
                p = space(ref_ret);
                ref_ret = 0;
            } else
                p = space(p + 1);
        } else if (c == '/' && text[p + 1] == '*') {
            p += 2;
            while (text[p] && !(text[p] == '*' && text[p + 1] == '/')) {
                if (text[p] == '*' && splice(p + 1))
                    ref_any = true;
                p++;
            }
            if (!text[p])
                ref_any = true;
            if (ref_any)
                return T_eof;
            p = space(p + 2);
        } else if (c == '/' && text[p + 1] == '/') {
            p += 2;
            while (text[p] && !newline(text[p]))
                p += splice(p) ? 2 : 1;
        } else
            break;
        if (ref_first < 0)
            ref_first = p;
    }
    char c = text[p];
    ref_len = 0;
    ref_start = p;
    ref_end = p + 1;
    if (!c) {
        ref_end = p;
        return T_eof;
    }
    if (c == '#') {
        ref_str[ref_len++] = c;
        for (p++; word(text[p]); p++)
            ref_str[ref_len++] = text[p];
        ref_end = p;
        if (splice(p))
            ref_any = true;
        if (is("#include")) return T_cppd_include;
        if (is("#define")) return T_cppd_define;
        if (is("#undef")) return T_cppd_undef;
        if (is("#error")) return T_cppd_error;
        if (is("#if")) return T_cppd_if;
        if (is("#elif")) return T_cppd_elif;
        if (is("#ifdef")) return T_cppd_ifdef;
        if (is("#ifndef")) return T_cppd_ifndef;
        if (is("#else")) return T_cppd_else;
        if (is("#endif")) return T_cppd_endif;
        ref_any = true;
        return T_eof;
    }
    if (word(c)) {
        for (; word(text[p]); p++)
            ref_str[ref_len++] = text[p];
        ref_end = p;
        if (splice(p) || (digit(c) && text[p] == '.'))
            ref_any = true;
        if (digit(c)) {
            bool hex = ref_len > 2 && c == '0' && (ref_str[1] == 'x' || ref_str[1] == 'X');
            for (int i = hex ? 2 : 0; i < ref_len; i++) {
                char d = ref_str[i];
                if (!digit(d) && !(hex && ((d >= 'a' && d <= 'f') || (d >= 'A' && d <= 'F'))))
                    ref_any = true;
                if (!hex && c == '0' && d > '7')
                    ref_any = true;
            }
            return T_numeric;
        }
        if (is("if")) return T_if;
        if (is("while")) return T_while;
        if (is("for")) return T_for;
        if (is("do")) return T_do;
        if (is("else")) return T_else;
        if (is("return")) return T_return;
        if (is("typedef")) return T_typedef;
        if (is("enum")) return T_enum;
        if (is("struct")) return T_struct;
        if (is("sizeof")) return T_sizeof;
        if (is("switch")) return T_switch;
        if (is("case")) return T_case;
        if (is("break")) return T_break;
        if (is("default")) return T_default;
        if (is("continue")) return T_continue;
        return T_identifier;
    }
    if (c == '"' || c == '\'') {
        for (p++; text[p] && text[p] != c && !newline(text[p]); p++) {
            char d = text[p];
            if (d == '\\') {
                d = escape(text[++p]);
                /* what \\ooo denotes is a question about literals, not about where they end */
                if (escape(text[p]) < 0 || (text[p] == '0' && digit(text[p + 1]))) {
                    ref_any = true;
                    return T_eof;
                }
            }
            ref_str[ref_len++] = d;
        }
        if (text[p] != c || (c == '\'' && ref_len != 1))
            ref_any = true;
        ref_end = p + 1;
        return c == '"' ? T_string : T_char;
    }
    if (c == '<' && (text[p + 1] == ':' || text[p + 1] == '%'))
        ref_any = true;
    if (c == '%' && (text[p + 1] == ':' || text[p + 1] == '>'))
        ref_any = true;
    if (c == ':' && text[p + 1] == '>')
        ref_any = true;
    switch (c) {
    case '(': return T_open_bracket;
    case ')': return T_close_bracket;
    case '{': return T_open_curly;
    case '}': return T_close_curly;
    case '[': return T_open_square;
    case ']': return T_close_square;
    case ',': return T_comma;
    case ';': return T_semicolon;
    case '?': return T_question;
    case ':': return T_colon;
    case '~': return T_bit_not;
    case '+': return op(p, T_plus, T_increment, T_pluseq, NO);
    case '-': return op(p, T_minus, T_decrement, T_minuseq, NO);
    case '*': return op(p, T_asterisk, NO, T_asteriskeq, NO);
    case '/':
        if (splice(p + 1))
            ref_any = true;
        return op(p, T_divide, NO, T_divideeq, NO);
    case '%': return op(p, T_mod, NO, T_modeq, NO);
    case '&': return op(p, T_ampersand, T_log_and, T_andeq, NO);
    case '|': return op(p, T_bit_or, T_log_or, T_oreq, NO);
    case '^': return op(p, T_bit_xor, NO, T_xoreq, NO);
    case '!': return op(p, T_log_not, NO, T_noteq, NO);
    case '=': return op(p, T_assign, NO, T_eq, NO);
    case '<': return op(p, T_lt, T_lshift, T_le, T_lshifteq);
    case '>': return op(p, T_gt, T_rshift, T_ge, T_rshifteq);
    case '.':
        if (text[p + 1] == '.' && text[p + 2] == '.') {
            ref_end = p + 3;
            return T_elipsis;
        }
        /* '..' and floating constants are not supported */
        if (text[p + 1] == '.' || digit(text[p + 1]) || splice(p + 1))
            ref_any = true;
        return T_dot;
    }
    ref_any = true;
    return T_eof;
}

static void token(int kind)
{
    int pos = in() % 3;
    for (int i = 0; i < N; i++) {
        text[i] = in();
        ASSUME(text[i]);
        if (kind == 5 && i < pos + 2)
            ASSUME(i < pos || text[i] == '/');
    }
    char c = text[pos];
    ASSUME(kind == 1 ? word(c) : kind == 2 ? c == '#' : kind == 3 ? c == '"' : kind == 4 ? c == '/' && text[pos + 1] == '*' :
           kind == 5 ? 1 : kind == 6 ? newline(c) : kind == 7 ? c == '\'' : !word(c) && c != '#' && c != '"' && c != '\'' &&
           !(c == '/' && (text[pos + 1] == '*' || text[pos + 1] == '/')) && !newline(c));
    ASSUME(c != ' ' && c != '\t' && !splice(pos));
    SOURCE = &source;
    source.elements = text;
    source.size = pos;
    next_char = c;
    nl = skip_newline = in() & 1;
    int was = ref_ret = macro_return_idx = in() % (N + 1);
    ref_any = false;
    token_t want = reference(pos);
    bmc_may_abort = ref_any;
    token_t got = bmc_lex(in() & 1);
    PROP(next_char == text[SOURCE->size], "the scanner stands at the character it looks at");
    PROP(was || got == T_eof || SOURCE->size > pos, "the scanner makes progress");
    if (restarted) {
        /* it has passed exactly the comment, or the end of the line */
        PROP(restart_ok && ref_first >= 0 && (restart_at == ref_first || space(restart_at) == space(ref_first)), "only white space and comments are skipped");
    } else if (!ref_any) {
        PROP(got == want, "the token is the longest match");
        PROP(SOURCE->size == space(ref_end) || SOURCE->size == ref_end, "the token ends where it ends in C");
        if (want == T_identifier || want == T_numeric || want == T_string)
            for (int i = 0; i <= ref_len; i++)
                PROP(token_str[i] == (i < ref_len ? ref_str[i] : 0), "the text of the token");
        if (want == T_char)
            PROP(token_str[0] == ref_str[0] && !token_str[1], "the text of the token");
        PROP(skip_newline == nl && macro_return_idx == ref_ret, "the line mode");
    }
    REACHED();
}
void lex_word(void) { token(1); }
void lex_directive(void) { token(2); }
void lex_string(void) { token(3); }
void lex_comment(void) { token(4); }
void lex_line_comment(void) { token(5); }
void lex_line_end(void) { token(6); }
void lex_char(void) { token(7); }
void lex_operator(void) { token(0); }
