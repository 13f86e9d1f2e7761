/* C20: the tables of names: macros, constants, types, members, variables and functions */
#include "common.h"
#define NN 3
static char name[NN][3];

/* names of one or two characters, all different from each other, one maybe a prefix of another */
static void names(void)
{
    for (int i = 0; i < NN; i++) {
        name[i][0] = in();
        name[i][1] = in();
        ASSUME(name[i][0] > 0 && name[i][1] >= 0);
        for (int j = 0; j < i; j++)
            ASSUME(name[i][0] != name[j][0] || name[i][1] != name[j][1]);
    }
}
static int pick(void)
{
    int k = in();
    ASSUME(k >= 0 && k < NN);
    return k;
}
/* #define and #undef in any order; want[] is what each name stands for now, 0 for nothing */
#define STEPS 4
static void aliases(const char *ops)
{
    char want[NN] = {0};
    int kind[NN];
    names();
    alias_t *tab = ALIASES = calloc(STEPS + 1, sizeof(alias_t));
    aliases_idx = 0;
    for (int s = 0; s < STEPS; s++) {
        int k = pick();
        char v[2] = {in(), 0}, n[3] = {name[k][0], name[k][1], 0};
        ASSUME(v[0] > 0);
        if (ops[s] == 'd') {
            ASSUME(!want[k]); /* defined again only after #undef */
            want[k] = v[0];
            kind[k] = s & 1 ? T_numeric : T_identifier;
            add_alias(n, v, kind[k]);
            v[0] = n[0] = 1; /* the table must not depend on the caller's buffers */
        } else {
            PROP(remove_alias(n) == (want[k] != 0), "#undef finds exactly what is defined");
            want[k] = 0;
        }
        for (int i = 0; i < NN; i++) {
            alias_t *a = find_alias(name[i]);
            PROP((a != NULL) == (want[i] != 0), "exactly the names that are defined are found");
            for (int j = 0; j < STEPS; j++)
                if (a == &tab[j])
                    PROP(tab[j].value[0] == want[i] && !tab[j].value[1] && tab[j].type == kind[i], "every macro keeps its own text");
        }
    }
    REACHED();
}

void aliases_ddud(void) { aliases("ddud"); }
void aliases_dudu(void) { aliases("dudu"); }
void aliases_dddu(void) { aliases("dddu"); }
void aliases_udud(void) { aliases("udud"); }

/* the same for macros with parameters */
static void macros(const char *ops)
{
    int src[NN] = {0};
    names();
    macro_t *tab = MACROS = calloc(STEPS + 1, sizeof(macro_t));
    macros_idx = 0;
    for (int s = 0; s < STEPS; s++) {
        int k = pick();
        char n[3] = {name[k][0], name[k][1], 0};
        if (ops[s] == 'd') {
            ASSUME(!src[k]);
            src[k] = s + 10;
            macro_t *m = add_macro(n);
            n[0] = 1;
            bool in_table = false;
            for (int j = 0; j < STEPS; j++)
                if (m == &tab[j]) {
                    in_table = true;
                    PROP(tab[j].num_param_defs == 0 && !tab[j].is_variadic, "a new macro has no parameters yet");
                    tab[j].num_param_defs = 1 + s;
                    tab[j].is_variadic = true;
                    tab[j].start_source_idx = src[k];
                }
            MODEL(in_table, "the table is an array");
        } else {
            PROP(remove_macro(n) == (src[k] != 0), "#undef finds exactly what is defined");
            src[k] = 0;
        }
        for (int i = 0; i < NN; i++) {
            macro_t *a = find_macro(name[i]);
            PROP((a != NULL) == (src[i] != 0), "exactly the macros that are defined are found");
            for (int j = 0; j < STEPS; j++)
                if (a == &tab[j])
                    PROP(tab[j].start_source_idx == src[i], "every macro keeps its own text");
        }
    }
    REACHED();
}

void macros_ddud(void) { macros("ddud"); }
void macros_dudu(void) { macros("dudu"); }
void macros_dddu(void) { macros("dddu"); }
void macros_udud(void) { macros("udud"); }

static constant_t constant[NN];
void constants(void)
{
    int val[NN], n;
    names();
    CONSTANTS = constant;
    constants_idx = 0;
    for (n = 0; n < NN - 1; n++) {
        val[n] = in();
        PROP(find_constant(name[n]) == NULL, "an enumerator is not known before its declaration");
        char c[3] = {name[n][0], name[n][1], 0};
        add_constant(c, val[n]);
        c[0] = 1;
        for (int i = 0; i <= n; i++) {
            constant_t *a = find_constant(name[i]);
            PROP(a != NULL && a->value == val[i], "every enumerator has its value");
        }
    }
    PROP(find_constant(name[NN - 1]) == NULL, "a name that is no enumerator is not found");
    REACHED();
}

/* structure tags and type names are two name spaces */
static type_t type[4];
void type_names(void)
{
    names();
    TYPES = type;
    types_idx = 0;
    int kind[4], who[4], n = 3;
    for (int t = 0; t < n; t++) {
        kind[t] = in() & 1;
        who[t] = pick();
        for (int u = 0; u < t; u++)
            ASSUME(kind[u] != kind[t] || who[u] != who[t]);
        char c[3] = {name[who[t]][0], name[who[t]][1], 0};
        type_t *p = add_named_type(c);
        c[0] = 1;
        PROP(p == &type[t], "types are entered one after the other");
        p->base_type = kind[t] ? TYPE_struct : in() & 1 ? TYPE_int : TYPE_typedef;
        p->size = 4 + t;
    }
    for (int i = 0; i < NN; i++) {
        type_t *tag = NULL, *nm = NULL, *any = NULL;
        for (int t = n - 1; t >= 0; t--)
            if (who[t] == i) {
                any = &type[t];
                if (kind[t])
                    tag = &type[t];
                else
                    nm = &type[t];
            }
        PROP(find_type(name[i], 1) == nm, "a type name finds the type of that name");
        PROP(find_type(name[i], 2) == tag, "a structure tag finds the structure with that tag");
        type_t *f = find_type(name[i], 0);
        PROP((f != NULL) == (any != NULL) && (!f || f == tag || f == nm), "either name space is searched");
    }
    REACHED();
}
/* a type name for a structure that is complete only later */
void type_forward(void)
{
    names();
    TYPES = type;
    types_idx = 0;
    type_t *s = add_named_type(name[0]), *a = add_named_type(name[1]), *b = add_named_type(name[2]);
    s->base_type = TYPE_struct;
    a->base_type = TYPE_typedef;
    a->size = 0;
    a->base_struct = s;
    b->base_type = TYPE_typedef;
    b->size = 8;
    s->num_fields = 1;
    s->fields[0].var_name[0] = 'q';
    s->fields[0].var_name[1] = 0;
    s->size = in();
    ASSUME(s->size > 0);
    PROP(find_type(name[1], 1) == s && find_type(name[1], 0) == s, "the name of an incomplete structure stands for the structure");
    PROP(find_type(name[2], 1) == b && find_type(name[0], 2) == s && find_type(name[0], 1) == NULL, "other types are found as they are");
    PROP(find_member("q", a) == &s->fields[0] && find_member("q", s) == &s->fields[0], "its members are the members of the structure");
    REACHED();
}

void members(void)
{
    names();
    type_t *t = &type[0];
    t->size = 12;
    t->num_fields = in() % (NN + 1);
    for (int i = 0; i < NN; i++)
        for (int j = 0; j < 3; j++)
            t->fields[i].var_name[j] = name[i][j];
    for (int i = 0; i < NN; i++)
        PROP(find_member(name[i], t) == (i < t->num_fields ? &t->fields[i] : NULL), "exactly the members of the structure are found");
    REACHED();
}

/* variables of nested blocks, parameters and globals, under any names: the innermost declaration counts */
void variables(void)
{
    names();
    func_t *f = calloc(1, sizeof(func_t));
    block_t *g = add_block(NULL, NULL, NULL), *o = add_block(NULL, f, NULL), *i = add_block(o, f, NULL), *s = add_block(o, f, NULL);
    PROP(o->next_local == 0 && i->parent == o && i->func == f && !i->macro, "a new block is empty");
    var_t *v[5];
    int who[5], n[5];
    for (int k = 0; k < 5; k++) {
        who[k] = pick();
        n[k] = in() & 1;
    }
    v[0] = &i->locals[0], v[1] = &o->locals[0], v[2] = &f->param_defs[0], v[3] = &g->locals[0], v[4] = &s->locals[0];
    i->next_local = n[0], o->next_local = n[1], f->num_params = n[2], g->next_local = n[3], s->next_local = n[4];
    for (int k = 0; k < 5; k++)
        for (int j = 0; j < 3; j++)
            v[k]->var_name[j] = name[who[k]][j];
    for (int q = 0; q < NN; q++) {
        var_t *want = NULL, *local = NULL;
        for (int k = 3; k >= 0; k--)
            if (n[k] && who[k] == q) {
                want = v[k];
                if (k < 3)
                    local = v[k];
            }
        PROP(find_var(name[q], i) == want, "a name means its innermost visible declaration");
        PROP(find_local_var(name[q], i) == local, "a local name means its innermost visible declaration");
        PROP(find_global_var(name[q]) == (n[3] && who[3] == q ? v[3] : NULL), "a global name means the global");
    }
    REACHED();
}

void functions(void)
{
    names();
    func_t *f[NN];
    FUNCS_MAP = hashmap_create(2);
    for (int i = 0; i < NN; i++) {
        PROP(find_func(name[i]) == NULL, "a function is not known before its declaration");
        char c[3] = {name[i][0], name[i][1], 0};
        f[i] = add_func(c);
        c[0] = 1;
        PROP(f[i] && f[i]->return_def.var_name[0] == name[i][0] && f[i]->return_def.var_name[1] == name[i][1], "a function has its name");
        f[i]->num_params = i;
        PROP(add_func(name[0]) == f[0], "declaring a function again gives the same function");
        for (int j = 0; j <= i; j++)
            PROP(find_func(name[j]) == f[j] && f[j]->num_params == j, "every function is found by its name");
    }
    REACHED();
}
