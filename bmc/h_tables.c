/* C20: hash tables and arenas */
#include "common.h"
#define NK 4
static char key[NK + 1][4];
static int val[NK];

static void a_key(int i, int len)
{
    for (int j = 0; j < len; j++) {
        char c = in();
        ASSUME(c > 0);
        key[i][j] = c;
    }
}

/* n insertions of keys of the given lengths; everything is looked up after each of them */
static void table(int size, int n, int l0, int l1, int l2, int l3)
{
    int len[NK + 1] = {l0, l1, l2, l3, 1};
    hashmap_t *m = hashmap_create(size);
    PROP(m->size >= size && (m->size & (m->size - 1)) == 0, "the size is rounded up to a power of two");
    for (int i = 0; i <= n; i++)
        a_key(i == n ? NK : i, len[i == n ? NK : i]);
    for (int i = 0; i < n; i++) {
        for (int j = 0; j < i; j++)
            ASSUME(strcmp(key[i], key[j]));
        ASSUME(strcmp(key[i], key[NK]));
    }
    for (int i = 0; i < n; i++) {
        PROP(!hashmap_contains(m, key[i]) && hashmap_get(m, key[i]) == NULL, "a key that was not inserted is absent");
        char copy[4];
        for (int j = 0; j < 4; j++)
            copy[j] = key[i][j];
        hashmap_put(m, copy, &val[i]);
        copy[0] = 1; /* the table must not depend on the caller's buffer */
        for (int j = 0; j <= i; j++)
            PROP(hashmap_contains(m, key[j]) && hashmap_get(m, key[j]) == &val[j], "a key has the value inserted for it");
    }
    PROP(!hashmap_contains(m, key[NK]) && hashmap_get(m, key[NK]) == NULL, "a key that was not inserted is absent");
    REACHED();
}
void table_1(void) { table(1, 3, 1, 2, 1, 1); }
void table_2(void) { table(2, 3, 2, 1, 2, 1); }
void table_4(void) { table(3, 3, 1, 1, 2, 1); }
void table_empty(void) { table(2, 2, 0, 1, 1, 1); }
void table_16(void) { table(16, 2, 2, 2, 1, 1); }
void table_deep(void) { table(1, 4, 1, 1, 1, 1); }
void table_long(void) { table(4, 3, 3, 3, 3, 3); }

#define NA 5
void arena(void)
{
    char *p[NA];
    int size[NA], cap = in(), mul = in() & 1;
    ASSUME(cap >= 8 && cap <= 4096);
    arena_t *a = arena_init(cap);
    for (int i = 0; i < NA; i++) {
        size[i] = in();
        ASSUME(size[i] > 0 && size[i] <= 600000);
        if (mul)
            ASSUME((size[i] & 7) == 0);
        p[i] = arena_alloc(a, size[i]);
        PROP(p[i] != NULL, "memory is handed out");
        if (mul)
            PROP(((uintptr_t) p[i] & 7) == 0, "memory is aligned");
        /* both ends must be inside the block (pointer checks), and belong to nobody else */
        p[i][0] = i;
        p[i][size[i] - 1] = i;
        for (int j = 0; j < i; j++) {
            PROP((uintptr_t) p[i] >= (uintptr_t) p[j] + size[j] || (uintptr_t) p[j] >= (uintptr_t) p[i] + size[i],
                 "blocks do not overlap");
            PROP(p[j][0] == j && p[j][size[j] - 1] == j, "earlier blocks keep their content");
        }
    }
    REACHED();
}

/* the source text grows without losing a character */
void source(void)
{
    int cap = in(), n = in();
    char c[6];
    ASSUME(cap >= 1 && cap <= 4 && n >= 0 && n <= 6);
    source_t *s = create_source(cap);
    for (int i = 0; i < 6; i++)
        if (i < n) {
            c[i] = in();
            PROP(source_push(s, c[i]), "a character is stored");
            PROP(s->size == i + 1 && s->capacity >= s->size, "the size counts the characters");
            for (int j = 0; j <= i; j++)
                PROP(s->elements[j] == c[j], "characters stay as they were stored");
        }
    REACHED();
}
