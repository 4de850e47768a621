/* C01 linked list, C02 hash map and sort map, C03 priority queue and sorting,
 * C04 string and linked buffers, array list: every operation sequence up to a
 * depth (equal container states are merged), against plain array references. */
#include "viriatum_commons/viriatum_commons.h"
#include "mc.h"

#define MAXN 16
static long ref[2100]; static int nref;

static int cmp_long(void *a, void *b) { long x = (long) a, y = (long) b; return x < y ? -1 : x > y; }
/* compares by the tens only: equal keys keep distinguishable identities */
static int cmp_tens(void *a, void *b) { long x = (long) a / 10, y = (long) b / 10; return x < y ? -1 : x > y; }

static void check_list(struct linked_list_t *l, const char *op) {
    int i; void *v; struct linked_list_node_t *n, *p = NULL; struct iterator_t *it; void **seq;
    mc_check(l->size == (size_t) nref, "after %s the list has size %zu, expected %d", op, l->size, nref);
    for(i = 0, n = l->first; i < nref; i++, p = n, n = n->next) {
        mc_check(n != NULL, "after %s the chain ends at %d of %d", op, i, nref);
        mc_check((long) n->value == ref[i], "after %s position %d holds %ld, expected %ld", op, i, (long) n->value, ref[i]);
        mc_check(n->previous == p, "after %s the backward link at position %d is wrong", op, i);
    }
    mc_check(n == NULL, "after %s the chain goes on past its %d elements", op, nref);
    mc_check(l->last == p, "after %s the last element is wrong", op);
    if(nref == 0) mc_check(l->first == NULL, "after %s the empty list still has a first element", op);
    for(i = 0; i < nref; i++) {
        get_value_linked_list(l, i, &v);
        mc_check((long) v == ref[i], "after %s get(%d) is %ld, expected %ld", op, i, (long) v, ref[i]);
    }
    peek_value_linked_list(l, &v);
    mc_check((long) v == (nref ? ref[0] : 0), "after %s peek is %ld", op, (long) v);
    peek_top_value_linked_list(l, &v);
    mc_check((long) v == (nref ? ref[nref - 1] : 0), "after %s peek top is %ld", op, (long) v);
    create_iterator_linked_list(l, &it);
    for(i = 0; i < nref; i++) { get_next_iterator(it, &v); mc_check((long) v == ref[i], "after %s iteration step %d gives %ld, expected %ld", op, i, (long) v, ref[i]); }
    get_next_iterator(it, &v); mc_check(v == NULL, "after %s the iterator runs past the end", op);
    delete_iterator_linked_list(l, it);
    to_sequence_linked_list(l, &seq);
    for(i = 0; i < nref; i++) mc_check((long) seq[i] == ref[i], "after %s the sequence holds %ld at %d", op, (long) seq[i], i);
    FREE(seq);
}
static int by_value(const void *a, const void *b) { return *(long *) a < *(long *) b ? -1 : *(long *) a > *(long *) b; }
static void ref_insert(int at, long v) { memmove(ref + at + 1, ref + at, (nref - at) * sizeof(long)); ref[at] = v; nref++; }
static void ref_remove(int at) { memmove(ref + at, ref + at + 1, (nref - at - 1) * sizeof(long)); nref--; }

static void list_sequences(void) {
    struct linked_list_t *l, *other; struct linked_list_node_t *n; void *v; int d, i, maxsize = 5; char op[80];
    size_t base = mc_allocated(); int depth = mc_bound;
    nref = 0;
    create_linked_list(&l);
    for(d = 0; d < depth; d++) {
        int o, full = nref >= maxsize; long val;
        o = mc_choose(15); mc_step();
        switch(o) {
            case 0: if(full) return_early: { goto out; } val = 1 + mc_choose(3); sprintf(op, "append(%ld)", val); append_value_linked_list(l, (void *) val); ref_insert(nref, val); break;
            case 1: if(full) goto return_early; val = 1 + mc_choose(3); sprintf(op, "append_front(%ld)", val); append_front_value_linked_list(l, (void *) val); ref_insert(0, val); break;
            case 2: if(full) goto return_early; i = mc_choose(nref + 1); val = 4; sprintf(op, "append_index(4,%d)", i); append_index_value_linked_list(l, (void *) val, i); ref_insert(i, val); break;
            case 3: val = 1 + mc_choose(4); sprintf(op, "remove_value(%ld)", val); remove_value_linked_list(l, (void *) val, 1);
                for(i = 0; i < nref; i++) if(ref[i] == val) { ref_remove(i); break; } break;
            case 4: if(!nref) goto return_early; i = mc_choose(nref); sprintf(op, "remove_index(%d)", i); remove_index_linked_list(l, i, 1); ref_remove(i); break;
            case 5: sprintf(op, "pop"); pop_value_linked_list(l, &v, 1); mc_check((long) v == (nref ? ref[0] : 0), "pop gives %ld", (long) v); if(nref) ref_remove(0); break;
            case 6: sprintf(op, "pop_top"); pop_top_value_linked_list(l, &v, 1); mc_check((long) v == (nref ? ref[nref - 1] : 0), "pop_top gives %ld", (long) v); if(nref) ref_remove(nref - 1); break;
            case 7: if(!nref) goto return_early; sprintf(op, "pop node, append it"); pop_linked_list(l, &n); val = ref[0]; ref_remove(0); mc_check((long) n->value == val, "popped node holds %ld", (long) n->value);
                append_linked_list(l, n); ref_insert(nref, val); break;
            case 8: if(!nref) goto return_early; sprintf(op, "pop top node, append it in front"); pop_top_linked_list(l, &n); val = ref[nref - 1]; ref_remove(nref - 1); mc_check((long) n->value == val, "popped node holds %ld", (long) n->value);
                append_front_linked_list(l, n); ref_insert(0, val); break;
            case 9: sprintf(op, "clear"); clear_linked_list(l); nref = 0; break;
            case 10: sprintf(op, "sort"); sort_linked_list(l, cmp_long); { int a, b; for(a = 0; a < nref; a++) for(b = a + 1; b < nref; b++) if(ref[b] < ref[a]) { long t = ref[a]; ref[a] = ref[b]; ref[b] = t; } } break;
            case 11: if(!nref) goto return_early; i = mc_choose(nref); sprintf(op, "remove node %d, keep it, append it to another list", i); get_linked_list(l, i, &n); remove_linked_list(l, n, 0);
                create_linked_list(&other); append_value_linked_list(other, (void *) 9); append_linked_list(other, n);
                mc_check(other->size == 2 && other->last == n && n->next == NULL && other->first->next == n, "the moved node is not the end of the list it was moved to");
                delete_linked_list(other); ref_remove(i); break;
            case 12: if(!nref) goto return_early; i = mc_choose(nref); sprintf(op, "remove node %d, put it at index 0", i); get_linked_list(l, i, &n); remove_linked_list(l, n, 0); val = ref[i]; ref_remove(i);
                append_index_linked_list(l, n, 0); ref_insert(0, val); break;
            case 13: sprintf(op, "remove_value of an absent value"); remove_value_linked_list(l, (void *) 77, 1); break;
            case 14: sprintf(op, "reset iterator"); { struct iterator_t *it; create_iterator_linked_list(l, &it); get_next_iterator(it, &v); reset_iterator_linked_list(l, it); get_next_iterator(it, &v);
                mc_check((long) v == (nref ? ref[0] : 0), "a reset iterator starts at %ld", (long) v); delete_iterator_linked_list(l, it); } break;
        }
        mc_log("%s", op);
        check_list(l, op);
        if(mc_visited(mc_hash(ref, nref * sizeof(long), depth - d))) break;
    }
out:
    mc_outcome(mc_hash(ref, nref * sizeof(long), 1));
    delete_linked_list(l);
    mc_check(mc_allocated() == base, "deleting the list leaves %zd bytes allocated", (ssize_t) (mc_allocated() - base));
}

/* long lists: filled in several ways, changed at regular places, sorted, emptied */
static void list_long(void) {
    static const int sizes[] = { 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 127, 129, 255, 256, 257, 511, 600, 1000 };
    struct linked_list_t *l; void *v; int i, at, n = sizes[mc_choose(sizeof sizes / sizeof *sizes)], fill = mc_choose(4), change = mc_choose(6), end = mc_choose(3); size_t base = mc_allocated(); long val;
    nref = 0; create_linked_list(&l);
    for(i = 0; i < n; i++) {
        val = (i * 37) % 101 + 1; mc_step();
        if(fill == 0) { append_value_linked_list(l, (void *) val); ref_insert(nref, val); }
        else if(fill == 1) { append_front_value_linked_list(l, (void *) val); ref_insert(0, val); }
        else if(fill == 2) { at = (i * 7) % (nref + 1); append_index_value_linked_list(l, (void *) val, at); ref_insert(at, val); }
        else { if(i & 1) { append_value_linked_list(l, (void *) val); ref_insert(nref, val); } else { append_front_value_linked_list(l, (void *) val); ref_insert(0, val); } }
    }
    check_list(l, "filling");
    if(change == 1) for(i = 0; i < n / 2; i++) { at = (i * 13) % nref; remove_index_linked_list(l, at, 1); ref_remove(at); }
    if(change == 2) for(i = 0; i < n / 2; i++) { val = (i * 5) % 103 + 1; remove_value_linked_list(l, (void *) val, 1); for(at = 0; at < nref; at++) if(ref[at] == val) { ref_remove(at); break; } }
    if(change == 3) for(i = 0; i < n / 2; i++) { pop_value_linked_list(l, &v, 1); mc_check((long) v == ref[0], "pop %d gives %ld", i, (long) v); ref_remove(0); append_value_linked_list(l, v); ref_insert(nref, (long) v); }
    if(change == 4) { sort_linked_list(l, cmp_long); qsort(ref, nref, sizeof *ref, by_value); }
    if(change == 5) { clear_linked_list(l); nref = 0; for(i = 0; i < n; i++) { append_value_linked_list(l, (void *) (long) (i + 1)); ref_insert(nref, i + 1); } }
    if(change) check_list(l, "the change");
    if(end == 1) { while(nref) { pop_value_linked_list(l, &v, 1); mc_check((long) v == ref[0], "pop gives %ld, expected %ld", (long) v, ref[0]); ref_remove(0); } check_list(l, "emptying"); }
    if(end == 2) { while(nref) { pop_top_value_linked_list(l, &v, 1); mc_check((long) v == ref[nref - 1], "pop from the top gives %ld, expected %ld", (long) v, ref[nref - 1]); nref--; } check_list(l, "emptying"); }
    mc_outcome(mc_hash(ref, nref * sizeof(long), n));
    delete_linked_list(l);
    mc_check(mc_allocated() == base, "deleting the list leaves %zd bytes allocated", (ssize_t) (mc_allocated() - base));
}
/* --- hash map and sort map ------------------------------------------- */
static struct { size_t key; const char *s; long v; int used; } mref[32]; static int nm, order[32];

static uint64_t hash_map_state(struct hash_map_t *m) {
    size_t i; uint64_t h = mc_hash(&m->size, sizeof(size_t), m->elements_buffer_size);
    for(i = 0; i < m->elements_buffer_size; i++) {
        struct hash_map_element_t *e = &m->elements_buffer[i];
        size_t w[3] = { e->used, e->used ? e->key : 0, e->used ? (size_t) e->value : 0 };
        h = mc_hash(w, sizeof w, h);
    }
    return h;
}

/* integer keys that collide in a table of 4, 16 and 64 slots, and one that does not */
static const size_t ikeys[] = { 0, 4, 16, 64, 3, 19, 7, 1, 2, 5, 13, 35 };
static const char *skeys[] = { "", "a", "b", "ab", "ba", "abc", "host", "port", "key", "\xff", "aa", "Content-Length" };

static void check_map(struct hash_map_t *m, int strings, int nkeys, const char *op) {
    int i, live = 0, seen = 0; unsigned long long given = 0; size_t *key; void *v; struct iterator_t *it, *keys; struct hash_map_element_t *e, *first = NULL;
    for(i = 0; i < nkeys; i++) {
        if(strings) get_value_string_hash_map(m, (unsigned char *) skeys[i], &v); else get_value_hash_map(m, ikeys[i], NULL, &v);
        mc_check((long) v == (mref[i].used ? mref[i].v : 0), "after %s key #%d gives %ld, expected %ld", op, i, (long) v, mref[i].used ? mref[i].v : 0L);
        live += mref[i].used;
    }
    mc_check(m->size == (size_t) live, "after %s the map has size %zu, expected %d", op, m->size, live);
    create_element_iterator_hash_map(m, &it); create_iterator_hash_map(m, &keys);
    for(;;) {
        get_next_iterator(it, (void **) &e); get_next_iterator(keys, (void **) &key);
        mc_check(key == (e ? &e->key : NULL), "after %s the two iterators do not agree at element %d", op, seen);
        if(!e) break;
        for(i = 0; i < nkeys; i++) if(mref[i].used && (long) e->value == mref[i].v) break;
        mc_check(i < nkeys, "after %s the iterator gives a value %ld that is not in the map", op, (long) e->value);
        mc_check(!(given >> i & 1), "after %s the iterator gives an element twice", op); given |= 1ull << i;
        if(strings) mc_check(e->key_string && !strcmp((char *) e->key_string, skeys[i]), "after %s the iterator pairs the value with another key", op);
        else mc_check(e->key == ikeys[i], "after %s the iterator pairs the value with another key", op);
        if(!first) first = e;
        seen++;
    }
    mc_check(seen == live, "after %s the iterator gives %d of %d elements", op, seen, live);
    reset_iterator_hash_map(m, it); get_next_iterator(it, (void **) &e); mc_check(e == first, "after %s an iterator that is reset does not begin again", op);
    delete_iterator_hash_map(m, keys);
    delete_iterator_hash_map(m, it);
}

/* keys made of an integer and a string: the same integer does not make the same key */
static const struct { size_t k; const char *s; } pkeys[] = { { 3, "a" }, { 3, "b" }, { 7, "a" }, { 0, "c" }, { 3, "c" }, { 19, "b" } };
static void map_pair(void) {
    struct hash_map_t *m; int d, k, i, nkeys = (int) (sizeof pkeys / sizeof pkeys[0]); long v, ref[8] = { 0 }; void *got; size_t live, base = mc_allocated();
    create_hash_map(&m, 1 + mc_choose(4));
    for(d = 0; d < mc_bound; d++) {
        k = mc_choose(nkeys); v = ref[k] = d + 1; mc_step();
        set_value_hash_map(m, pkeys[k].k, (unsigned char *) pkeys[k].s, (void *) v);
        for(i = 0, live = 0; i < nkeys; i++) {
            get_value_hash_map(m, pkeys[i].k, (unsigned char *) pkeys[i].s, &got); live += ref[i] != 0;
            mc_check((long) got == ref[i], "after setting key %zu '%s' the key %zu '%s' gives %ld, expected %ld", pkeys[k].k, pkeys[k].s, pkeys[i].k, pkeys[i].s, (long) got, ref[i]);
        }
        mc_check(m->size == live, "the map has size %zu, expected %zu", m->size, live);
        if(mc_visited(mc_hash(ref, sizeof ref, hash_map_state(m) + d))) break;
    }
    mc_outcome(hash_map_state(m));
    delete_hash_map(m);
    mc_check(mc_allocated() == base, "deleting the map leaves %zd bytes allocated", (ssize_t) (mc_allocated() - base));
}
static void map_sequences(int strings, size_t initial) {
    struct hash_map_t *m; int d, k, nkeys = mc_thorough ? 9 : 7; long v; char op[80]; char buffer[32]; size_t base = mc_allocated();
    memset(mref, 0, sizeof mref);
    create_hash_map(&m, initial);
    for(d = 0; d < mc_bound; d++) {
        k = mc_choose(nkeys); v = (k + 1) * 10 + (mref[k].used ? 1 - mref[k].v % 10 : 0); mc_step();
        sprintf(op, "set #%d = %ld", k, v); mc_log("%s", op);
        if(strings) { strcpy(buffer, skeys[k]); set_value_string_hash_map(m, (unsigned char *) buffer, (void *) v); memset(buffer, 'x', sizeof buffer - 1); }
        else set_value_hash_map(m, ikeys[k], NULL, (void *) v);
        mref[k].used = 1; mref[k].v = v;
        check_map(m, strings, nkeys, op);
        if(mc_visited(mc_hash(&d, sizeof d, hash_map_state(m)))) break;
    }
    mc_outcome(hash_map_state(m));
    delete_hash_map(m);
    mc_check(mc_allocated() == base, "deleting the map leaves %zd bytes allocated", (ssize_t) (mc_allocated() - base));
}
static void map_int(void) { map_sequences(0, 1 + mc_choose(4)); }
static void map_string(void) { map_sequences(1, 1 + mc_choose(4)); }
/* order of 12 colliding keys: every rotation and direction, across two growths */
static void map_grow(void) {
    struct hash_map_t *m; int start = mc_choose(12), dir = mc_choose(2), stride = 1 + 2 * mc_choose(3), init = 1 + mc_choose(5), strings = mc_choose(2), i, k; char op[60];
    if(stride == 3) stride = 7;
    memset(mref, 0, sizeof mref); create_hash_map(&m, init);
    for(i = 0; i < 24; i++) {
        k = (start + (dir ? -i * stride : i * stride) % 12 + 12) % 12; mc_step();
        long v = (k + 1) * 10 + (i >= 12); sprintf(op, "set #%d = %ld", k, v);
        if(strings) set_value_string_hash_map(m, (unsigned char *) skeys[k], (void *) v); else set_value_hash_map(m, ikeys[k], NULL, (void *) v);
        mref[k].used = 1; mref[k].v = v; check_map(m, strings, 12, op);
    }
    mc_outcome(hash_map_state(m)); delete_hash_map(m);
}
static void map_values(void) {
    struct hash_map_t *m; size_t base = mc_allocated(); int n = mc_choose(7), i;
    create_hash_map(&m, 1 + mc_choose(4));
    for(i = 0; i < n; i++) { set_value_string_hash_map(m, (unsigned char *) skeys[i], MALLOC(8)); mc_step(); }
    delete_values_hash_map(m); delete_hash_map(m);
    mc_check(mc_allocated() == base, "deleting the map and its values leaves %zd bytes allocated", (ssize_t) (mc_allocated() - base));
}

/* maps of many keys, of every pattern, set twice in different orders */
static size_t many_int(int pattern, size_t i) {
    switch(pattern) {
        case 0: return i; case 1: return i * 64; case 2: return i * 1024; case 3: return i << 32; case 4: return (size_t) -1 - i;
        case 5: return i * 0x9E3779B97F4A7C15ULL; case 6: return i * i; default: return 0x55d0c0000010ULL + i * 48;
    }
}
static const char *many_string(int pattern, size_t i, char *b) {
    size_t k; static const char l[] = "abcdefghijkl";
    switch(pattern) {
        case 0: sprintf(b, "%zu", i); break;
        case 1: memset(b, 'p', 300); sprintf(b + 300, "%zu", i); break;
        case 2: sprintf(b, "%zu", i); k = strlen(b); b[k] = '.'; memset(b + k + 1, 's', 300); b[k + 301] = 0; break;
        case 3: memset(b, 'a', i); b[i] = 0; break;
        case 4: for(k = 0; k < 12; k++) b[k] = i >> k & 1 ? toupper(l[k]) : l[k]; b[12] = 0; break;
        case 5: for(k = 0; k < 16; k++) b[k] = i >> (k / 2) & 1 ? "ab"[k & 1] : "ba"[k & 1]; sprintf(b + 16, "%zu", i >> 8); break;
        case 6: for(k = 0; k < 8; k++) b[k] = (char) (0x80 + (i >> (2 * k) & 3)); b[8] = 0; break;
        default: sprintf(b, "Header-Name-%zx: value", i * 0x10001); break;
    }
    return b;
}
static void map_many(int sorted) {
    static const size_t sizes[] = { 11, 17, 60, 130, 500, 1500 }; static const size_t initials[] = { 0, 1, 2, 7, 1024 };
    size_t n = sizes[mc_choose(6)], i, j, base = mc_allocated(), initial = initials[mc_choose(5)], step = 7; int strings = mc_choose(2), pattern = mc_choose(8), round; char b[1600]; void *v; unsigned char *seen;
    struct hash_map_t *m = NULL; struct sort_map_t *sm = NULL; struct iterator_t *it; struct hash_map_element_t *e;
    if(strings && pattern == 3 && n > 1500) { mc_trivial(); return; }
    if(sorted) create_sort_map(&sm, initial); else create_hash_map(&m, initial);
    while(n % step == 0) step += 2;
    for(round = 0; round < 2; round++) {
        for(i = 0; i < n; i++) {
            j = round ? i * step % n : i; mc_step();
            if(strings) { many_string(pattern, j, b); if(sorted) set_value_string_sort_map(sm, (unsigned char *) b, (void *) (2 * j + 1 + round)); else set_value_string_hash_map(m, (unsigned char *) b, (void *) (2 * j + 1 + round)); }
            else if(sorted) set_value_sort_map(sm, many_int(pattern, j), NULL, (void *) (2 * j + 1 + round)); else set_value_hash_map(m, many_int(pattern, j), NULL, (void *) (2 * j + 1 + round));
        }
        if(sorted) m = sm->hash_map;
        mc_check(m->size == n, "the map has size %zu, expected %zu", m->size, n);
        for(j = 0; j < 2 * n; j++) {
            if(strings && pattern >= 3 && pattern <= 6 && j >= n) break;
            if(strings) { many_string(pattern, j, b); if(sorted) get_value_string_sort_map(sm, (unsigned char *) b, &v); else get_value_string_hash_map(m, (unsigned char *) b, &v); }
            else if(sorted) get_value_sort_map(sm, many_int(pattern, j), NULL, &v); else get_value_hash_map(m, many_int(pattern, j), NULL, &v);
            mc_check((size_t) v == (j < n ? 2 * j + 1 + round : 0), "pattern %d, key #%zu of %zu gives %zu, expected %zu", pattern, j, n, (size_t) v, j < n ? 2 * j + 1 + round : 0);
        }
        seen = calloc(n, 1);
        if(sorted) create_element_iterator_sort_map(sm, &it); else create_element_iterator_hash_map(m, &it);
        for(i = 0; ; i++) {
            get_next_iterator(it, (void **) &e); if(!e) break;
            j = ((size_t) e->value - 1 - round) / 2;
            mc_check(i < n && j < n && !seen[j], "the iterator gives the value %zu twice, or another one", (size_t) e->value); seen[j] = 1;
            if(sorted) mc_check(i == j, "the iteration gives key #%zu at %zu", j, i);
            if(strings) mc_check(e->key_string && !strcmp((char *) e->key_string, many_string(pattern, j, b)), "the iterator pairs the value with another key"); else mc_check(e->key == many_int(pattern, j), "the iterator pairs the value with another key");
        }
        mc_check(i == n, "the iterator gives %zu of %zu elements", i, n);
        free(seen);
        if(sorted) delete_iterator_sort_map(sm, it); else delete_iterator_hash_map(m, it);
    }
    mc_outcome(n * 16 + pattern);
    if(sorted) delete_sort_map(sm); else delete_hash_map(m);
    mc_check(mc_allocated() == base, "deleting the map leaves %zd bytes allocated", (ssize_t) (mc_allocated() - base));
}
static void map_many_hash(void) { map_many(0); }
static void map_many_sort(void) { map_many(1); }

static void sort_map_sequences(int strings) {
    struct sort_map_t *m; int d, k, i, n, nkeys = 6; long v; size_t base = mc_allocated(); struct iterator_t *it; struct hash_map_element_t *e; void *out; size_t *kp;
    memset(mref, 0, sizeof mref); nm = 0;
    create_sort_map(&m, 1 + mc_choose(3));
    for(d = 0; d < mc_bound; d++) {
        k = mc_choose(nkeys); v = (k + 1) * 10 + (mref[k].used ? 1 - mref[k].v % 10 : 0); mc_step(); mc_log("set #%d = %ld", k, v);
        if(strings) set_value_string_sort_map(m, (unsigned char *) skeys[k], (void *) v); else set_value_sort_map(m, ikeys[k], NULL, (void *) v);
        if(!mref[k].used) order[nm++] = k;
        mref[k].used = 1; mref[k].v = v;
        for(i = 0; i < nkeys; i++) {
            if(strings) get_value_string_sort_map(m, (unsigned char *) skeys[i], &out); else get_value_sort_map(m, ikeys[i], NULL, &out);
            mc_check((long) out == (mref[i].used ? mref[i].v : 0), "key #%d gives %ld, expected %ld", i, (long) out, mref[i].v);
        }
        create_element_iterator_sort_map(m, &it);
        for(n = 0; ; n++) {
            get_next_iterator(it, (void **) &e); if(!e) break;
            mc_check(n < nm, "iteration gives more than the %d keys in the map", nm);
            mc_check((long) e->value == mref[order[n]].v, "iteration step %d gives %ld, insertion order says %ld", n, (long) e->value, mref[order[n]].v);
            if(strings) mc_check(!strcmp((char *) e->key_string, skeys[order[n]]), "iteration step %d gives another key", n);
        }
        mc_check(n == nm, "iteration gives %d of %d keys", n, nm);
        delete_iterator_sort_map(m, it);
        create_iterator_sort_map(m, &it);
        for(n = 0; ; n++) { get_next_iterator(it, (void **) &kp); if(!kp) break; mc_check(n < nm, "key iteration gives more than the %d keys in the map", nm); if(!strings) mc_check(*kp == ikeys[order[n]], "key iteration step %d gives %zu", n, *kp); }
        mc_check(n == nm, "key iteration gives %d of %d keys", n, nm);
        delete_iterator_sort_map(m, it);
        if(mc_visited(mc_hash(order, nm * sizeof(int), hash_map_state(m->hash_map) + d))) break;
    }
    mc_outcome(mc_hash(order, nm * sizeof(int), hash_map_state(m->hash_map)));
    delete_sort_map(m);
    mc_check(mc_allocated() == base, "deleting the map leaves %zd bytes allocated", (ssize_t) (mc_allocated() - base));
}
static void sort_int(void) { sort_map_sequences(0); }
static void sort_string(void) { sort_map_sequences(1); }

/* --- priority queue and quicksort --------------------------------------- */
static int cmp_queue(void *a, void *b) { long x = (long) a / 1000, y = (long) b / 1000; return x < y ? -1 : x > y; }
static void queue_sequences(void) {
    struct priority_queue_t *q; int d, i, at; void *v; long val, serial[8] = { 0 }; size_t base = mc_allocated();
    nref = 0; create_priority_queue(&q, cmp_tens);
    for(d = 0; d < mc_bound; d++) {
        int o = mc_choose(5); mc_step();
        if(o < 4) {
            if(nref >= 7) break;
            val = (o + 1) * 10 + (serial[o]++ % 10); mc_log("push %ld", val);
            push_priority_queue(q, (void *) val);
            for(at = 0; at < nref && ref[at] / 10 <= val / 10; at++);
            ref_insert(at, val);
        } else {
            pop_priority_queue(q, &v); mc_log("pop -> %ld", (long) v);
            mc_check((long) v == (nref ? ref[0] : 0), "pop gives %ld, expected %ld", (long) v, nref ? ref[0] : 0L);
            if(nref) ref_remove(0);
        }
        mc_check(q->size == (size_t) nref, "the queue reports size %zu, expected %d", q->size, nref);
        mc_check(q->list->size == (size_t) nref, "the queue holds %zu elements, expected %d", q->list->size, nref);
    }
    for(i = 0; nref; i++) { pop_priority_queue(q, &v); mc_check((long) v == ref[0], "draining gives %ld, expected %ld", (long) v, ref[0]); ref_remove(0); }
    pop_priority_queue(q, &v); mc_check(v == NULL && q->size == 0, "popping an empty queue gives %ld, size %zu", (long) v, q->size);
    delete_priority_queue(q);
    mc_check(mc_allocated() == base, "deleting the queue leaves %zd bytes allocated", (ssize_t) (mc_allocated() - base));
}
/* long queues: pushes of 5 patterns, with pops in between, then drained */
static void queue_long(void) {
    static const int sizes[] = { 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 257, 400 };
    struct priority_queue_t *q; int n = sizes[mc_choose(sizeof sizes / sizeof *sizes)], pattern = mc_choose(6), every = mc_choose(4), i, at; void *v; long val; size_t base = mc_allocated();
    nref = 0; create_priority_queue(&q, cmp_queue);
    for(i = 0; i < n; i++) {
        val = pattern == 0 ? i : pattern == 1 ? n - i : pattern == 2 ? 7 : pattern == 3 ? i % 5 : pattern == 4 ? (i * 37) % n : (i * 7) % 3 * 100 + i % 2;
        val = (val + 1) * 1000 + i; mc_step();
        push_priority_queue(q, (void *) val);
        for(at = 0; at < nref && ref[at] / 1000 <= val / 1000; at++);
        ref_insert(at, val);
        if(every && i % (every + 1) == every) { pop_priority_queue(q, &v); mc_check((long) v == ref[0], "pop after %d pushes gives %ld, expected %ld", i + 1, (long) v, ref[0]); ref_remove(0); }
        mc_check(q->size == (size_t) nref, "the queue reports size %zu, expected %d", q->size, nref);
    }
    while(nref) { pop_priority_queue(q, &v); mc_check((long) v == ref[0], "draining gives %ld, expected %ld (%d left)", (long) v, ref[0], nref); ref_remove(0); }
    pop_priority_queue(q, &v); mc_check(v == NULL && q->size == 0, "popping an empty queue gives %ld", (long) v);
    mc_outcome(n * 8 + pattern);
    delete_priority_queue(q);
    mc_check(mc_allocated() == base, "deleting the queue leaves %zd bytes allocated", (ssize_t) (mc_allocated() - base));
}
static void sort_all(void) {
    int n = mc_choose(mc_bound + 1), i, j, values = n <= 5 ? 5 : n <= 6 ? 4 : 3; void **s = MALLOC((n ? n : 1) * sizeof(void *)); long in[16], out[16];
    for(i = 0; i < n; i++) { in[i] = (mc_choose(values) + 1) * 10 + i; s[i] = (void *) in[i]; }
    mc_step(); mc_outcome(mc_hash(in, n * sizeof(long), 3));
    sort_quicksort(s, 0, n, cmp_tens);
    for(i = 0; i < n; i++) out[i] = (long) s[i];
    for(i = 0; i + 1 < n; i++) mc_check(out[i] / 10 <= out[i + 1] / 10, "position %d: %ld before %ld", i, out[i], out[i + 1]);
    for(i = 0; i < n; i++) { for(j = 0; j < n; j++) if(out[j] == in[i]) break; mc_check(j < n, "element %ld was lost", in[i]); }
    FREE(s);
}
/* a part of a sequence is sorted, the rest stays; permutations of distinct values */
static void sort_range(void) {
    int n = mc_bound, b = mc_choose(n + 1), e = b + mc_choose(n + 1 - b), i, used = 0; void **s = MALLOC(n * sizeof(void *)); long in[16];
    for(i = 0; i < n; i++) { int k = mc_choose(n - i), j; for(j = 0; ; j++) if(!(used >> j & 1) && k-- == 0) break; used |= 1 << j; in[i] = j + 1; s[i] = (void *) in[i]; }
    mc_step();
    if(b < n) sort_quicksort(s, b, e, cmp_long);
    for(i = 0; i < b; i++) mc_check((long) s[i] == in[i], "element %d before the range changed", i);
    for(i = e; i < n; i++) mc_check((long) s[i] == in[i], "element %d after the range changed", i);
    { int x = 0, y = 0; for(i = b; i < e; i++) { x |= 1 << in[i]; y |= 1 << (long) s[i]; if(i > b) mc_check((long) s[i - 1] < (long) s[i], "range not sorted at %d", i); } mc_check(x == y, "the range lost an element"); }
    FREE(s);
}
/* long inputs: organ pipes, runs, saw teeth and constants with one displaced element */
static void sort_long(void) {
    static const int sizes[] = { 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 129, 257 };
    int n = sizes[mc_choose(12)], shape = mc_choose(6), pos = mc_choose(7), i; struct linked_list_t *l; struct linked_list_node_t *nd; long prev = -1, sum = 0, sum2 = 0;
    create_linked_list(&l);
    for(i = 0; i < n; i++) {
        long v = shape == 0 ? i : shape == 1 ? n - i : shape == 2 ? 5 : shape == 3 ? (i < n / 2 ? i : n - i) : shape == 4 ? i % 7 : (i * 37) % n;
        if(i == pos * (n - 1) / 6) v = 1000;
        append_value_linked_list(l, (void *) (v + 1)); sum += (v + 1) * (v + 2);
    }
    mc_step(); sort_linked_list(l, cmp_long);
    for(nd = l->first, i = 0; nd; nd = nd->next, i++) { mc_check((long) nd->value >= prev, "position %d is out of order", i); prev = (long) nd->value; sum2 += prev * (prev + 1); }
    mc_check(i == n && sum == sum2, "sorting changed the elements"); delete_linked_list(l);
}

/* --- buffers ------------------------------------------------------------- */
static const struct { const char *p; size_t n; } pieces[] = { { "", 0 }, { "a", 1 }, { "bc", 2 }, { "\0x", 2 }, { "line\r\n", 6 }, { "0123456789abcdefghijklmnopqrstuvwxyz", 36 } };
static unsigned char *kept[1024]; static int nkept;
static void string_buffer_seq(void) {
    struct string_buffer_t *sb; unsigned char *out; char want[512]; size_t n = 0, base = mc_allocated(); int d, depth = mc_choose(mc_bound + 1);
    create_string_buffer(&sb);
    for(d = 0; d < depth; d++) {
        int p = mc_choose(6), how = mc_choose(6); mc_step();
        unsigned char *copy; struct string_t st;
        if(how == 0) { append_string_buffer(sb, (unsigned char *) pieces[p].p); size_t k = strlen(pieces[p].p); memcpy(want + n, pieces[p].p, k); n += k; }
        else if(how == 3) { size_t k = strlen(pieces[p].p); copy = MALLOC(k + 1); memcpy(copy, pieces[p].p, k + 1); _append_string_buffer(sb, copy); memcpy(want + n, pieces[p].p, k); n += k; }
        else if(how == 4) { append_string_l_buffer(sb, (unsigned char *) pieces[p].p, pieces[p].n); memcpy(want + n, pieces[p].p, pieces[p].n); n += pieces[p].n; }
        else if(how == 5) { st.buffer = (unsigned char *) pieces[p].p; st.length = pieces[p].n; append_string_t_buffer(sb, &st); memcpy(want + n, pieces[p].p, pieces[p].n); n += pieces[p].n; }
        else { copy = MALLOC(pieces[p].n + 1); memcpy(copy, pieces[p].p, pieces[p].n + 1);
            if(how == 1) _append_string_l_buffer(sb, copy, pieces[p].n); else { st.buffer = copy; st.length = pieces[p].n; _append_string_t_buffer(sb, &st); }
            memcpy(want + n, pieces[p].p, pieces[p].n); n += pieces[p].n; }
    }
    mc_check(sb->string_length == n, "the buffer reports %zu bytes, expected %zu", sb->string_length, n);
    join_string_buffer(sb, &out);
    mc_check(!memcmp(out, want, n) && out[n] == 0, "the joined string differs from the concatenation of its parts");
    mc_outcome(mc_hash(want, n, 5)); FREE(out);
    join_string_buffer(sb, &out); mc_check(!memcmp(out, want, n), "a second join differs"); FREE(out);
    delete_string_buffer(sb);
    mc_check(mc_allocated() == base, "deleting the buffer leaves %zd bytes allocated", (ssize_t) (mc_allocated() - base));
}
static void linked_buffer_seq(void) {
    struct linked_buffer_t *lb; unsigned char *out; char want[512]; size_t n = 0, base = mc_allocated(); int d, depth = mc_choose(mc_bound + 1);
    create_linked_buffer(&lb);
    for(d = 0; d < depth; d++) {
        int p = mc_choose(6), how = mc_choose(3); unsigned char *copy; mc_step();
        if(how == 0) append_linked_buffer(lb, (void *) pieces[p].p, pieces[p].n, 0);
        else { copy = MALLOC(pieces[p].n + 1); memcpy(copy, pieces[p].p, pieces[p].n); if(how == 1) append_linked_buffer(lb, copy, pieces[p].n, 1); else _append_linked_buffer(lb, copy, pieces[p].n); }
        memcpy(want + n, pieces[p].p, pieces[p].n); n += pieces[p].n;
    }
    mc_check(lb->buffer_length == n, "the buffer reports %zu bytes, expected %zu", lb->buffer_length, n);
    join_linked_buffer(lb, &out); mc_check(!memcmp(out, want, n), "the joined bytes differ from the concatenation of the parts"); FREE(out);
    mc_outcome(mc_hash(want, n, 6));
    delete_linked_buffer(lb);
    mc_check(mc_allocated() == base, "deleting the buffer leaves %zd bytes allocated", (ssize_t) (mc_allocated() - base));
}
/* many pieces, and big ones */
static void buffer_long(void) {
    static const size_t counts[] = { 5, 8, 9, 33, 64, 257, 1000 }, lens[] = { 1, 7, 127, 128, 255, 256, 1023, 1024, 4095, 4096, 65535, 65536 };
    struct string_buffer_t *sb; struct linked_buffer_t *lb; size_t c = counts[mc_choose(7)], n = lens[mc_choose(12)], i, k, at = 0, base = mc_allocated(); int linked = mc_choose(2), how = mc_choose(3), joins; unsigned char *want, *out, *piece;
    if(c * n > 4200000) { mc_trivial(); return; }
    want = malloc(c * n + 1);
    if(linked) create_linked_buffer(&lb); else create_string_buffer(&sb);
    for(i = 0; i < c; i++) {
        k = i % 3 == 2 ? n / 2 : n; mc_step();
        piece = MALLOC(k + 1); memset(piece, 'A' + i % 26, k); if(k) piece[k - 1] = '0' + i % 10; piece[k] = 0;
        memcpy(want + at, piece, k); at += k;
        if(linked) { if(how == 0) append_linked_buffer(lb, piece, k, 1); else _append_linked_buffer(lb, piece, k); }
        else if(how == 0) { append_string_buffer(sb, piece); }
        else if(how == 1) _append_string_buffer(sb, piece);
        else _append_string_l_buffer(sb, piece, k);
        if(!linked && how == 0) kept[nkept++] = piece;
    }
    for(joins = 0; joins < 2; joins++) {
        if(linked) { mc_check(lb->buffer_length == at, "the buffer reports %zu bytes, expected %zu", lb->buffer_length, at); join_linked_buffer(lb, &out); }
        else { mc_check(sb->string_length == at, "the buffer reports %zu bytes, expected %zu", sb->string_length, at); join_string_buffer(sb, &out); mc_check(out[at] == 0, "the joined string is not ended"); }
        mc_check(!memcmp(out, want, at), "%zu pieces of %zu bytes: join %d differs from their concatenation", c, n, joins); FREE(out);
    }
    mc_outcome(mc_hash(want, at, linked)); free(want);
    if(linked) delete_linked_buffer(lb); else delete_string_buffer(sb);
    while(nkept) { piece = kept[--nkept]; FREE(piece); }
    mc_check(mc_allocated() == base, "deleting the buffer leaves %zd bytes allocated", (ssize_t) (mc_allocated() - base));
}
static void array_list_seq(void) {
    static const size_t esizes[] = { 1, 2, 4, 8, 12, 24 };
    struct array_list_t *a; size_t es = esizes[mc_choose(6)], cap = 1 + mc_choose(4), base = mc_allocated(), i, j; unsigned char model[4][24], init[4] = { 0 }, *p; int d;
    create_array_list(&a, es, cap);
    for(d = 0; d < mc_bound; d++) {
        unsigned char e[24]; i = mc_choose(cap); memset(e, 'A' + d * 7 + i, sizeof e); e[0] = d; mc_step();
        set_array_list(a, i, e); memcpy(model[i], e, es); init[i] = 1;
        for(j = 0; j < cap; j++) if(init[j]) { get_array_list(a, j, (void **) &p); mc_check(!memcmp(p, model[j], es), "element %zu of size %zu reads back wrong after setting %zu", j, es, i); }
    }
    delete_array_list(a);
    mc_check(mc_allocated() == base, "deleting the array leaves %zd bytes allocated", (ssize_t) (mc_allocated() - base));
}

static const mc_scenario list[] = {
    { "C01.list", list_sequences, 6, 8, 0, 0, 3, 0, "15 list operations, up to 5 elements, against an array; links, size, peeks, iterators, sequences after every one" },
    { "C01.long", list_long, 1, 1, 0, 0, 2, 0, "lists of 7 to 1000 elements, filled in 4 ways, changed in 6, emptied in 3" },
    { "C02.pair", map_pair, 5, 8, 0, 0, 2, 0, "every sequence of sets over keys of which several share the integer but not the string" },
    { "C02.map_int", map_int, 7, 9, 0, 0, 3, 0, "set of colliding integer keys from capacities 1..4, every key and the iterator read after each" },
    { "C02.map_string", map_string, 7, 9, 0, 0, 3, 0, "the same with string keys the map must copy" },
    { "C02.map_grow", map_grow, 1, 1, 0, 0, 3, 0, "12 keys in every rotation, direction and stride, set twice across two growths" },
    { "C02.map_values", map_values, 1, 1, 0, 0, 1, 0, "release of map and values" },
    { "C02.many", map_many_hash, 1, 1, 0, 0, 2, 0, "11 to 1500 keys of 8 patterns, integers and strings, from 5 capacities, set twice" },
    { "C02.many_sort", map_many_sort, 1, 1, 0, 0, 2, 0, "the same for the ordered map" },
    { "C02.sort_int", sort_int, 6, 8, 0, 0, 3, 0, "insertion ordered map, integer keys" },
    { "C02.sort_string", sort_string, 6, 8, 0, 0, 3, 0, "insertion ordered map, string keys" },
    { "C03.queue", queue_sequences, 8, 10, 0, 0, 3, 0, "push of 4 priorities with distinguishable equals and pop, then drained" },
    { "C03.queue_long", queue_long, 1, 1, 0, 0, 2, 0, "9 to 400 pushes of 6 patterns, a pop after every 0, 2, 3 or 4, then drained" },
    { "C03.sort_all", sort_all, 6, 9, 0, 0, 3, 0, "all sequences up to the length, 3 to 5 values with distinguishable equals" },
    { "C03.sort_range", sort_range, 6, 7, 0, 0, 3, 0, "all permutations, all sub-ranges" },
    { "C03.sort_long", sort_long, 1, 1, 0, 0, 2, 0, "structured inputs of 15 to 257 elements" },
    { "C04.string_buffer", string_buffer_seq, 3, 4, 0, 0, 3, 0, "appends of 6 pieces in 6 ways, joined twice" },
    { "C04.linked_buffer", linked_buffer_seq, 3, 4, 0, 0, 3, 0, "appends of 6 pieces in 3 ways" },
    { "C04.long", buffer_long, 1, 1, 0, 0, 2, 0, "5 to 1000 pieces of 12 sizes up to 65536, in 3 ways, joined twice" },
    { "C04.array_list", array_list_seq, 4, 6, 0, 0, 3, 0, "writes inside the capacity, 6 element sizes" },
};
MC_MAIN(list)
