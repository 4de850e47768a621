/* D08 request parameters: joined so that any reader gets the same pairs back. */
#include "srv.h"
#include "stdafx.h"
#include "http/http_util.h"

typedef unsigned char u8;
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
/* the pairs of a query, as the specification of forms reads them */
typedef struct pair_ { char key[64]; u8 val[1024]; size_t len; } pair_;
static pair_ got[300], want_[300]; static int ngot, nwant;
static int plain(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c && strchr("-_.~", c)); }
static void read_query(const u8 *q, size_t n, const char *what) {
    size_t i = 0, e, k; pair_ *p;
    ngot = 0;
    while(n && i <= n) {
        mc_check(ngot < 300, "%s: too many pairs", what);
        p = &got[ngot++]; memset(p, 0, sizeof *p);
        for(e = i; e < n && q[e] != '&'; e++);
        for(k = 0; i < e && q[i] != '='; i++) { mc_check(k < 63 && plain(q[i]), "%s: the byte 0x%02x in a name", what, q[i]); p->key[k++] = q[i]; }
        mc_check(i < e, "%s: a name without value (%.200s)", what, q);
        for(i++; i < e; i++) {
            int c = q[i];
            if(c == '%') { mc_check(e - i > 2 && hexv(q[i + 1]) >= 0 && hexv(q[i + 2]) >= 0, "%s: a broken escape (%.200s)", what, q); c = hexv(q[i + 1]) * 16 + hexv(q[i + 2]); i += 2; }
            else if(c == '+') c = ' ';
            else mc_check(plain(c), "%s: the byte 0x%02x as it is in a value", what, c);
            mc_check(p->len < sizeof p->val, "%s: a value too long", what);
            p->val[p->len++] = c;
        }
        i = e + 1; if(e == n) break;
    }
}
static void compare(const char *what) {
    int i, j;
    mc_check(ngot == nwant, "%s: %d pairs, expected %d", what, ngot, nwant);
    for(i = 0; i < nwant; i++) {
        for(j = 0; j < ngot; j++) if(!strcmp(got[j].key, want_[i].key)) break;
        mc_check(j < ngot, "%s: the parameter %s is missing", what, want_[i].key);
        mc_check(got[j].len == want_[i].len && !memcmp(got[j].val, want_[i].val, got[j].len), "%s: the parameter %s has %zu bytes, expected the %zu given", what, want_[i].key, got[j].len, want_[i].len);
    }
}
static void want(const char *key, const void *val, size_t len) {
    int i;
    for(i = 0; i < nwant; i++) if(!strcmp(want_[i].key, key)) break;      /* the last one counts */
    if(i == nwant) nwant++;
    memset(&want_[i], 0, sizeof want_[i]); strcpy(want_[i].key, key); memcpy(want_[i].val, val, len); want_[i].len = len;
}
static char room[300000];
/* joins up to three pairs in a room of the given size, guards around it */
static ERROR_CODE join(size_t size, int n, const char **k, const void **v, const size_t *l) {
    ERROR_CODE r; size_t i, base; char *b = malloc(size ? size : 1);         /* exact: what is written past it is seen */
    unset_last_error_message(); base = mc_allocated(); memset(b, 0x5a, size);
    r = n == 0 ? parameters_http_c(b, size, (size_t) 0) : n == 1 ? parameters_http_c(b, size, (size_t) 1, k[0], v[0], l[0]) :
        n == 2 ? parameters_http_c(b, size, (size_t) 2, k[0], v[0], l[0], k[1], v[1], l[1]) : parameters_http_c(b, size, (size_t) 3, k[0], v[0], l[0], k[1], v[1], l[1], k[2], v[2], l[2]);
    if(!IS_ERROR_CODE(r)) {
        for(i = 0; i < size && b[i]; i++);
        mc_check(i < size, "the text is not ended within %zu bytes", size);
        memcpy(room, b, i + 1);
    }
    unset_last_error_message();
    mc_check(mc_allocated() == base, "joining %d parameters leaves %zd bytes allocated", n, (ssize_t) (mc_allocated() - base));
    free(b); return r;
}
static const char *keys[] = { "a", "b", "ab", "info_hash", "x-y.z~1" };
static const struct { const char *s; size_t n; } vals[] = { { "", 0 }, { "a", 1 }, { "&", 1 }, { "=", 1 }, { "a&b=c", 5 }, { "%41", 3 }, { "%", 1 }, { " + ", 3 }, { "\0", 1 }, { "a\0b", 3 }, { "\xff\x80\n", 3 }, { "?#/", 3 }, { "-_.~", 4 } };
static void pairs(void) {
    const char *k[3]; const void *v[3]; size_t l[3]; int n = mc_choose(mc_bound + 1), i; char what[100];
    nwant = 0;
    for(i = 0; i < n; i++) { int a = mc_choose(COUNT(keys)), b = mc_choose(COUNT(vals)); k[i] = keys[a]; v[i] = vals[b].s; l[i] = vals[b].n; want(k[i], v[i], l[i]); }
    snprintf(what, sizeof what, "%d parameters", n);
    mc_check(!IS_ERROR_CODE(join(4096, n, k, v, l)), "%s are refused", what);
    read_query((u8 *) room, strlen(room), what); compare(what); mc_outcome(mc_hash_s(room, 1)); mc_state(mc_hash_s(room, 1)); mc_step();
}
/* every byte beside every other one */
static void bytes_(void) {
    u8 t[2]; const char *k[1] = { "k" }; const void *v[1] = { t }; size_t l[1] = { 2 }; char what[100]; int i;
    t[0] = mc_choose(256);
    for(i = 0; i < 256; i++) {
        t[1] = i; nwant = 0; want("k", t, 2); snprintf(what, sizeof what, "the bytes %02x %02x", t[0], t[1]);
        mc_check(!IS_ERROR_CODE(join(4096, 1, k, v, l)), "%s are refused", what);
        read_query((u8 *) room, strlen(room), what); compare(what);
    }
    mc_state(t[0]); mc_step();
}
/* every room around what is needed: all or an error */
static void rooms(void) {
    static char fill_[400]; const char *k[2] = { "a", "bc" }; const void *v[2] = { fill_, "%" }; size_t l[2], need; int n = 1 + mc_choose(2), size, len = mc_choose(mc_bound), esc = mc_choose(2); ERROR_CODE r; char what[100];
    memset(fill_, esc ? '/' : 'x', sizeof fill_); l[0] = len; l[1] = 1; nwant = 0; want(k[0], v[0], l[0]); if(n == 2) want(k[1], v[1], l[1]);
    need = 2 + (esc ? 3 : 1) * len + (n == 2 ? 1 + 3 + 3 : 0);
    size = (int) need - 4 + mc_choose(9); if(size < 1) mc_skip();
    snprintf(what, sizeof what, "%zu bytes of parameters in %d", need, size);
    r = join(size, n, k, v, l);
    mc_check(IS_ERROR_CODE(r) == (need + 1 > (size_t) size), "%s: %s", what, IS_ERROR_CODE(r) ? "refused" : "accepted");
    if(!IS_ERROR_CODE(r)) { mc_check(strlen(room) == need, "%s: %zu bytes are given", what, strlen(room)); read_query((u8 *) room, need, what); compare(what); }
    mc_state(mc_hash(&size, sizeof size, n * 1000 + len)); mc_step();
}
/* maps of every number of parameters, with growth and collisions of the map */
static void many(void) {
    static struct string_t s[300]; static char name[300][16], val[300][16]; struct hash_map_t *m; u8 *b; size_t n = mc_choose(mc_bound + 1), init = mc_choose(3), i, len, base; char what[100];
    nwant = 0; unset_last_error_message(); base = mc_allocated();
    create_hash_map(&m, init == 0 ? 0 : init == 1 ? 1 : 64);
    for(i = 0; i < n; i++) { sprintf(name[i], "p%zu", i); sprintf(val[i], "%zu &", i * 7); s[i].buffer = (u8 *) val[i]; s[i].length = strlen(val[i]); want(name[i], val[i], strlen(val[i])); set_value_string_hash_map(m, (u8 *) name[i], &s[i]); }
    mc_check(!IS_ERROR_CODE(parameters_http(m, &b, &len)), "%zu parameters are refused", n);
    snprintf(what, sizeof what, "%zu parameters of a map", n);
    mc_check(b[len] == 0 && strlen((char *) b) == len, "%s: the size is %zu, the text has %zu", what, len, strlen((char *) b));
    read_query(b, len, what); compare(what); free(b); delete_hash_map(m);
    mc_check(mc_allocated() == base, "%s: bytes are left allocated", what);
    mc_state(n * 3 + init); mc_step();
}
static const mc_scenario list[] = {
    { "D08.pairs", pairs, 3, 3, 0, 0, 2, 0, "every list of up to k pairs of 5 names and 13 values" },
    { "D08.bytes", bytes_, 1, 1, 0, 0, 1, 0, "every pair of bytes as a value" },
    { "D08.room", rooms, 40, 130, 0, 0, 2, 0, "every room around what is needed" },
    { "D08.many", many, 80, 250, 0, 0, 1, 0, "every number of parameters in maps of 3 initial sizes" },
};
MC_MAIN(list)
