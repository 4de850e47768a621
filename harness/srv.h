/* srv.h - helpers shared by the harnesses of the server */
#ifndef SRV_H
#define SRV_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>

#define COUNT(a) ((int) (sizeof(a) / sizeof((a)[0])))
#define CRLF "\r\n"
#define KA "Connection: keep-alive\r\n"
#define BASE "[general]\nhandler=dispatch\nindex=index.html\nuse_template=0\n"

typedef struct answer { char *data; size_t len; int closed; } answer;

/* what the clients had when nothing could happen any more, before the stop */
static struct { char *out; size_t len; int open; } at_quiet[8];
static int quiet_seen;
static void on_quiet(void) {
    int i;
    quiet_seen = 1;
    for(i = 0; i < sim_na; i++) {
        vsock *s = sim_client(i);
        at_quiet[i].open = s ? s->open : 0; at_quiet[i].len = s ? s->outlen : 0; at_quiet[i].out = s ? s->out : NULL;
    }
}
static void fresh_run(const char *ini) {
    sim_site(); sim_reset(); sim_config(ini); quiet_seen = 0; sim_quiet_hook = on_quiet;
}
static vsock *done(int i) {
    vsock *s = sim_client(i);
    mc_check(quiet_seen, "the server stopped by itself (start returned %d)", sim_start_result);
    mc_check(s != NULL, "internal: client %d never connected", i);
    mc_check(s->accepted, "the connection of client %d was not accepted", i);
    return s;
}
static int was_open(int i) { return at_quiet[i].open; }
static char *copy(const void *p, size_t n) { char *r = malloc(n + 1); memcpy(r, p, n); r[n] = 0; return r; }

/* the answer to one request sent, whole, on a connection of its own */
static const answer *solo(const char *ini, const char *req, size_t len) {
    static struct { uint64_t key; answer a; } cache[4096]; static int n; int i; vsock *s; actor *a;
    int v = mc_verbose; uint64_t key = mc_hash(req, len, mc_hash_s(ini, 3));
    for(i = 0; i < n; i++) if(cache[i].key == key) return &cache[i].a;
    if(n == 4096) { for(i = 0; i < n; i++) free(cache[i].a.data); n = 0; }
    sim_site(); mc_verbose = 0;
    fresh_run(ini);
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', req, len, 0);
    sim_run();
    s = done(0);
    cache[n].key = key; cache[n].a.data = copy(s->out ? s->out : "", s->outlen); cache[n].a.len = s->outlen; cache[n].a.closed = !was_open(0);
    mc_verbose = v;
    return &cache[n++].a;
}

/* a growing byte string, reset at the start of every execution */
typedef struct bytes { char *p; size_t n, cap; } bytes;
static void put(bytes *b, const void *d, size_t n) {
    if(b->n + n + 1 > b->cap) { sim_bytes -= b->cap; b->cap = (b->n + n + 1) * 2 + 256; b->p = realloc(b->p, b->cap); sim_bytes += b->cap; }
    memcpy(b->p + b->n, d, n); b->n += n; b->p[b->n] = 0;
}
static void puts_(bytes *b, const char *s) { put(b, s, strlen(s)); }
static void fill(bytes *b, char c, size_t n) { while(n--) put(b, &c, 1); }

static void same(const char *what, const char *got, size_t gn, const char *want, size_t wn) {
    char g[700], w[700]; size_t i = 0;
    if(gn == wn && memcmp(got, want, gn) == 0) return;
    while(i < gn && i < wn && got[i] == want[i]) i++;
    mc_hex(g, sizeof g, got + (i > 40 ? i - 40 : 0), gn - (i > 40 ? i - 40 : 0));
    mc_hex(w, sizeof w, want + (i > 40 ? i - 40 : 0), wn - (i > 40 ? i - 40 : 0));
    mc_fail("%s: got %zu bytes, expected %zu, first difference at %zu: got ...%s expected ...%s", what, gn, wn, i, g, w);
}
/* parses exactly one complete response out of the answer */
static resp parsed(const char *what, const char *d, size_t n, int head) {
    resp r; char h[300]; int k = sim_parse(d, n, head, &r);
    mc_hex(h, sizeof h, d, n);
    mc_check(k == 1, "%s: %s response: %s", what, k == 0 ? "incomplete" : "malformed", h);
    mc_check(r.total == n, "%s: %zu bytes after the end of the response: %s", what, n - r.total, h);
    return r;
}
static void good_client(void) {
    static const char q[] = "GET /hello.txt HTTP/1.1" CRLF "Host: good" CRLF CRLF;
    actor *a = sim_actor(); sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', q, sizeof q - 1, 0);
}
static void good_check(int i) {
    vsock *s = done(i); resp r = parsed("the well behaved client", s->out, s->outlen, 0);
    mc_check(r.status == 200 && r.bodylen == 12 && memcmp(r.body, "hello world\n", 12) == 0, "the well behaved client got status %d and a body of %zu bytes", r.status, r.bodylen);
    mc_check(!was_open(i), "the connection of the well behaved client is left open");
}
#endif
