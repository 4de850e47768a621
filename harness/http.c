/* http.c - the protocol: H01 segmentation, H02/H03 framing and pipelining,
 * H04 persistence, H05 malformed input, H06 faulty transport */
#include "srv.h"

#define SECRET BASE "[location:s]\npath=^/secret\nhandler=file\nauth_basic=realm\nauth_file=cfg/passwd\n"

/* --- H01 ------------------------------------------------------------- */
typedef struct stream { const char *ini, *data; int n; } stream;
static const stream streams[] = {
    { BASE, "GET /hello.txt HTTP/1.1" CRLF "Host: a.b" CRLF KA CRLF },
    { BASE, "GET /hello.txt HTTP/1.1" CRLF KA CRLF "GET /dir/a.txt?q=1&b=%20 HTTP/1.1" CRLF "Connection: close" CRLF CRLF },
    { BASE, "POST /hello.txt HTTP/1.1" CRLF KA "Content-Length: 11" CRLF CRLF "GET / HTTP/1GET /empty.txt HTTP/1.1" CRLF KA CRLF },
    { BASE, "POST /x HTTP/1.1" CRLF KA "Transfer-Encoding: chunked" CRLF CRLF "4" CRLF "abcd" CRLF "a;x=y" CRLF "0123456789" CRLF "0" CRLF CRLF "GET /noext HTTP/1.1" CRLF KA CRLF },
    { BASE, "GET /hello.txt HTTP/1.1" CRLF "Range: bytes=2-5" CRLF KA CRLF "HEAD /hello.txt HTTP/1.1" CRLF KA CRLF "GET /missing HTTP/1.0" CRLF CRLF },
    { SECRET, "GET /secret/s.txt HTTP/1.1" CRLF "Authorization: Basic dXNlcjpwYXNz" CRLF KA CRLF "GET /secret/s.txt HTTP/1.1" CRLF KA CRLF },
    { BASE, "GET /a%20b/c.txt HTTP/1.1" CRLF "If-None-Match: \"00000000\"" CRLF "Cache-Control: no-cache" CRLF KA CRLF CRLF "GET /dir HTTP/1.1" CRLF KA CRLF },
    { BASE, "GET /hello.txt HTTP/1.1\nHost: lf\nConnection: keep-alive\n\nGET /one.bin HTTP/1.1\n\n" },
    { BASE, "GET /hello.txt HTTP/1.1" CRLF "Upgrade: foo" CRLF "Connection: Upgrade" CRLF CRLF "GET /empty.txt HTTP/1.1" CRLF CRLF },
    { BASE, "POST /hello.txt HTTP/1.1" CRLF KA "Upgrade: foo" CRLF "Content-Length: 24" CRLF CRLF "GET /x HTTP/1.1\r\n\r\n....." "GET /empty.txt HTTP/1.1" CRLF CRLF },
    { BASE, "GET /hello.txt HTTP/1.1" CRLF "X: one" CRLF " folded" CRLF KA CRLF "BAD /hello.txt HTTP/1.1" CRLF CRLF "GET /empty.txt HTTP/1.1" CRLF CRLF },
    { BASE, "DELETE /hello.txt HTTP/1.1" CRLF KA CRLF "PROPFIND /hello.txt HTTP/1.1" CRLF KA CRLF "GET  /hello.txt HTTP/1.1" CRLF CRLF },
    { BASE, "POST /x HTTP/1.1" CRLF KA "Transfer-Encoding: chunked" CRLF CRLF "4" CRLF "abcd" CRLF "zz" CRLF "0123456789" CRLF "0" CRLF CRLF "GET /noext HTTP/1.1" CRLF KA CRLF },
    { BASE, "GET http://h.x:8080/hello.txt HTTP/1.1" CRLF "Proxy-Connection: keep-alive" CRLF KA CRLF "OPTIONS * HTTP/1.1" CRLF KA CRLF "GET /hello.txt HTTP/1.1" CRLF CRLF },
};
static void send_cut(actor *a, const char *d, size_t n, const size_t *cuts, int k) {
    size_t at = 0; int i;
    for(i = 0; i <= k; i++) {
        size_t to = i < k ? cuts[i] : n;
        if(to > at) { sim_add(a, 's', d + at, to - at, 0); at = to; }
    }
}
static void compare_cut(const char *ini, const char *d, size_t n, const size_t *cuts, int k) {
    const answer *whole = solo(ini, d, n); actor *a; vsock *s;
    fresh_run(ini);
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0); send_cut(a, d, n, cuts, k);
    sim_run();
    s = done(0);
    same("the output differs from that of the same bytes sent at once", s->out, s->outlen, whole->data, whole->len);
    mc_check(was_open(0) == !whole->closed, "the connection is left %s, it is left %s when the same bytes are sent at once", was_open(0) ? "open" : "closed", whole->closed ? "closed" : "open");
    mc_outcome(mc_hash(s->out, s->outlen, 5));
}
static void h01_one(void) {
    const stream *t = &streams[mc_choose(COUNT(streams))]; size_t n = strlen(t->data), c[1];
    c[0] = 1 + mc_choose((int) n - 1);
    compare_cut(t->ini, t->data, n, c, 1);
}
static void h01_two(void) {
    const stream *t = &streams[mc_choose(COUNT(streams))]; size_t n = strlen(t->data), c[2];
    c[0] = 1 + mc_choose((int) n - 2); c[1] = c[0] + 1 + mc_choose((int) (n - c[0]) - 1);
    compare_cut(t->ini, t->data, n, c, 2);
}
static void h01_three(void) {
    const stream *t = &streams[mc_choose(COUNT(streams))]; size_t n = strlen(t->data), c[3];
    int step = mc_bound, w = (int) n / step;
    if(w < 4) { mc_trivial(); return; }
    c[0] = 1 + mc_choose(w - 2); c[1] = c[0] + 1 + mc_choose(w - 1 - (int) c[0]); c[2] = c[1] + 1 + mc_choose(w - (int) c[1]);
    c[0] *= step; c[1] *= step; c[2] *= step;
    compare_cut(t->ini, t->data, n, c, 3);
}
/* pieces of the same size, from byte by byte up */
static void h01_even(void) {
    const stream *t = &streams[mc_choose(COUNT(streams))]; size_t n = strlen(t->data), at; static size_t c[8];
    size_t size = 1 + mc_choose(mc_bound); size_t first = mc_choose((int) size); actor *a; vsock *s; const answer *whole = solo(t->ini, t->data, n);
    (void) c;
    fresh_run(t->ini);
    /* the pieces follow each other one per event: several clients are not
    needed, a hook on the reads gives at most the wanted number of bytes */
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0);
    for(at = 0; at < n && a->n < 60; ) {
        size_t k = at == 0 && first ? first : size; if(at + k > n || a->n == 59) k = n - at;
        sim_add(a, 's', t->data + at, k, 0); at += k;
    }
    sim_run();
    s = done(0);
    same("the output differs from that of the same bytes sent at once", s->out, s->outlen, whole->data, whole->len);
    mc_check(was_open(0) == !whole->closed, "the connection is left %s, not %s", was_open(0) ? "open" : "closed", whole->closed ? "closed" : "open");
}
/* every read gives the wanted number of bytes at most, then nothing more for now */
static int give;
static int recv_give(vsock *s, size_t len) { (void) len; if(s->recvs % 2 == 0) return -1; return give; }
static void h01_reads(void) {
    const stream *t = &streams[mc_choose(COUNT(streams))]; size_t n = strlen(t->data); actor *a; vsock *s; const answer *whole = solo(t->ini, t->data, n);
    give = 1 + mc_choose(mc_bound);
    fresh_run(t->ini); sim_recv_hook = recv_give;
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', t->data, n, 0);
    sim_run();
    s = done(0);
    same("the output differs from that of the same bytes read at once", s->out, s->outlen, whole->data, whole->len);
    mc_check(was_open(0) == !whole->closed, "the connection is left %s, not %s", was_open(0) ? "open" : "closed", whole->closed ? "closed" : "open");
}
/* long requests: the fields are longer than the buffers of the connection */
static void h01_long(void) {
    static bytes b; static const int where[] = { 0, 1, 2, 3, 4 };
    static const int sizes[] = { 900, 4000, 4097, 16300, 16384, 20000, 70000 };
    int kind = where[mc_choose(5)], size = sizes[mc_choose(mc_thorough ? 7 : 6)]; size_t c[2]; int i, k; char t[64];
    b.n = 0;
    switch(kind) {
        case 0: puts_(&b, "GET /hello.txt?"); fill(&b, 'q', size); puts_(&b, " HTTP/1.1" CRLF KA CRLF); break;
        case 1: puts_(&b, "GET /hello.txt HTTP/1.1" CRLF "X-Long: "); fill(&b, 'v', size); puts_(&b, CRLF KA CRLF); break;
        case 2: puts_(&b, "GET /hello.txt HTTP/1.1" CRLF); for(i = 0; i < size / 20; i++) { sprintf(t, "X-Header-%04d: abcd\r\n", i); puts_(&b, t); } puts_(&b, KA CRLF); break;
        case 3: puts_(&b, "POST /hello.txt HTTP/1.1" CRLF KA); sprintf(t, "Content-Length: %d" CRLF CRLF, size); puts_(&b, t); fill(&b, 'b', size); break;
        case 4: puts_(&b, "POST /hello.txt HTTP/1.1" CRLF KA "Transfer-Encoding: chunked" CRLF CRLF); sprintf(t, "%x" CRLF, size); puts_(&b, t); fill(&b, 'b', size); puts_(&b, CRLF "0" CRLF CRLF); break;
    }
    puts_(&b, "GET /dir/a.txt HTTP/1.1" CRLF CRLF);
    k = mc_choose(mc_bound);
    c[0] = 1 + (b.n - 2) * k / mc_bound;
    k = mc_choose(mc_bound);
    c[1] = c[0] + 1 + (b.n - c[0] - 1) * k / mc_bound;
    compare_cut(BASE, b.p, b.n, c, 2);
    {   const answer *w = solo(BASE, b.p, b.n);
        resp r; int st = sim_parse(w->data, w->len, 0, &r);
        mc_check(st == 1, "no complete response to the long request (%zu bytes were sent)", w->len);
        mc_check(r.status == 200 && r.bodylen == 12 && w->len > r.total, "the long request is answered with status %d", r.status);
        r = parsed("the request after the long one", w->data + r.total, w->len - r.total, 0);
        mc_check(r.status == 200 && r.bodylen == 6, "the request after the long one is answered with status %d", r.status);
    }
}

/* --- H02 / H03 / H04 -------------------------------------------------- */
typedef struct request { const char *text; int head, status; const char *body; int len; } request;
static const request reqs[] = {
    { "GET /hello.txt HTTP/1.1" CRLF "Host: x" CRLF KA CRLF, 0, 200, "hello world\n", 12 },
    { "HEAD /hello.txt HTTP/1.1" CRLF KA CRLF, 1, 200, "", 12 },
    { "GET /missing HTTP/1.1" CRLF KA CRLF, 0, 404, NULL, -1 },
    { "GET /dir HTTP/1.1" CRLF KA CRLF, 0, 307, NULL, -1 },
    { "GET /hello.txt HTTP/1.1" CRLF "Range: bytes=6-10" CRLF KA CRLF, 0, 206, "world", 5 },
    { "POST /dir/a.txt HTTP/1.1" CRLF KA "Content-Length: 24" CRLF CRLF "GET /x HTTP/1.1\r\n\r\n....." , 0, 200, "file a", 6 },
    { "PUT /empty.txt HTTP/1.1" CRLF KA "Transfer-Encoding: chunked" CRLF CRLF "5" CRLF "GET /" CRLF "3" CRLF "\r\n\r" CRLF "0" CRLF CRLF, 0, 200, "", 0 },
    { "GET /dir/ HTTP/1.1" CRLF KA CRLF, 0, -1, NULL, -1 },
    { "GET /hello.txt HTTP/1.1" CRLF CRLF, 0, 200, "hello world\n", 12 },
    { "GET /big.bin HTTP/1.1" CRLF KA CRLF, 0, 200, NULL, SIM_BIG },
    { "HEAD /missing HTTP/1.1" CRLF KA CRLF, 1, 404, "", -1 },
    { "GET /empty.txt HTTP/1.1" CRLF KA CRLF, 0, 200, "", 0 },
    { "HEAD /big.bin HTTP/1.0" CRLF KA CRLF, 1, 200, "", SIM_BIG },
    { "GET /noext HTTP/1.0" CRLF CRLF, 0, 200, "plain", 5 },
    { "PUT /hello.txt HTTP/1.1" CRLF "Upgrade: foo" CRLF KA "Content-Length: 24" CRLF CRLF "GET /x HTTP/1.1\r\n\r\n.....", 0, 200, "hello world\n", 12 },
    { "GET /noext HTTP/1.1" CRLF KA "Upgrade: h2c" CRLF CRLF, 0, 200, "plain", 5 },
};
/* the lone answer is itself judged: well formed, of the right status and contents */
static const answer *judged(const request *q) {
    const answer *a = solo(BASE, q->text, strlen(q->text)); resp r = parsed("a request alone", a->data, a->len, q->head);
    if(q->status > 0) mc_check(r.status == q->status, "status %d instead of %d", r.status, q->status);
    if(q->head) mc_check(r.bodylen == 0, "a body of %zu bytes in the answer to HEAD", r.bodylen);
    else if(q->body && q->len >= 0) same("the body", r.body, r.bodylen, q->body, q->len);
    else if(q->len == SIM_BIG) same("the big body", r.body, r.bodylen, sim_big(), SIM_BIG);
    if(q->len >= 0) mc_check(r.clen == q->len, "Content-Length is %ld, not %d", r.clen, q->len);
    mc_check(r.keep == !a->closed, "the response says the connection %s and it was %s", r.keep ? "persists" : "closes", a->closed ? "closed" : "left open");
    return a;
}
static void h03(void) {
    int k = mc_bound, i, n = COUNT(reqs), alpha = n, closed = 0; static bytes want, chunk[8]; int pick[8], glue[8]; actor *a; vsock *s; int answered = 0;
    if(k >= 4) alpha = 9;
    for(i = 0; i < k; i++) { pick[i] = mc_choose(alpha); glue[i] = i + 1 < k ? mc_choose(3) : 0; }
    want.n = 0;
    for(i = 0; i < k && !closed; i++) { const answer *w = judged(&reqs[pick[i]]); put(&want, w->data, w->len); closed = w->closed; answered++; }
    fresh_run(BASE);
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0);
    /* glue: 0 in a piece of its own, 1 together with the next one, 2 the next one waits for the answer */
    for(i = 0; i < k; ) {
        int j = i; bytes *b = &chunk[i]; b->n = 0;
        while(1) { puts_(b, reqs[pick[j]].text); if(glue[j] != 1 || j + 1 >= k) break; j++; }
        sim_add(a, 's', b->p, b->n, 0);
        if(glue[j] == 2) sim_add(a, 'p', 0, 0, 0);
        i = j + 1;
    }
    sim_run();
    s = done(0);
    same("the answers to the pipelined requests differ from the ones they get alone, in order", s->out, s->outlen, want.p, want.n);
    mc_check(was_open(0) == !closed, "after %d answers the connection is %s", answered, was_open(0) ? "left open" : "closed");
    mc_outcome(mc_hash(s->out, s->outlen, 9));
}
static void h04(void) {
    static const char *versions[] = { "HTTP/1.1", "HTTP/1.0" };
    static const char *methods[] = { "GET", "HEAD", "POST", "DELETE", "OPTIONS", "PUT" };
    static const char *conn[] = { "", "Connection: keep-alive" CRLF, "Connection: close" CRLF, "Connection: Keep-Alive" CRLF, "connection: KEEP-ALIVE" CRLF, "Connection:close" CRLF, "Connection:  keep-alive" CRLF, "Connection: other" CRLF };
    static const char *paths[] = { "/hello.txt", "/missing", "/dir", "/dir/", "/empty.txt", "/", "/sub/", "/%zz", "/../outside.txt", "/secret/s.txt" };
    static const char *extra[] = { "", "Range: bytes=0-3" CRLF, "Range: bytes=90-99" CRLF, "Authorization: Basic dXNlcjpwYXNz" CRLF };
    static const char *inis[] = { BASE, SECRET, "[general]\nhandler=default\nuse_template=0\n", "[general]\nhandler=file\nuse_template=0\n", "[general]\nhandler=dispatch\nindex=index.html\nuse_template=1\n" };
    int v = mc_choose(2), m = mc_choose(6), c = mc_choose(8), p = mc_choose(COUNT(paths)), x = mc_choose(4), n = mc_choose(COUNT(inis)); char q[600]; const answer *a; resp r;
    static const char second[] = "GET /hello.txt HTTP/1.1" CRLF CRLF; const answer *b; static bytes both; size_t first;
    snprintf(q, sizeof q, "%s %s %s" CRLF "%s%s%s" CRLF, methods[m], paths[p], versions[v], conn[c], extra[x], m == 2 || m == 5 ? "Content-Length: 0" CRLF : "");
    a = solo(inis[n], q, strlen(q));
    r = parsed("the request", a->data, a->len, m == 1);
    mc_check(r.keep == !a->closed, "the response (status %d) says the connection %s and it was %s", r.status, r.keep ? "persists" : "closes", a->closed ? "closed" : "left open");
    if(c == 2 || c == 5) mc_check(a->closed, "the client asked for the connection to be closed and it was not");
    if(c == 1 || c == 3 || c == 4) mc_check(!a->closed, "the client asked for a persistent connection and it was closed after a response of status %d", r.status);
    first = a->len; both.n = 0; put(&both, a->data, a->len);
    /* a second request is answered exactly when the connection persists */
    b = solo(inis[n], second, sizeof second - 1);
    {   static bytes in; const answer *t; in.n = 0; puts_(&in, q); puts_(&in, second);
        int persists = r.keep;
        if(persists) put(&both, b->data, b->len);
        t = solo(inis[n], in.p, in.n);
        same("two requests on a connection", t->data, t->len, both.p, both.n); (void) first;
        mc_check(t->closed, "the connection is left open");
    }
}

/* --- H05 -------------------------------------------------------------- */
static void malformed(const char *ini, const char *d, size_t n, int end) {
    actor *a; vsock *s; size_t at = 0; resp r; char h[400];
    fresh_run(ini);
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0);
    if(n) sim_add(a, 's', d, n, 0);
    if(end == 1) sim_add(a, 'e', 0, 0, 0);
    if(end == 2) sim_add(a, 'r', 0, 0, 0);
    good_client();
    sim_run();
    s = done(0);
    /* whatever is answered is a sequence of complete, well formed responses
    (the method, and so the presence of a body, is known only to the server) */
    while(at < s->outlen) {
        int k = sim_parse(s->out + at, s->outlen - at, 0, &r);
        if(k != 1 && (k = sim_parse(s->out + at, s->outlen - at, 1, &r)) == 1 && at + r.total != s->outlen && memcmp(s->out + at + r.total, "HTTP/1.", 7) != 0) k = -1;
        mc_hex(h, sizeof h, s->out + at, s->outlen - at);
        mc_check(k == 1, "the answer is not a sequence of well formed responses: %s", h);
        at += r.total;
    }
    good_check(1);
    if(end && end == 1) mc_check(!was_open(0), "the connection is left open after the client closed it");
    if(end == 2) mc_check(!was_open(0), "the connection is left open after the client reset it");
    mc_outcome(mc_hash(s->out, s->outlen, was_open(0)));
}
static const stream targets[] = {
    { BASE, "GET /hello.txt?a=b HTTP/1.1" CRLF "Host: h" CRLF "Range: bytes=1-3" CRLF KA CRLF "GET /empty.txt HTTP/1.1" CRLF CRLF },
    { BASE, "POST /a%20b/c.txt HTTP/1.1" CRLF KA "Transfer-Encoding: chunked" CRLF CRLF "4;x" CRLF "abcd" CRLF "10" CRLF "0123456789abcdef" CRLF "0" CRLF "T: v" CRLF CRLF },
    { SECRET, "GET /secret/../secret/s.txt HTTP/1.1" CRLF "Authorization: Basic dXNlcjpwYXNz" CRLF "If-None-Match: \"01234567\"" CRLF CRLF },
    { BASE, "POST /dir HTTP/1.0" CRLF "Content-Length: 10" CRLF "Connection: Keep-Alive" CRLF "Upgrade: h2c" CRLF CRLF "0123456789" },
};
static const unsigned char nasty[] = { 0, '\r', '\n', ' ', ':', '%', '/', '0', '-', '.', 0x7f, 0xff, '\t', 'g', '?', ';', '=', ',', '"', '9' };
static void h05_subst(void) {
    int t = mc_choose(COUNT(targets)); size_t n = strlen(targets[t].data); int at = mc_choose((int) n); char *p; int c;
    c = mc_thorough ? mc_choose(256) : nasty[mc_choose(COUNT(nasty))];
    p = malloc(n + 1); memcpy(p, targets[t].data, n + 1); p[at] = (char) c;
    malformed(targets[t].ini, p, n, mc_choose(2)); free(p);
}
static void h05_insert(void) {
    int t = mc_choose(COUNT(targets)); size_t n = strlen(targets[t].data); int at = mc_choose((int) n + 1); char *p; int c = nasty[mc_choose(COUNT(nasty))], twice = mc_thorough ? 1 + mc_choose(3) : 1 + mc_choose(2);
    p = malloc(n + 4); memcpy(p, targets[t].data, at); memset(p + at, c, twice); memcpy(p + at + twice, targets[t].data + at, n - at);
    malformed(targets[t].ini, p, n + twice, 1); free(p);
}
static void h05_delete(void) {
    int t = mc_choose(COUNT(targets)); size_t n = strlen(targets[t].data); int at = mc_choose((int) n), k = 1 + mc_choose(mc_bound); char *p;
    if(at + k > (int) n) { mc_trivial(); return; }
    p = malloc(n + 1); memcpy(p, targets[t].data, at); memcpy(p + at, targets[t].data + at + k, n - at - k);
    malformed(targets[t].ini, p, n - k, 1); free(p);
}
static void h05_truncate(void) {
    int t = mc_choose(COUNT(targets)); size_t n = strlen(targets[t].data);
    malformed(targets[t].ini, targets[t].data, mc_choose((int) n + 1), mc_choose(3));
}
static void h05_swap(void) {            /* two substitutions at neighbouring places */
    int t = mc_choose(COUNT(targets)); size_t n = strlen(targets[t].data); int at = mc_choose((int) n - 1), gap = 1 + mc_choose(mc_bound); char *p;
    if(at + gap >= (int) n) { mc_trivial(); return; }
    p = malloc(n + 1); memcpy(p, targets[t].data, n + 1); p[at] = nasty[mc_choose(COUNT(nasty))]; p[at + gap] = nasty[mc_choose(COUNT(nasty))];
    malformed(targets[t].ini, p, n, 1); free(p);
}
/* every field grown across every fixed size in the code */
static void h05_long(void) {
    static const int around[] = { 5, 8, 10, 13, 16, 32, 64, 128, 256, 512, 1024, 2048, 3968, 4096, 8192, 16384, 65536 };
    static bytes b; int f = mc_choose(16), w = around[mc_choose(COUNT(around))], len = w - mc_bound + mc_choose(2 * mc_bound + 1), i; char t[64];
    if(len < 0) len = 0;
    b.n = 0;
    switch(f) {
        case 0: fill(&b, 'G', len); puts_(&b, " /hello.txt HTTP/1.1" CRLF CRLF); break;
        case 1: puts_(&b, "GET /"); fill(&b, 'u', len); puts_(&b, " HTTP/1.1" CRLF KA CRLF); break;
        case 2: puts_(&b, "GET /hello.txt?"); fill(&b, 'u', len); puts_(&b, " HTTP/1.1" CRLF KA CRLF); break;
        case 3: puts_(&b, "GET /"); for(i = 0; i < len / 3; i++) puts_(&b, "%41"); puts_(&b, " HTTP/1.1" CRLF KA CRLF); break;
        case 4: puts_(&b, "GET /hello.txt HTTP/1.1" CRLF); fill(&b, 'n', len); puts_(&b, ": v" CRLF KA CRLF); break;
        case 5: puts_(&b, "GET /hello.txt HTTP/1.1" CRLF "Name: "); fill(&b, 'v', len); puts_(&b, CRLF KA CRLF); break;
        case 6: puts_(&b, "GET /hello.txt HTTP/1.1" CRLF "Range: bytes="); fill(&b, '1', len); puts_(&b, "-" CRLF KA CRLF); break;
        case 7: puts_(&b, "GET /hello.txt HTTP/1.1" CRLF "If-None-Match: "); fill(&b, '"', len); puts_(&b, CRLF KA CRLF); break;
        case 8: puts_(&b, "GET /hello.txt HTTP/1.1" CRLF "Cache-Control: "); fill(&b, 'c', len); puts_(&b, CRLF KA CRLF); break;
        case 9: puts_(&b, "GET /secret/s.txt HTTP/1.1" CRLF "Authorization: Basic "); fill(&b, 'A', len); puts_(&b, CRLF KA CRLF); break;
        case 10: puts_(&b, "GET /"); for(i = 0; i < len / 2; i++) puts_(&b, "d/"); puts_(&b, " HTTP/1.1" CRLF KA CRLF); break;
        case 11: puts_(&b, "POST /hello.txt HTTP/1.1" CRLF "Content-Length: "); fill(&b, '9', len); puts_(&b, CRLF CRLF "body"); break;
        case 12: puts_(&b, "POST /hello.txt HTTP/1.1" CRLF "Transfer-Encoding: chunked" CRLF CRLF); fill(&b, 'f', len); puts_(&b, CRLF "body"); break;
        case 13: sprintf(t, "POST /hello.txt HTTP/1.1" CRLF "Content-Length: %d" CRLF CRLF, len); puts_(&b, t); fill(&b, 'b', len); break;
        case 14: puts_(&b, "GET /dir"); fill(&b, '/', len); puts_(&b, " HTTP/1.1" CRLF KA CRLF); break;
        case 15: puts_(&b, "GET /hello.txt."); fill(&b, 'x', len); puts_(&b, " HTTP/1.1" CRLF KA CRLF); break;
    }
    malformed(f == 9 ? SECRET : BASE, b.p, b.n, 1);
}

/* --- H06 -------------------------------------------------------------- */
static int broken;
static int send_fault(vsock *s, const char *buf, size_t len) {
    int k;
    (void) buf;
    if(s == sim_client(sim_na - 1)) return (int) len;   /* the well behaved client is served normally */
    k = mc_deviate(6);
    switch(k) {
        case 1: return 1;
        case 2: return (int) len / 2;
        case 3: return -1;
        case 4: return (int) len - 1;
        case 5: broken = 1; return -2;
        default: return (int) len;
    }
}
static int recv_fault(vsock *s, size_t len) {
    int k;
    if(s == sim_client(sim_na - 1)) return (int) len;
    k = mc_deviate(4);
    switch(k) {
        case 1: return 1;
        case 2: return -1;
        case 3: broken = 1; return -2;
        default: return (int) len;
    }
}
static const char *faulted[] = {
    "GET /hello.txt HTTP/1.1" CRLF KA CRLF "GET /dir/a.txt HTTP/1.1" CRLF CRLF,
    "GET /big.bin HTTP/1.1" CRLF CRLF,
    "GET /big.bin HTTP/1.1" CRLF KA CRLF "GET /missing HTTP/1.1" CRLF KA CRLF,
    "POST /hello.txt HTTP/1.1" CRLF KA "Content-Length: 10" CRLF CRLF "0123456789GET /big.bin HTTP/1.1" CRLF "Range: bytes=5-299999" CRLF CRLF,
    "GET /dir/ HTTP/1.1" CRLF KA CRLF "HEAD /hello.txt HTTP/1.1" CRLF CRLF,
    "BAD" CRLF CRLF,
};
static void h06(void) {
    int t = mc_choose(COUNT(faulted)); size_t n = strlen(faulted[t]); const answer *w; actor *a; vsock *s; static const char *ini = BASE;
    w = solo(ini, faulted[t], n);
    fresh_run(ini); broken = 0; sim_send_hook = send_fault; sim_recv_hook = recv_fault;
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', faulted[t], n, 0);
    good_client();
    sim_run();
    s = done(0);
    if(!broken) {
        same("the output differs from that on a transport without faults", s->out, s->outlen, w->data, w->len);
        mc_check(was_open(0) == !w->closed, "the connection is left %s", was_open(0) ? "open" : "closed");
    } else {
        mc_check(!was_open(0), "the connection is left open although its transport is broken");
        mc_check(s->outlen <= w->len, "more bytes were sent than without faults");
        same("the output before the break", s->out, s->outlen, w->data, s->outlen);
    }
    good_check(1);
}
/* the client goes away, or stops reading, at any point */
static void h06_leave(void) {
    int t = mc_choose(COUNT(faulted)); size_t n = strlen(faulted[t]); const answer *w = solo(BASE, faulted[t], n); actor *a; vsock *s; int how = mc_choose(2);
    fresh_run(BASE); broken = 0; sim_mode = 1; sim_send_hook = send_fault;
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', faulted[t], n, 0); sim_add(a, how ? 'r' : 'e', 0, 0, 0);
    good_client();
    sim_run();
    s = done(0);
    mc_check(!was_open(0), "the connection is left open although the client left");
    mc_check(s->outlen <= w->len, "more bytes were sent than to a client that stays");
    same("the output before the client left", s->out, s->outlen, w->data, s->outlen);
    good_check(1);
}

/* --- H07 -------------------------------------------------------------- */
/* the same request, written in another way */
typedef struct field { const char *name, *value; int token; const char *other; } field;
typedef struct message { const char *ini, *line; int n; field f[6]; const char *rest; int status; } message;
static const message messages[] = {
    { SECRET, "GET /secret/s.txt HTTP/1.1", 4, { { "Host", "h", 0, "x" }, { "Authorization", "Basic dXNlcjpwYXNz", 0, "Basic AAAA" }, { "Range", "bytes=1-3", 0, "bytes=0-0" }, { "Connection", "keep-alive", 1, "close" } }, "", 206 },
    { BASE, "GET /hello.txt HTTP/1.1", 4, { { "If-None-Match", "ETAG", 0, "\"00000000\"" }, { "Cache-Control", "no-cache", 0, "x" }, { "Connection", "keep-alive", 1, "close" }, { "Upgrade", "foo", 0, "bar" } }, "GET /noext HTTP/1.1" CRLF CRLF, 304 },
    { BASE, "POST /hello.txt HTTP/1.1", 4, { { "Content-Length", "5", 0, "3" }, { "Content-Type", "text/plain", 0, "x" }, { "Connection", "keep-alive", 1, "close" }, { "Accept", "*/*", 0, "x" } }, "GET /GET /noext HTTP/1.1" CRLF CRLF, 200 },
    { BASE, "PUT /hello.txt HTTP/1.1", 3, { { "Transfer-Encoding", "chunked", 1, "chunked" }, { "Connection", "keep-alive", 1, "close" }, { "X", "", 0, "x" } }, "5" CRLF "GET /" CRLF "0" CRLF CRLF "GET /noext HTTP/1.1" CRLF CRLF, 200 },
    { BASE, "HEAD /hello.txt HTTP/1.0", 2, { { "Connection", "Keep-Alive", 1, "close" }, { "Range", "bytes=-3", 0, "bytes=0-0" } }, "GET /noext HTTP/1.0" CRLF CRLF, 206 },
};
static const char *h07_value(const message *m, int i) {
    static char etag[16]; const answer *a; resp r; char v[100];
    if(strcmp(m->f[i].value, "ETAG") != 0) return m->f[i].value;
    a = solo(BASE, "GET /hello.txt HTTP/1.1" CRLF CRLF, 27); r = parsed("the request for the tag", a->data, a->len, 0);
    mc_check(sim_header(&r, "ETag", v, sizeof v) && strlen(v) == 10, "the response has no tag"); strcpy(etag, v);
    return etag;
}
static void h07_plain(bytes *b, const message *m) {
    int i; b->n = 0; puts_(b, m->line); puts_(b, CRLF);
    for(i = 0; i < m->n; i++) { puts_(b, m->f[i].name); puts_(b, ": "); puts_(b, h07_value(m, i)); puts_(b, CRLF); }
    puts_(b, CRLF); puts_(b, m->rest);
}
static void h07_compare(const message *m, const bytes *b) {
    static bytes p; const answer *w, *g; resp r; static bytes want; char h[400]; int k, closed;
    h07_plain(&p, m); w = solo(m->ini, p.p, p.n); k = sim_parse(w->data, w->len, memcmp(m->line, "HEAD", 4) == 0, &r);
    mc_check(k == 1 && r.status == m->status && r.keep, "the request as it is usually written is answered with status %d (expected %d)", k == 1 ? r.status : 0, m->status);
    want.n = 0; put(&want, w->data, w->len); closed = w->closed;
    mc_hex(h, sizeof h, b->p, b->n); mc_log("request: %s", h);
    g = solo(m->ini, b->p, b->n);
    same("the answer to the same request written in another way differs", g->data, g->len, want.p, want.n);
    mc_check(g->closed == closed, "the connection is left %s, it is left %s when the request is written in the usual way", g->closed ? "closed" : "open", closed ? "closed" : "open");
    mc_outcome(mc_hash(g->data, g->len, 7));
}
static char flip(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') ? c ^ 32 : c; }
/* the letters of one name (or of a value that is a word) in the other case */
static void h07_case(void) {
    const message *m = &messages[mc_choose(COUNT(messages))]; int f = mc_choose(m->n), v = m->f[f].token ? mc_choose(2) : 0, i, j, a, c; static bytes b; char t[64];
    const char *o = v ? m->f[f].value : m->f[f].name; int n = (int) strlen(o);
    if(mc_bound == 1) {
        a = mc_choose(n + 3); c = a < n ? a + mc_choose(n - a) : 0;
        for(j = 0; j <= n; j++) t[j] = a == n ? (o[j] >= 'A' && o[j] <= 'Z' ? o[j] ^ 32 : o[j]) : a == n + 1 ? (o[j] >= 'a' && o[j] <= 'z' ? o[j] ^ 32 : o[j]) : a == n + 2 ? flip(o[j]) : j == a || j == c ? flip(o[j]) : o[j];
    } else {
        a = mc_choose(1 << (n < 12 ? n : 12));
        for(j = 0; j <= n; j++) t[j] = a >> (j % 12) & 1 ? flip(o[j]) : o[j];
    }
    b.n = 0; puts_(&b, m->line); puts_(&b, CRLF);
    for(i = 0; i < m->n; i++) { puts_(&b, i == f && !v ? t : m->f[i].name); puts_(&b, ": "); puts_(&b, i == f && v ? t : h07_value(m, i)); puts_(&b, CRLF); }
    puts_(&b, CRLF); puts_(&b, m->rest);
    h07_compare(m, &b);
}
/* spaces and tabs around the values, one line end for another */
static void h07_space(void) {
    static const char *before[] = { " ", "", "  ", "\t", " \t ", "                                 " }, *after[] = { "", " ", "  ", "\t", " \t", "                  " };
    const message *m = &messages[mc_choose(COUNT(messages))]; int f = mc_choose(m->n), x = mc_choose(6), y = mc_choose(6), g = -1, z = 0, i; static bytes b;
    if(mc_bound > 1) { g = mc_choose(m->n); z = mc_choose(6); }
    b.n = 0; puts_(&b, m->line); puts_(&b, CRLF);
    for(i = 0; i < m->n; i++) { puts_(&b, m->f[i].name); puts_(&b, ":"); puts_(&b, i == f ? before[x] : " "); puts_(&b, h07_value(m, i)); puts_(&b, i == f ? after[y] : i == g ? after[z] : ""); puts_(&b, CRLF); }
    puts_(&b, CRLF); puts_(&b, m->rest);
    h07_compare(m, &b);
}
static void h07_lines(void) {
    const message *m = &messages[mc_choose(COUNT(messages))]; int k = mc_choose(1 << (m->n + 2)), i; static bytes b;
    b.n = 0; puts_(&b, m->line); puts_(&b, k & 1 ? "\n" : CRLF);
    for(i = 0; i < m->n; i++) { puts_(&b, m->f[i].name); puts_(&b, ": "); puts_(&b, h07_value(m, i)); puts_(&b, k >> (i + 1) & 1 ? "\n" : CRLF); }
    puts_(&b, k >> (m->n + 1) & 1 ? "\n" : CRLF); puts_(&b, m->rest);
    h07_compare(m, &b);
}
static void h07_order(void) {
    const message *m = &messages[mc_choose(COUNT(messages))]; int at[6], i, j, t; static bytes b;
    for(i = 0; i < m->n; i++) at[i] = i;
    for(i = 0; i + 1 < m->n; i++) { j = i + mc_choose(m->n - i); t = at[i]; at[i] = at[j]; at[j] = t; }
    b.n = 0; puts_(&b, m->line); puts_(&b, CRLF);
    for(i = 0; i < m->n; i++) { puts_(&b, m->f[at[i]].name); puts_(&b, ": "); puts_(&b, h07_value(m, at[i])); puts_(&b, CRLF); }
    puts_(&b, CRLF); puts_(&b, m->rest);
    h07_compare(m, &b);
}
/* a field of another name, that looks like one that means something */
static void h07_other(void) {
    const message *m = &messages[mc_choose(COUNT(messages))], *from = &messages[mc_choose(4)]; int f = mc_choose(from->n), at = mc_choose(m->n + 1), i, n, k, w; static bytes b; char t[64];
    const char *o = from->f[f].name; n = (int) strlen(o);
    k = mc_choose(3 * n); w = mc_choose(2);
    if(k < n) { strcpy(t, o); t[k] = t[k] == '-' ? '_' : t[k] == 'z' ? 'y' : t[k] + 1; }
    else if(k < 2 * n) { memcpy(t, o, k - n); strcpy(t + (k - n), o + (k - n) + 1); }
    else { memcpy(t, o, k - 2 * n + 1); t[k - 2 * n + 1] = 'q'; strcpy(t + (k - 2 * n) + 2, o + (k - 2 * n) + 1); }
    if(t[0] == 0) { mc_trivial(); return; }
    b.n = 0; puts_(&b, m->line); puts_(&b, CRLF);
    for(i = 0; i <= m->n; i++) {
        if(i == at) { puts_(&b, t); puts_(&b, ": "); puts_(&b, w ? from->f[f].other : h07_value(from, f)); puts_(&b, CRLF); }
        if(i < m->n) { puts_(&b, m->f[i].name); puts_(&b, ": "); puts_(&b, h07_value(m, i)); puts_(&b, CRLF); }
    }
    puts_(&b, CRLF); puts_(&b, m->rest);
    h07_compare(m, &b);
}

static const mc_scenario list[] = {
    { "H01.one", h01_one, 1, 1, 0, 0, 2, 0, "13 request streams, every single cut, against the same bytes sent at once" },
    { "H01.two", h01_two, 1, 1, 0, 0, 2, 0, "13 request streams, every pair of cuts" },
    { "H01.three", h01_three, 6, 3, 0, 0, 2, 0, "13 request streams, every triple of cuts on a grid" },
    { "H01.even", h01_even, 24, 60, 0, 0, 2, 0, "13 request streams in pieces of one size, every phase" },
    { "H01.reads", h01_reads, 40, 200, 0, 0, 2, 0, "13 request streams, every read limited to k bytes and followed by an empty one" },
    { "H01.long", h01_long, 8, 24, 0, 0, 3, 0, "requests with fields longer than the buffers, pairs of cuts on a grid" },
    { "H03.two", h03, 2, 2, 0, 0, 2, 0, "pipelines of 2 requests, every grouping" },
    { "H03.three", h03, 3, 3, 0, 0, 3, 0, "pipelines of 3 requests, every grouping" },
    { "H03.four", h03, -1, 4, 0, 0, 3, 0, "pipelines of 4 requests, every grouping" },
    { "H04.persist", h04, 1, 1, 0, 0, 3, 0, "version x method x connection header x path x extra header x configuration" },
    { "H05.subst", h05_subst, 1, 1, 0, 0, 2, 0, "4 request streams, every byte replaced" },
    { "H05.insert", h05_insert, 1, 1, 0, 0, 2, 0, "bytes inserted at every position" },
    { "H05.delete", h05_delete, 4, 12, 0, 0, 2, 0, "runs of bytes removed at every position" },
    { "H05.truncate", h05_truncate, 1, 1, 0, 0, 2, 0, "every prefix, then nothing, a close or a reset" },
    { "H05.swap", h05_swap, 1, 4, 0, 0, 2, 0, "two bytes replaced at neighbouring positions" },
    { "H05.long", h05_long, 2, 4, 0, 0, 2, 0, "16 fields of every length around 17 sizes" },
    { "H07.case", h07_case, 1, 2, 0, 0, 2, 0, "5 requests, the letters of every name and word in the other case" },
    { "H07.space", h07_space, 1, 2, 0, 0, 2, 0, "spaces and tabs around the value of every field" },
    { "H07.lines", h07_lines, 1, 1, 0, 0, 2, 0, "every subset of the lines ended by a line feed alone" },
    { "H07.order", h07_order, 1, 1, 0, 0, 2, 0, "every order of the fields" },
    { "H07.other", h07_other, 1, 1, 0, 0, 2, 0, "a field whose name is one letter away from a known one, at every place" },
    { "H06.faults", h06, 1, 1, 2, 3, 1, 1, "short, refused and broken sends and reads at every call" },
    { "H06.leave", h06_leave, 1, 1, 2, 3, 1, 1, "the client leaves at every scheduling point, with a fault at any send" },
};
MC_MAIN(list)
