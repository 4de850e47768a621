/* framing.c - H02: where a request ends, against a reference written from the
 * protocol.  The stream is a request with a body in some framing followed by
 * others; bytes of the body, or of a request whose end is not defined, are
 * never interpreted as a request. */
#include "srv.h"

#define SMUGGLED "GET /noext HTTP/1.1" CRLF KA CRLF
#define MARKER "GET /dir/a.txt HTTP/1.1" CRLF CRLF
enum { NONE, NONE_MAY, CL, CL_MAY, CL_BAD, TE, TE_MAY, TE_BAD };
typedef struct line { const char *text; int kind; long n; } line;
static const line lines[] = {
    { "", NONE }, { "Host: h" CRLF, NONE },
    { "Content-Length: 4" CRLF, CL, 4 }, { "Content-Length: 0" CRLF, CL, 0 }, { "content-length:47" CRLF, CL, 47 }, { "CONTENT-LENGTH:   004  " CRLF, CL, 4 },
    { "Content-Length: 4\n", CL, 4 }, { "Content-Length: 19" CRLF, CL, 19 },
    { "Transfer-Encoding: chunked" CRLF, TE }, { "transfer-encoding:CHUNKED  " CRLF, TE }, { "Transfer-Encoding: chunked\n", TE },
    { "Content-Length: 1 0" CRLF, CL_BAD }, { "Content-Length: +4" CRLF, CL_BAD }, { "Content-Length: -4" CRLF, CL_BAD }, { "Content-Length: 0x4" CRLF, CL_BAD },
    { "Content-Length:" CRLF, CL_BAD }, { "Content-Length: \n", CL_BAD }, { "Content-Length: 4a" CRLF, CL_BAD }, { "Content-Length: 4;5" CRLF, CL_BAD }, { "Content-Length: 4,5" CRLF, CL_BAD },
    { "Content-Length: 4,4" CRLF, CL_MAY, 4 }, { "Content-Length : 4" CRLF, CL_MAY, 4 }, { "Content-Length: 4\t" CRLF, CL_MAY, 4 }, { "Content-Length:" CRLF " 4" CRLF, CL_MAY, 4 },
    { "Content-Length: 1" CRLF " 0" CRLF, CL_BAD }, { "Content-Length: 1" CRLF "\t0" CRLF, CL_BAD }, { "Content-Length: 99999999999" CRLF, CL_MAY, 99999999999L }, { "Content-Length: 4294967300" CRLF, CL_MAY, 4294967300L },
    { "Content-Length: 18446744073709551620" CRLF, CL_BAD },
    { "X-Content-Length: 4" CRLF, NONE }, { "Content-Lengt: 4" CRLF, NONE }, { "Content-Lengthy: 4" CRLF, NONE }, { "Content_Length: 4" CRLF, NONE }, { "X: Content-Length: 4" CRLF, NONE },
    { "X: a\rContent-Length: 4" CRLF, NONE_MAY }, { "X: a\rXContent-Length: 4" CRLF, NONE_MAY }, { "X: a" CRLF " Content-Length: 4" CRLF, NONE_MAY }, { "X: a" CRLF "\tTransfer-Encoding: chunked" CRLF, NONE_MAY },
    { "X:\rXTransfer-Encoding: chunked" CRLF, NONE_MAY }, { "Content-Length: 4\rX" CRLF, CL_BAD }, { "Content-Length\r: 4" CRLF, NONE_MAY },
    { "Transfer-Encoding: identity" CRLF, TE_BAD }, { "Transfer-Encoding: gzip" CRLF, TE_BAD }, { "Transfer-Encoding: chunked, identity" CRLF, TE_BAD }, { "Transfer-Encoding: gzip, chunked" CRLF, TE_MAY },
    { "Transfer-Encoding: xchunked" CRLF, TE_BAD }, { "Transfer-Encoding: chunke" CRLF, TE_BAD }, { "Transfer-Encoding: chunkedx" CRLF, TE_BAD }, { "Transfer-Encoding: c" CRLF, TE_BAD }, { "Transfer-Encoding: chunked x" CRLF, TE_BAD },
    { "Transfer-Encoding:" CRLF, TE_BAD }, { "Transfer-Encoding: \n", TE_BAD }, { "Transfer-Encoding:" CRLF " chunked" CRLF, TE_MAY }, { "Transfer-Encoding: chunked" CRLF " x" CRLF, TE_BAD }, { "Transfer-Encoding: chunked\t" CRLF, TE_MAY },
    { "Transfer-Encoding : chunked" CRLF, TE_MAY }, { "Transfer-Encoding: \"chunked\"" CRLF, TE_BAD }, { "Transfer-Encoding: , chunked" CRLF, TE_MAY }, { "Transfer-Encoding: chunked, chunked" CRLF, TE_MAY },
    { "X-Transfer-Encoding: chunked" CRLF, NONE }, { "Transfer-Encodin: chunked" CRLF, NONE }, { "Transfer-Encodings: chunked" CRLF, NONE }, { "TE: chunked" CRLF, NONE },
    { "Expect: nothing" CRLF, NONE }, { "Upgrade: foo" CRLF, NONE }, { "Content-Type: a/b" CRLF, NONE }, { "Connexion: 4" CRLF, NONE }, { "Con: 4" CRLF, NONE }, { "Trailer: Content-Length" CRLF, NONE },
};
static const char *bodies[] = {
    "", "abcd", SMUGGLED "....",                       /* 47 + 4 bytes */
    "4" CRLF "abcd" CRLF "0" CRLF CRLF, "0" CRLF CRLF SMUGGLED, "2f" CRLF SMUGGLED CRLF "0" CRLF CRLF,
    "2D;x=" SMUGGLED, CRLF SMUGGLED,
};
/* the requests that the rest of the stream amounts to: appends their answers */
static int rest(const char *p, const char *end, bytes *want) {
    while(1) {
        const answer *a; const char *q = NULL; static const char *known[] = { SMUGGLED, MARKER, "BAD" }; int i;
        while(p < end && (*p == '\r' || *p == '\n')) p++;
        if(p == end) return 1;                                          /* open */
        for(i = 0; i < 2; i++) if((size_t) (end - p) >= strlen(known[i]) && memcmp(p, known[i], strlen(known[i])) == 0) q = known[i];
        if(!q) return 0;                                                /* not a request, closed */
        a = solo(BASE, q, strlen(q)); put(want, a->data, a->len); p += strlen(q);
        if(a->closed) return 0;
    }
}
static const char *dechunk(const char *p, const char *end, int *bad, int *more) {
    *bad = *more = 0;
    while(1) {
        unsigned long n = 0; int digits = 0; const char *e;
        while(p < end && strchr("0123456789abcdefABCDEF", *p) && *p) { n = n * 16 + (*p <= '9' ? *p - '0' : (*p | 32) - 'a' + 10); p++; if(++digits > 8) { *bad = 1; return p; } }
        if(p == end) { *more = 1; return p; }
        if(!digits) { *bad = 1; return p; }
        if(*p != '\r' && *p != ';' && *p != ' ') { *bad = 1; return p; }
        e = memmem(p, end - p, "\r", 1);
        if(!e || e + 1 == end) { *more = 1; return p; }
        if(e[1] != '\n') { *bad = 1; return p; }
        p = e + 2;
        if(n == 0) break;
        if((unsigned long) (end - p) < n) { *more = 1; return p; }
        p += n;
        if(p == end) { *more = 1; return p; }
        if(*p != '\r') { *bad = 1; return p; }
        if(p + 1 == end) { *more = 1; return p; }
        if(p[1] != '\n') { *bad = 1; return p; }
        p += 2;
    }
    while(1) {  /* trailers */
        const char *e = memmem(p, end - p, CRLF, 2);
        if(!e) { *more = 1; return p; }
        if(e == p) return p + 2;
        if(!memchr(p, ':', e - p)) { *bad = 1; return p; }
        p = e + 2;
    }
}
static int one_byte(vsock *s, size_t len) { (void) s; (void) len; return 1; }
static int deliver(const bytes *in, int how) {
    actor *a; size_t at, piece = how == 1 ? (in->n + 39) / 40 : in->n; vsock *s;
    fresh_run(BASE); if(how == 2) sim_recv_hook = one_byte;
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0);
    for(at = 0; at < in->n; at += piece) sim_add(a, 's', in->p + at, in->n - at < piece ? in->n - at : piece, 0);
    sim_run(); s = done(0); (void) s;
    return was_open(0);
}
/* nothing but a rejection: no output or an error, and the connection is closed */
static int rejected(vsock *s, int open) {
    resp r; int p;
    if(open) return 0;
    if(s->outlen == 0) return 1;
    p = sim_parse(s->out, s->outlen, 0, &r);
    return p == 1 && r.status >= 400 && r.total == s->outlen;
}
static void judge(const bytes *in, int valid, int may, const bytes *want, int want_open, const char *what) {
    int open = deliver(in, mc_choose(mc_thorough ? 3 : 2)); vsock *s = done(0); char h[900], g[300];
    mc_hex(h, sizeof h, in->p, in->n);
    mc_outcome(mc_hash(s->out ? s->out : "", s->outlen, open));
    if((!valid || may) && rejected(s, open)) return;
    mc_hex(g, sizeof g, s->out ? s->out : "", s->outlen);
    mc_check(valid, "a request whose %s is invalid is not rejected: %s is answered %s and the connection is %s", what, h, g, open ? "open" : "closed");
    same(h, s->out ? s->out : "", s->outlen, want->p ? want->p : "", want->n);
    mc_check(open == want_open, "the connection is left %s after %s", open ? "open" : "closed", h);
}
static void h02_headers(void) {
    static bytes in, want; int i, k = mc_bound, cls = 0, tes = 0, valid = 1, may = 0, method = mc_choose(2); long n = -1; const answer *first; size_t at; const char *p, *end; int open;
    static const char *methods[] = { "POST", "GET" }; char q[200]; int b;
    in.n = want.n = 0;
    puts_(&in, methods[method]); puts_(&in, " /hello.txt HTTP/1.1" CRLF KA);
    for(i = 0; i < k; i++) {
        const line *l = &lines[mc_choose(COUNT(lines))];
        puts_(&in, l->text);
        if(l->kind == CL_BAD || l->kind == TE_BAD) valid = 0;
        if(l->kind == CL_MAY || l->kind == TE_MAY || l->kind == NONE_MAY) may = 1;
        if(l->kind == CL || l->kind == CL_MAY) { if(cls++) { may = 1; if(n != l->n) valid = 0; } n = l->n; }
        if(l->kind == TE || l->kind == TE_MAY) { if(tes++) may = 1; }
    }
    if(cls && tes) may = 1;
    puts_(&in, CRLF); at = in.n;
    b = mc_choose(COUNT(bodies)); puts_(&in, bodies[b]); puts_(&in, MARKER);
    p = in.p + at; end = in.p + in.n; open = 1;
    if(valid) {
        int bad = 0, more = 0;
        if(tes) p = dechunk(p, end, &bad, &more);
        else if(cls) { if(n > end - p) more = 1; else p += n; }
        if(bad) { valid = 0; }
        if(more) {              /* still waiting for the rest */
            judge(&in, 1, 1, &want, 1, "length"); return;
        }
        if(valid) {
            sprintf(q, "%s /hello.txt HTTP/1.1" CRLF KA "%s" CRLF, methods[method], method ? "" : "Content-Length: 0" CRLF);
            first = solo(BASE, q, strlen(q)); put(&want, first->data, first->len);
            open = first->closed ? 0 : rest(p, end, &want);
        }
    }
    judge(&in, valid, may, &want, open, "framing");
}
/* chunks: size lines, data, what follows it, and the end */
static const struct { const char *text; int n; } sizes[] = {
    { "4" CRLF, 4 }, { "04" CRLF, 4 }, { "4;x" CRLF, 4 }, { "4 ;x=\"y\"" CRLF, 4 }, { "2f" CRLF, 47 }, { "2F" CRLF, 47 }, { "000000000000002f" CRLF, -3 }, { "1" CRLF, 1 },
    { "" CRLF, -1 }, { "g" CRLF, -1 }, { "0x4" CRLF, -1 }, { "-4" CRLF, -1 }, { "+4" CRLF, -1 }, { " 4" CRLF, -1 }, { "4\rX", -1 }, { "4g" CRLF, -1 }, { "4,5" CRLF, -1 },
    { "80000000" CRLF, -2 }, { "ffffffff" CRLF, -2 }, { "100000004" CRLF, -2 }, { "7fffffff" CRLF, -2 }, { "10000000000000004" CRLF, -2 }, { "4\n", -4 }, { "0" CRLF, -5 },
};
static const struct { const char *text; int ok; } after[] = { { CRLF, 1 }, { "XX", 0 }, { "\n", 0 }, { "\r\r", 0 }, { "X" CRLF, 0 }, { CRLF CRLF, 0 } };
static const struct { const char *text; int ok; } ends[] = {
    { "0" CRLF CRLF, 1 }, { "00" CRLF CRLF, 1 }, { "0;ext=1" CRLF CRLF, 1 }, { "0" CRLF "T: v" CRLF CRLF, 1 }, { "0" CRLF "T: v" CRLF "U: w" CRLF CRLF, 1 },
    { "0" CRLF "Content-Length: 30" CRLF CRLF, 2 }, { "0" CRLF "Transfer-Encoding: chunked" CRLF CRLF, 2 }, { "0" CRLF SMUGGLED, 2 }, { "0" CRLF "Content-Length: 4" CRLF "Content-Length: 4" CRLF CRLF, 2 },
    { "0" CRLF "T: v" CRLF " fold" CRLF CRLF, 2 }, { "0" CRLF "X\rY" CRLF CRLF, 0 }, { "0\r" SMUGGLED, 0 },
};
static void h02_chunks(void) {
    static bytes in, want; int i, k = mc_bound, valid = 1, may = 0, more = 0, e, open, cut = 0; const answer *first; char q[200]; size_t at;
    in.n = want.n = 0;
    puts_(&in, "POST /hello.txt HTTP/1.1" CRLF KA "Transfer-Encoding: chunked" CRLF CRLF);
    for(i = 0; i < k; i++) {
        int z = mc_choose(COUNT(sizes)), f; int n = sizes[z].n;
        puts_(&in, sizes[z].text);
        if(n == -1) { valid = 0; puts_(&in, "abcd" CRLF); continue; }
        if(n == -2) { if(valid && !more) { more = 1; } puts_(&in, "abcd" CRLF); continue; }
        if(n == -3) { may = 1; n = 47; }
        if(n == -4) { may = 2; n = 4; }
        if(n == -5) { cut = 1; puts_(&in, CRLF); break; }   /* the last chunk comes early */
        f = n == 4 ? mc_choose(COUNT(after)) : 0;
        puts_(&in, n == 4 ? "GET " : n == 47 ? SMUGGLED : "\r"); puts_(&in, after[f].text);
        if(!after[f].ok) { if(!more) valid = 0; }
    }
    at = in.n;
    if(!cut) { e = mc_choose(COUNT(ends)); puts_(&in, ends[e].text); if(ends[e].ok == 0) valid = 0; if(ends[e].ok == 2) may = 1; }
    puts_(&in, MARKER);
    if(may == 2) valid = 0;     /* a bare line feed: rejected (what follows would be ambiguous) */
    (void) at;
    if(more) { judge(&in, 1, 1, &want, 1, "chunk"); return; }
    open = 0;
    if(valid) {
        strcpy(q, "POST /hello.txt HTTP/1.1" CRLF KA "Content-Length: 0" CRLF CRLF);
        first = solo(BASE, q, strlen(q)); put(&want, first->data, first->len);
        open = rest(in.p + in.n - strlen(MARKER), in.p + in.n, &want);
    }
    judge(&in, valid, may, &want, open, "chunk");
}
/* bodies of every size around the limits of the buffers, full of requests */
static int give; static int give_some(vsock *s, size_t len) { (void) len; if(give < 0) return s->recvs % 2 == 0 ? -1 : -give; return give ? give : (int) len; }
static const long limits[] = { 1, 47, 1000, 4096, 8192, 16384, 32768, 65536, 262144, 786432, 1048576, 2097152, 3145728 };
static void h02_sizes(void) {
    static const int gives[] = { 0, 4096, 1000, 16384, 16383, -16384, -5000 };
    static bytes in, want; int l = mc_choose(mc_bound), framing = mc_choose(4), pieces = mc_choose(3), i, open; long n, at, x; char t[80]; const answer *first; actor *a; vsock *s; static const char again[] = SMUGGLED;
    n = limits[l] - 2 + mc_choose(5); give = gives[mc_choose(l >= 9 && !mc_thorough ? 2 : COUNT(gives))];
    if(n < 0) n = 0;
    in.n = want.n = 0;
    puts_(&in, "POST /hello.txt HTTP/1.1" CRLF KA);
    if(framing == 0) { sprintf(t, "Content-Length: %ld" CRLF CRLF, n); puts_(&in, t); } else puts_(&in, "Transfer-Encoding: chunked" CRLF CRLF);
    x = framing == 0 || framing == 1 ? n : framing == 2 ? 4096 : 70000;
    for(at = 0; at < n; at += x) {
        long k = n - at < x ? n - at : x;
        if(framing) { sprintf(t, "%lx" CRLF, k); puts_(&in, t); }
        for(i = 0; i < k; i += 47) put(&in, again, k - i < 47 ? k - i : 47);
        if(framing) puts_(&in, CRLF);
    }
    if(framing) puts_(&in, "0" CRLF CRLF);
    puts_(&in, MARKER);
    strcpy(t, "POST /hello.txt HTTP/1.1" CRLF KA "Content-Length: 0" CRLF CRLF);
    first = solo(BASE, t, strlen(t)); put(&want, first->data, first->len);
    open = rest(in.p + in.n - strlen(MARKER), in.p + in.n, &want);
    fresh_run(BASE); sim_recv_hook = give_some;
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0);
    if(pieces == 0) sim_add(a, 's', in.p, in.n, 0);
    else for(i = 0; i < 20 * pieces; i++) { size_t b = in.n * i / (20 * pieces), e = in.n * (i + 1) / (20 * pieces); if(e > b) sim_add(a, 's', in.p + b, e - b, 0); }
    sim_run(); s = done(0);
    same("the answers to a long body and the request after it", s->out ? s->out : "", s->outlen, want.p, want.n);
    mc_check(was_open(0) == open, "the connection is left %s", was_open(0) ? "open" : "closed");
    mc_outcome(mc_hash(&n, sizeof n, framing));
}
/* many requests in one delivery */
static void h02_deep(void) {
    static const int counts[] = { 2, 10, 60, 61, 100, 300, 2000, 16000, 24000 }; static bytes in, want; int c = counts[mc_choose(mc_bound)], what = mc_choose(4), i, pieces = mc_choose(3); actor *a; vsock *s; const answer *w;
    static const char *qs[] = { "GET /empty.txt HTTP/1.1" CRLF KA CRLF, "POST /one.bin HTTP/1.1" CRLF KA "Content-Length: 47" CRLF CRLF SMUGGLED, "GET /missing HTTP/1.1" CRLF KA CRLF, "POST /empty.txt HTTP/1.1" CRLF KA "Transfer-Encoding: chunked" CRLF CRLF "3" CRLF "abc" CRLF "0" CRLF CRLF };
    const char *q = qs[what]; give = pieces == 1 ? 4096 : pieces == 2 ? 1000 : 0;
    in.n = want.n = 0; w = solo(BASE, q, strlen(q));
    for(i = 0; i < c; i++) { puts_(&in, q); put(&want, w->data, w->len); }
    fresh_run(BASE); sim_recv_hook = give_some;
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', in.p, in.n, 0);
    sim_run(); s = done(0);
    same("the answers to many requests sent at once", s->out ? s->out : "", s->outlen, want.p, want.n);
    mc_check(was_open(0), "the connection is closed after %d requests", c);
    mc_outcome(mc_hash(&c, sizeof c, what));
}

static const mc_scenario list[] = {
    { "H02.sizes", h02_sizes, 11, 13, 0, 0, 3, 0, "bodies full of requests, sizes around 13 limits, 4 framings, 3 deliveries, 7 reading patterns" },
    { "H02.deep", h02_deep, 8, 9, 0, 0, 2, 0, "up to 24000 requests in one delivery" },
    { "H02.headers", h02_headers, 2, 3, 0, 0, 3, 0, "every sequence of framing header lines out of 67, over 8 bodies and a following request" },
    { "H02.chunks", h02_chunks, 2, 3, 0, 0, 3, 0, "every sequence of chunks out of 24 size lines and 6 terminators, 12 endings" },
};
MC_MAIN(list)
