/* proxy.c - the reverse proxy: X01 fidelity, X02 failing backends and clients,
 * X03 isolation and reuse of backend connections, X04 bounded buffering */
#include "srv.h"
#include <errno.h>

#define PROXY BASE \
    "[location:api]\npath=^/api\nhandler=proxy\nproxy_pass=http://backend:8080/\n" \
    "[location:two]\npath=^/two\nhandler=proxy\nproxy_pass=http://backend-b:8081/\n" \
    "[location:dead]\npath=^/dead\nhandler=proxy\nproxy_pass=http://backend:8082/\n" \
    "[location:gone]\npath=^/gone\nhandler=proxy\nproxy_pass=http://nowhere:8080/\n" \
    "[location:none]\npath=^/none\nhandler=proxy\n" \
    "[location:bad]\npath=^/bad\nhandler=proxy\nproxy_pass=http://\n"

/* --- the reference: a message as its meaning -------------------------- */
typedef struct msg {
    int status, interim;            /* of a response */
    char first[9000];               /* "METHOD target HTTP/x.y" or "HTTP/x.y status" */
    bytes head, body;               /* name: value per line, folding removed */
    int framing;                    /* 0 no body, 1 length, 2 chunked, 3 until the end */
    int keep, close, proxied;
    size_t total;
} msg;
static int is_ws(char c) { return c == ' ' || c == '\t'; }
static int eq(const char *a, size_t n, const char *b) { return strlen(b) == n && strncasecmp(a, b, n) == 0; }
/* 1 complete, 0 incomplete, -1 malformed */
static int ref_parse(const char *d, size_t n, int response, int headreq, int eof, msg *m) {
    const char *p = d, *end = d + n, *q, *c; long length = -1; int chunked = 0, line = 0;
    m->head.n = m->body.n = 0; m->framing = m->keep = m->close = m->proxied = m->status = m->interim = 0; m->total = 0; m->first[0] = 0;
    while(1) {
        const char *name, *v; size_t nn, vn;
        q = p < end ? memchr(p, '\n', end - p) : NULL;
        if(q == NULL) return 0;
        c = q > p && q[-1] == '\r' ? q - 1 : q;
        if(line == 0) {
            size_t l = c - p; if(l >= sizeof m->first) return -1;
            memcpy(m->first, p, l); m->first[l] = 0;
            if(response) {
                if(l < 12 || strncmp(p, "HTTP/1.", 7) != 0 || (p[7] != '0' && p[7] != '1') || p[8] != ' ') return -1;
                if(!(p[9] >= '1' && p[9] <= '5') || strspn(p + 9, "0123456789") != 3 || (l > 12 && p[12] != ' ')) return -1;
                m->status = atoi(p + 9); m->first[12] = 0; m->interim = m->status < 200 && m->status != 101;
            } else {
                char *x = strrchr(m->first, ' ');
                if(x == NULL || strncmp(x, " HTTP/1.", 8) != 0) return -1;
            }
            line = 1; p = q + 1; continue;
        }
        if(c == p) { p = q + 1; break; }
        if(is_ws(*p)) {             /* a folded line continues the value before it */
            if(m->head.n == 0) return -1;
            while(p < c && is_ws(*p)) p++;
            while(c > p && is_ws(c[-1])) c--;
            m->head.n--; put(&m->head, " ", 1); put(&m->head, p, c - p); put(&m->head, "\n", 1);
            p = q + 1; continue;
        }
        v = memchr(p, ':', c - p); name = p; nn = v ? v - p : c - p;
        v = v ? v + 1 : c; while(v < c && is_ws(*v)) v++;
        while(c > v && is_ws(c[-1])) c--;
        vn = c - v;
        if(eq(name, nn, "x-viriatum-proxy")) m->proxied++;
        else { put(&m->head, name, nn); put(&m->head, ": ", 2); put(&m->head, v, vn); put(&m->head, "\n", 1); }
        if(eq(name, nn, "content-length")) length = strtol(v, NULL, 10);
        if(eq(name, nn, "transfer-encoding") && eq(v, vn, "chunked")) chunked = 1;
        if(eq(name, nn, "connection")) { if(eq(v, vn, "keep-alive")) m->keep = 1; else if(eq(v, vn, "close")) m->close = 1; }
        p = q + 1;
    }
    if(response && (headreq || m->status / 100 == 1 || m->status == 204 || m->status == 304)) m->framing = 0;
    else if(chunked) m->framing = 2;
    else if(length >= 0) m->framing = 1;
    else m->framing = response ? 3 : 0;
    if(m->framing == 1) {
        if((size_t) (end - p) < (size_t) length) { put(&m->body, p, end - p); return 0; }
        put(&m->body, p, length); p += length;
    } else if(m->framing == 3) {
        if(eof != 1) { put(&m->body, p, end - p); return 0; }
        put(&m->body, p, end - p); p = end;
    } else if(m->framing == 2) {
        while(1) {
            char *e; unsigned long size;
            if(p >= end || !(q = memchr(p, '\n', end - p))) return 0;
            size = strtoul(p, &e, 16); if(e == p) return -1;
            p = q + 1;
            if(size == 0) {         /* trailers, then an empty line */
                while(1) {
                    if(p >= end || !(q = memchr(p, '\n', end - p))) return 0;
                    c = q > p && q[-1] == '\r' ? q - 1 : q;
                    if(c == p) { p = q + 1; break; }
                    p = q + 1;
                }
                break;
            }
            if((size_t) (end - p) < size) { put(&m->body, p, end - p); return 0; }
            put(&m->body, p, size); p += size;
            if(p < end && *p == '\r') p++;
            if(p >= end) return 0;
            if(*p != '\n') return -1;
            p++;
        }
    }
    m->total = p - d;
    return 1;
}

/* --- the exchanges ---------------------------------------------------- */
static int heads[64], nheads;       /* per request on the connection of a client: HEAD? */
static msg scratch;
/* the complete messages received by a peer (interim responses are not counted) */
static int messages(vsock *k) {
    size_t at = 0; int n = 0;
    while(at < k->outlen) {
        if(ref_parse(k->out + at, k->outlen - at, !k->backend, !k->backend && n < nheads ? heads[n] : 0, k->open ? 0 : 1, &scratch) != 1) break;
        at += scratch.total; if(!scratch.interim) n++;
    }
    return n;
}
static int accept_backend(vsock *s, int port) { return port == 8082 ? -1 : 0; }
static void proxy_run(void) {
    fresh_run(PROXY); sim_connect_hook = accept_backend; sim_request_hook = messages; nheads = 0; memset(heads, 0, sizeof heads);
}
static vsock *backend(int n) {
    int i;
    for(i = 0; i < SIM_MAX; i++) if(sim_s[i].backend && sim_s[i].order == n) return &sim_s[i];
    return NULL;
}
/* the request that has to reach the backend for the request of a client: the
 * part of the path after the pattern of the location, with its query */
static void expect_request(const char *req, size_t n, size_t prefix, bytes *out) {
    const char *sp = memchr(req, ' ', n);
    while(*sp == ' ') sp++;
    out->n = 0; put(out, req, memchr(req, ' ', n) - (void *) req); puts_(out, " ");
    sp += prefix;
    if(*sp != '/') puts_(out, "/");
    put(out, sp, req + n - sp);
}
static void same_message(const char *what, const char *got, size_t gn, const char *want, size_t wn, int response, int headreq, int eof) {
    static msg a, b; int k; char h[400];
    mc_check(ref_parse(want, wn, response, headreq, eof, &b) == 1 && b.total == wn, "internal: the expected message is not complete");
    k = ref_parse(got, gn, response, headreq, eof, &a);
    mc_hex(h, sizeof h, got, gn);
    mc_check(k == 1, "%s is %s (%zu bytes): %s", what, k == 0 ? "incomplete" : "malformed", gn, h);
    mc_check(a.total == gn, "%s is followed by %zu other bytes: %s", what, gn - a.total, h);
    mc_check(strcmp(a.first, b.first) == 0, "%s starts with \"%s\", expected \"%s\"", what, a.first, b.first);
    { char w[100]; snprintf(w, sizeof w, "the headers of %s", what); same(w, a.head.p ? a.head.p : "", a.head.n, b.head.p ? b.head.p : "", b.head.n); }
    mc_check(a.framing == b.framing, "%s delimits its body in another way (%d, expected %d)", what, a.framing, b.framing);
    { char w[100]; snprintf(w, sizeof w, "the body of %s", what); same(w, a.body.p ? a.body.p : "", a.body.n, b.body.p ? b.body.p : "", b.body.n); }
    mc_check(a.proxied == 1, "%s names the proxy %d times", what, a.proxied);
    mc_outcome(mc_hash(a.head.p, a.head.n, mc_hash(a.body.p, a.body.n, a.framing)));
}
static void cut_add(actor *a, const char *d, size_t n, const size_t *cuts, int k) {
    size_t at = 0; int i;
    for(i = 0; i <= k; i++) {
        size_t to = i < k ? cuts[i] : n;
        if(to > n) to = n;
        if(to > at) { sim_add(a, 's', d + at, to - at, 0); at = to; }
    }
}
static int is_head(const char *req) { return strncmp(req, "HEAD ", 5) == 0; }
#define OK200 "HTTP/1.1 200 OK" CRLF KA "Content-Length: 5" CRLF CRLF "hello"
static const char ok200[] = OK200;
/* one request of one client answered by the backend, delivered in pieces */
static void exchange(const char *req, size_t rn, const size_t *rc, int rk, const char *resp, size_t pn, const size_t *pc, int pk, int eof, size_t prefix) {
    static bytes want; actor *c, *b; vsock *s, *k; static msg m; size_t at = 0; int open;
    proxy_run(); heads[0] = is_head(req); nheads = 1;
    if(heads[0] && resp == ok200) pn -= 5;
    c = sim_actor(); sim_add(c, 'c', 0, 0, 0); cut_add(c, req, rn, rc, rk);
    b = sim_actor(); sim_add(b, 'b', 0, 0, 0); sim_add(b, 'q', 0, 0, 1); cut_add(b, resp, pn, pc, pk);
    if(eof) sim_add(b, eof == 1 ? 'e' : 'r', 0, 0, 0);
    sim_run();
    s = done(0); k = backend(0);
    mc_check(k != NULL, "no connection was made to the backend");
    mc_check(sim_nbackends == 1, "%d connections were made to the backend for one request", sim_nbackends);
    expect_request(req, rn, prefix, &want);
    same_message("the request at the backend", k->out ? k->out : "", k->outlen, want.p, want.n, 0, 0, 0);
    /* interim responses come first */
    open = was_open(0);
    while(1) {
        int i = ref_parse(resp + at, pn - at, 1, heads[0], eof, &m);
        mc_check(i == 1, "internal: the response is not complete");
        if(!m.interim) break;
        {   static msg g; int r; size_t w = m.total;
            r = ref_parse(s->out, s->outlen, 1, heads[0], 0, &g);
            mc_check(r == 1 && g.status == m.status, "the interim response is not relayed");
            same_message("the interim response", s->out, g.total, resp + at, w, 1, 0, 0);
            at += w; memmove(s->out, s->out + g.total, s->outlen - g.total); s->outlen -= g.total;
        }
    }
    same_message("the response at the client", s->out ? s->out : "", s->outlen, resp + at, pn - at, 1, heads[0], open ? 0 : 1);
    if(m.framing == 3 || m.close) mc_check(!open, "the connection of the client is left open");
    else if(m.keep) mc_check(open, "the connection of the client is closed");
}

static const char *methods[] = { "GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS", "PROPFIND" };
static const struct { const char *t; int prefix; } targets[] = {
    { "/api/x", 4 }, { "/api", 4 }, { "/api/", 4 }, { "/api?q=1", 4 }, { "/api/a/b.c?x=%20y&z=1/2?3", 4 }, { "/apix", 4 },
    { "/api/a%20b", 4 }, { "/api/a%2Bz", 4 }, { "/two/api/x", 4 }, { "/two?u=http://a/b", 4 },
};
static const char *headers[] = {
    "", KA, "Host: a.b" CRLF KA, "Connection: close" CRLF "Accept: */*" CRLF, "X: a" CRLF "X: b" CRLF "Y:" CRLF KA,
    "A:b" CRLF "C:   d  e" CRLF KA, "F: one" CRLF " two" CRLF "\tthree" CRLF KA, "Cookie: a=b; c=\"d e\"" CRLF "X-Viriatum: 1" CRLF,
    "If-Modified-Since: Sun, 06 Nov 1994 08:49:37 GMT" CRLF "Range: bytes=0-1" CRLF KA, "Via: 1.1 a:80" CRLF "Referer: http://h:1/p?q" CRLF KA,
};
static const char *bodies[] = {
    CRLF, "Content-Length: 0" CRLF CRLF, "Content-Length: 7" CRLF CRLF "a\r\n\r\nb\0"+0, "Transfer-Encoding: chunked" CRLF CRLF "0" CRLF CRLF,
    "Transfer-Encoding: chunked" CRLF CRLF "3" CRLF "abc" CRLF "00a;e=1" CRLF "0123456789" CRLF "0" CRLF CRLF,
    "Transfer-Encoding: chunked" CRLF CRLF "1" CRLF "x" CRLF "0" CRLF "T: v" CRLF CRLF,
};
static void request_forms(int cuts) {
    static bytes r; int t, v, b; size_t c[2];
    const char *m = methods[mc_choose(COUNT(methods))];
    t = mc_choose(COUNT(targets)); v = mc_choose(2);
    r.n = 0; puts_(&r, m); puts_(&r, " "); puts_(&r, targets[t].t); puts_(&r, v ? " HTTP/1.0" CRLF : " HTTP/1.1" CRLF);
    puts_(&r, headers[mc_choose(COUNT(headers))]);
    b = mc_choose(COUNT(bodies));
    puts_(&r, bodies[b]); if(b == 2) put(&r, "\0", 1);
    if(cuts) c[0] = 1 + mc_choose((int) r.n - 1);
    exchange(r.p, r.n, c, cuts, ok200, strlen(ok200), NULL, 0, 0, targets[t].prefix);
}
static void x01_request(void) { request_forms(0); }
/* every cut of requests that use every feature */
static const struct { const char *r; int prefix; } reqs[] = {
    { "GET /api/a?b=c HTTP/1.1" CRLF "Host: h" CRLF KA CRLF, 4 },
    { "POST /api/p HTTP/1.1" CRLF KA "Content-Length: 9" CRLF CRLF "a=1&b=\r\n\n", 4 },
    { "PUT /two/p HTTP/1.1" CRLF KA "Transfer-Encoding: chunked" CRLF CRLF "3" CRLF "abc" CRLF "a;e=1" CRLF "0123456789" CRLF "0" CRLF "T: v" CRLF CRLF, 4 },
    { "HEAD /api HTTP/1.0" CRLF "F: one" CRLF " two" CRLF "G:h" CRLF "E:" CRLF CRLF, 4 },
    { "GET http://h.x/api/z HTTP/1.1" CRLF "Host: h" CRLF KA CRLF, 14 },
    { "\r\nGET /api/a HTTP/1.1\nHost: h\nConnection: keep-alive\n\n", 0 },
};
#define NREQS (COUNT(reqs) - 2)
static int even_cuts(size_t n, size_t piece, size_t *c, int max);
/* every method and what looks like one */
static void x01_methods(void) {
    static const char *all[] = { "DELETE", "GET", "HEAD", "POST", "PUT", "CONNECT", "OPTIONS", "TRACE", "COPY", "LOCK", "MKCOL", "MOVE", "PROPFIND", "PROPPATCH", "UNLOCK", "REPORT", "MKACTIVITY", "CHECKOUT", "MERGE", "M-SEARCH", "NOTIFY", "SUBSCRIBE", "UNSUBSCRIBE", "PATCH" };
    static const char letters[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ-ag01_"; static bytes r; char m[40]; int i, k = mc_choose(COUNT(all)), n = strlen(all[k]), how = mc_choose(5), known = 0, body = 0; size_t c[60]; int cut = 0; actor *a; vsock *s;
    snprintf(m, sizeof m, "%s", all[k]);
    if(how == 0) { body = mc_choose(2); cut = mc_choose(2); }
    else if(how == 1) m[mc_choose(n)] = 0;                                             /* shorter */
    else if(how == 2) { m[n] = letters[mc_choose(sizeof letters - 1)]; m[n + 1] = 0; } /* longer */
    else if(how == 3) { i = mc_choose(n); m[i] = letters[mc_choose(sizeof letters - 1)]; } /* another letter */
    else { i = mc_choose(COUNT(all)); int at = 1 + mc_choose(n); snprintf(m + at, sizeof m - at, "%s", strlen(all[i]) > (size_t) at ? all[i] + at : ""); } /* the beginning of one and the rest of another */
    for(i = 0; i < COUNT(all); i++) known |= strcmp(m, all[i]) == 0;
    r.n = 0; puts_(&r, m); puts_(&r, " /api/x HTTP/1.1" CRLF "Host: a" CRLF KA); puts_(&r, body ? "Content-Length: 5" CRLF CRLF "GET /" : CRLF);
    if(known) { int j = cut ? even_cuts(r.n, 1, c, 55) : 0; exchange(r.p, r.n, c, j, ok200, strlen(ok200), NULL, 0, 0, 4); return; }
    proxy_run(); nheads = 0; a = sim_actor(); sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', r.p, r.n, 0); good_client();
    sim_run(); mc_step(); s = done(0); good_check(1);
    mc_check(sim_nbackends == 0, "a request of the method %s, which is none, is given to the backend", m);
    mc_check(!was_open(0) || s->outlen, "a request of the method %s, which is none, is waited for", m);
}
static void x01_request_cut(void) {
    int i = mc_choose(NREQS); size_t n = strlen(reqs[i].r), c[2]; int k = mc_bound;
    c[0] = 1 + mc_choose((int) n - k);
    if(k == 2) c[1] = c[0] + 1 + mc_choose((int) (n - 1 - c[0]));
    exchange(reqs[i].r, n, c, k, ok200, strlen(ok200), NULL, 0, 0, reqs[i].prefix);
}
static const struct { const char *r; int eof; int keep; } resps[] = {
    { OK200, 0, 1 },
    { "HTTP/1.1 200 OK" CRLF "Connection: close" CRLF "Content-Length: 5" CRLF CRLF "hello", 1 },
    { "HTTP/1.1 404 Not Found" CRLF KA "Content-Length: 0" CRLF "X: a" CRLF " b" CRLF "E:" CRLF CRLF, 0, 1 },
    { "HTTP/1.1 200 OK" CRLF "Content-Type: text/plain" CRLF CRLF "until\r\n\r\nthe end", 1 },
    { "HTTP/1.0 200 OK" CRLF CRLF, 1 },
    { "HTTP/1.1 200 OK" CRLF KA "Transfer-Encoding: chunked" CRLF CRLF "3" CRLF "abc" CRLF "a;e=1" CRLF "0123456789" CRLF "0" CRLF "T: v" CRLF CRLF, 0, 1 },
    { "HTTP/1.1 200 OK" CRLF KA "Transfer-Encoding: chunked" CRLF CRLF "0" CRLF CRLF, 0, 1 },
    { "HTTP/1.1 100 Continue" CRLF CRLF "HTTP/1.1 201 Created" CRLF KA "Location: http://x/y" CRLF "Content-Length: 2" CRLF CRLF "ok", 0, 1 },
    { "HTTP/1.1 204 No Content" CRLF KA CRLF, 0, 1 },
    { "HTTP/1.1 304 Not Modified" CRLF KA "Content-Length: 5" CRLF "ETag: \"x\"" CRLF CRLF, 0, 1 },
    { "HTTP/1.1 500" CRLF KA "Content-Length: 3" CRLF CRLF "err", 0, 1 },
    { "HTTP/1.1 299 Own Reason" CRLF KA "Set-Cookie: a=b" CRLF "Set-Cookie: c=d" CRLF "Content-Length: 1" CRLF CRLF "z", 0, 1 },
    { "HTTP/1.0 200 Long Reason Phrase" CRLF "Connection: Keep-Alive" CRLF "Content-Length: 4" CRLF CRLF "HTTP", 0, 1 },
    { "HTTP/1.1 200 OK" CRLF "Transfer-Encoding: chunked" CRLF CRLF "1" CRLF "a" CRLF "0" CRLF CRLF, 0, 0 },
    { "HTTP/1.1 102 Processing" CRLF "X: y" CRLF CRLF "HTTP/1.1 103 Early Hints" CRLF "Link: </s>" CRLF CRLF "HTTP/1.1 200 OK" CRLF KA "Content-Length: 3" CRLF CRLF "fin", 0, 1 },
};
static const char *get_req[] = { "GET /api/a HTTP/1.1" CRLF KA CRLF, "HEAD /api/a HTTP/1.1" CRLF KA CRLF, "POST /api/a HTTP/1.1" CRLF KA "Content-Length: 1" CRLF CRLF "x" };
/* answers a HEAD request with the headers of the response alone */
static void response_for(int i, int head, bytes *out) {
    const char *r = resps[i].r; out->n = 0;
    if(head) {
        const char *e = strstr(r, CRLF CRLF) + 4, *status = r + 9;
        for(; *status == '1'; e = strstr(e, CRLF CRLF) + 4) status = e + 9;
        put(out, r, e - r); return;
    }
    puts_(out, r);
}
static void x01_response(void) {
    int i = mc_choose(COUNT(resps)), q = mc_choose(COUNT(get_req)), e = mc_choose(2), k = mc_bound; static bytes r; size_t c[3];
    response_for(i, q == 1, &r);
    if(r.n < (size_t) k + 2) { mc_trivial(); return; }
    c[0] = 1 + mc_choose((int) r.n - k);
    if(k >= 2) c[1] = c[0] + 1 + mc_choose((int) (r.n - k + 1 - c[0]));
    exchange(get_req[q], strlen(get_req[q]), NULL, 0, r.p, r.n, c, k, e ? 1 : resps[i].eof && q != 1, 4);
}
static void x01_response_even(void) {
    int i = mc_choose(COUNT(resps)), q = mc_choose(COUNT(get_req)), e = mc_choose(2), step = 1 + mc_choose(mc_bound), k = 0; static bytes r; size_t c[60];
    response_for(i, q == 1, &r);
    while(k < 55 && (k + 1) * (size_t) step < r.n) { c[k] = (k + 1) * step; k++; }
    exchange(get_req[q], strlen(get_req[q]), NULL, 0, r.p, r.n, c, k, e ? 1 : resps[i].eof && q != 1, 4);
}

/* sizes around the buffers: bodies both ways, in every framing */
static const size_t sizes[] = { 1, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16383, 16384, 16385, 65536, 200000, 1048575, 1048576, 1100000, 3000000 };
static char pattern(size_t i) { return (char) ('a' + (i * 7 + i / 251) % 26); }
static void body(bytes *o, size_t n) { size_t i; char b[4096]; size_t k = 0; for(i = 0; i < n; i++) { b[k++] = pattern(i); if(k == sizeof b) { put(o, b, k); k = 0; } } put(o, b, k); }
static void framed(bytes *o, int framing, size_t n, size_t chunk) {
    char t[64];
    if(framing == 1) { snprintf(t, sizeof t, "Content-Length: %zu" CRLF CRLF, n); puts_(o, t); body(o, n); }
    else if(framing == 3) { puts_(o, CRLF); body(o, n); }
    else {
        static bytes b; size_t at = 0; b.n = 0; body(&b, n);
        puts_(o, "Transfer-Encoding: chunked" CRLF CRLF);
        while(at < n) { size_t k = n - at < chunk ? n - at : chunk; snprintf(t, sizeof t, "%zx" CRLF, k); puts_(o, t); put(o, b.p + at, k); puts_(o, CRLF); at += k; }
        puts_(o, "0" CRLF CRLF);
    }
}
static const size_t pieces[] = { 0, 1000, 4096, 16384, 70000 };
static int even_cuts(size_t n, size_t piece, size_t *c, int max) {
    int k = 0;
    while(piece && k < max && (k + 1) * piece < n) { c[k] = (k + 1) * piece; k++; }
    return k;
}
static void x01_request_size(void) {
    static bytes r; size_t n = sizes[mc_choose(mc_bound)], c[60]; int f = 1 + mc_choose(2), p = mc_choose(COUNT(pieces)), k;
    r.n = 0; puts_(&r, "POST /api/u HTTP/1.1" CRLF KA); framed(&r, f, n, f == 2 ? (mc_choose(2) ? 1000 : 20000) : 0);
    k = even_cuts(r.n, pieces[p], c, 55);
    exchange(r.p, r.n, c, k, OK200, strlen(OK200), NULL, 0, 0, 4);
}
static void x01_response_size(void) {
    static bytes r; size_t n = sizes[mc_choose(mc_bound)], c[60]; int f = 1 + mc_choose(3), p = mc_choose(COUNT(pieces)), k;
    r.n = 0; puts_(&r, f == 3 ? "HTTP/1.1 200 OK" CRLF : "HTTP/1.1 200 OK" CRLF KA); framed(&r, f, n, f == 2 ? (mc_choose(2) ? 1000 : 20000) : 0);
    k = even_cuts(r.n, pieces[p], c, 55);
    exchange(get_req[0], strlen(get_req[0]), NULL, 0, r.p, r.n, c, k, f == 3, 4);
}
/* lengths of header names, values, targets; numbers of headers */
static void x01_lengths(void) {
    static bytes q, r; static const size_t at[] = { 100, 1010, 2030, 4070 }; static const size_t cut1[1] = { 700 };
    int what = mc_choose(7), k = mc_choose(COUNT(at)), cut = mc_choose(2), i; size_t n = at[k] + mc_choose(mc_bound);
    q.n = r.n = 0;
    puts_(&q, "GET /api/"); if(what == 0) fill(&q, 'u', n < 3900 ? n : n - 400); if(what == 1) { puts_(&q, "?"); fill(&q, 'v', n < 3900 ? n : n - 400); }
    puts_(&q, " HTTP/1.1" CRLF KA); puts_(&r, "HTTP/1.1 200 OK" CRLF KA "Content-Length: 2" CRLF);
    if(what == 2) { puts_(&q, "X: "); fill(&q, 'w', n); puts_(&q, CRLF); }
    if(what == 3) { fill(&q, 'N', n); puts_(&q, ": 1" CRLF); }
    if(what == 4) { puts_(&r, "X: "); fill(&r, 'w', n); puts_(&r, CRLF); }
    if(what == 5) { fill(&r, 'N', n); puts_(&r, ": 1" CRLF); }
    if(what == 6) { for(i = 0; i < (int) n / 20; i++) { puts_(&q, "Na: value of it" CRLF); puts_(&r, "Nb: value of its" CRLF); } fill(&q, 'M', n % 20 + 1); puts_(&q, ": v" CRLF); }
    puts_(&q, CRLF); puts_(&r, CRLF "ok");
    exchange(q.p, q.n, cut1, cut, r.p, r.n, cut1, cut, 0, 4);
}
/* short writes: the first bytes taken on each side */
static int first_side, first_take, first_sends;
static int short_send(vsock *s, const char *buf, size_t len) {
    if(s->backend != first_side) return (int) len;
    if(first_sends++ % 2 == 0) return len < (size_t) first_take ? (int) len : first_take;
    return -1;
}
static void x01_short(void) {
    static bytes q, r; int i = mc_choose(COUNT(resps));
    q.n = 0; puts_(&q, "POST /api/u HTTP/1.1" CRLF KA "Content-Length: 20" CRLF CRLF "01234567890123456789");
    response_for(i, 0, &r);
    first_side = mc_choose(2); first_take = 1 + mc_choose(mc_bound);
    /* exchange resets the hooks, so they are set through the idle of the run */
    {   static bytes want; actor *c, *b; vsock *s, *k; static msg m;
        proxy_run(); nheads = 1; first_sends = 0; sim_send_hook = short_send;
        c = sim_actor(); sim_add(c, 'c', 0, 0, 0); sim_add(c, 's', q.p, q.n, 0);
        b = sim_actor(); sim_add(b, 'b', 0, 0, 0); sim_add(b, 'q', 0, 0, 1); sim_add(b, 's', r.p, r.n, 0);
        if(resps[i].eof) sim_add(b, 'e', 0, 0, 0);
        sim_run();
        s = done(0); k = backend(0);
        mc_check(k != NULL, "no connection was made to the backend");
        expect_request(q.p, q.n, 4, &want);
        same_message("the request at the backend", k->out, k->outlen, want.p, want.n, 0, 0, 0);
        {   size_t at = 0, from = 0; const char *next;
            while(r.p[from + 9] == '1') {
                ref_parse(s->out + at, s->outlen - at, 1, 0, 0, &m); mc_check(m.interim, "an interim response is missing");
                at += m.total; next = strstr(r.p + from, CRLF CRLF) + 4; from = next - r.p;
            }
            same_message("the response at the client", s->out + at, s->outlen - at, r.p + from, r.n - from, 1, 0, from ? 0 : was_open(0) ? 0 : 1); }
    }
}
/* the address of the backend, in every form of it */
static const struct { const char *address, *name; int port; } addresses[] = {
    { "http://backend:8080", "backend", 8080 }, { "http://backend", "backend", 80 }, { "http://backend/", "backend", 80 }, { "http://backend-b:8081?x=/", "backend-b", 8081 },
    { "http://backend:8082#x/y", "backend", 8082 }, { "http://backend?a:1", "backend", 80 }, { "http://backend.b#:9", "backend.b", 80 }, { "http://us:pw@backend:8080/", "backend", 8080 },
    { "http://us:pw@backend-c", "backend-c", 80 }, { "http://us:pw@backend:8083?q", "backend", 8083 }, { "http://us:p:w@backend:8084#q@z:5", "backend", 8084 }, { "http://backend:08080/", "backend", 8080 },
    { "http://backend:65535/a/b?c@d:3", "backend", 65535 }, { "http://backend:/x", "backend", 80 },
};
static int accept_any(vsock *s, int port) { (void) s; (void) port; return 0; }
static void x01_address(void) {
    static char ini[4096]; static bytes want; actor *c, *b; vsock *s, *k; int i = mc_choose(COUNT(addresses)), tail = mc_choose(2);
    static const char q[] = "GET /api/a?b HTTP/1.1" CRLF KA CRLF;
    snprintf(ini, sizeof ini, BASE "[location:api]\npath=^/api\nhandler=proxy\nproxy_pass=%s\n%s", addresses[i].address, tail ? "[location:two]\npath=^/two\nhandler=proxy\nproxy_pass=http://backend-z:9999/\n" : "");
    proxy_run(); sim_config(ini); sim_connect_hook = accept_any; nheads = 1;
    c = sim_actor(); sim_add(c, 'c', 0, 0, 0); sim_add(c, 's', q, sizeof q - 1, 0);
    b = sim_actor(); sim_add(b, 'b', 0, 0, 0); sim_add(b, 'q', 0, 0, 1); sim_add(b, 's', OK200, strlen(OK200), 0);
    sim_run();
    s = done(0); k = backend(0);
    mc_check(k != NULL && sim_nbackends == 1, "no connection was made for '%s' (looked up '%s')", addresses[i].address, sim_resolved);
    mc_check(!strcmp(sim_resolved, addresses[i].name), "'%s' was looked up for '%s'", sim_resolved, addresses[i].address);
    mc_check(k->port == addresses[i].port, "a connection to port %d was made for '%s'", k->port, addresses[i].address);
    expect_request(q, sizeof q - 1, 4, &want);
    same_message("the request at the backend", k->out, k->outlen, want.p, want.n, 0, 0, 0);
    same_message("the response at the client", s->out, s->outlen, OK200, strlen(OK200), 1, 0, was_open(0) ? 0 : 1);
}
/* sequences of exchanges on one connection of the client: nothing of one
 * leaks into the next */
static const struct { const char *r; int prefix, head; } seq_req[] = {
    { "GET /api/a HTTP/1.1" CRLF KA CRLF, 4, 0 }, { "POST /two/b HTTP/1.1" CRLF KA "Content-Length: 3" CRLF CRLF "xyz", 4, 0 },
    { "HEAD /api/c HTTP/1.1" CRLF KA CRLF, 4, 1 }, { "GET /hello.txt HTTP/1.1" CRLF KA CRLF, 0, 0 }, { "GET /dead HTTP/1.1" CRLF KA CRLF, 0, 0 },
    { "PUT /api/e HTTP/1.1" CRLF KA "Transfer-Encoding: chunked" CRLF CRLF "2" CRLF "zz" CRLF "0" CRLF CRLF, 4, 0 },
};
static const int seq_resp[] = { 0, 2, 5, 7, 8, 9 };
static int plan_req[8], plan_resp[8], plan_n, plan_close[8];
static bytes plan_bytes[8];
static int who(const char *first) { int i; for(i = 0; i < plan_n; i++) { const char *sp = strchr(seq_req[plan_req[i]].r, ' ') + 1 + seq_req[plan_req[i]].prefix; const char *g = strchr(first, ' ') + 1; size_t l = strcspn(sp, " "); if(strncmp(sp, g, l) == 0 && g[l] == ' ') return i; } return -1; }
static int nth_exchange;
static void seq_answer(vsock *k, int n) { sim_put(k, plan_bytes[n].p, plan_bytes[n].n); if(plan_close[n]) sim_peer_eof(k); }
static void x01_sequence(void) {
    actor *c; vsock *s; int i, nb = 0, at_b[8], cur = -1, cur_port = 0, port, with_close = mc_bound >= 10; size_t at = 0; static msg m; int left[8] = { 0 };
    static bytes want; plan_n = mc_bound % 10; (void) who; (void) nth_exchange;
    proxy_run(); nheads = plan_n; sim_data_hook = seq_answer;
    for(i = 0; i < plan_n; i++) {
        plan_req[i] = mc_choose(COUNT(seq_req)); heads[i] = seq_req[plan_req[i]].head; plan_close[i] = 0;
        if(plan_req[i] == 3 || plan_req[i] == 4) continue;
        plan_resp[i] = seq_resp[mc_choose(COUNT(seq_resp))]; response_for(plan_resp[i], heads[i], &plan_bytes[i]);
        if(with_close) plan_close[i] = mc_choose(2);
    }
    c = sim_actor(); sim_add(c, 'c', 0, 0, 0);
    /* which backend connection takes which exchange: one per run of exchanges
     * with the same location, while none is closed */
    for(i = 0; i < plan_n; i++) {
        const char *r = seq_req[plan_req[i]].r; actor *b;
        sim_add(c, 's', r, strlen(r), 0); sim_add(c, 'q', 0, 0, i + 1);
        at_b[i] = -1;
        if(plan_req[i] == 3) continue;
        if(plan_req[i] == 4) { cur = -1; continue; }
        port = plan_req[i] == 1 ? 8081 : 8080;
        if(cur < 0 || cur_port != port) { cur = nb++; cur_port = port; b = sim_actor(); sim_add(b, 'b', 0, 0, cur); left[cur] = 0; }
        else b = &sim_a[1 + cur];
        at_b[i] = cur; sim_add(b, 'q', 0, 0, ++left[cur]); sim_add(b, 'd', 0, 0, i);
        if(plan_close[i]) cur = -1;
    }
    sim_run();
    s = done(0);
    mc_check(sim_nbackends == nb, "%d connections were made to the backends, expected %d", sim_nbackends, nb);
    {   size_t off[8] = { 0 };
        for(i = 0; i < plan_n; i++) {
            vsock *k; int r; const char *q = seq_req[plan_req[i]].r;
            if(at_b[i] >= 0) {
                k = backend(at_b[i]);
                mc_check(k->port == (plan_req[i] == 1 ? 8081 : 8080), "request %d went to port %d", i, k->port);
                r = ref_parse(k->out + off[at_b[i]], k->outlen - off[at_b[i]], 0, 0, 0, &m);
                mc_check(r == 1, "request %d did not reach its backend", i);
                expect_request(q, strlen(q), 4, &want);
                { size_t t = m.total; same_message("the request at the backend", k->out + off[at_b[i]], t, want.p, want.n, 0, 0, 0); off[at_b[i]] += t; }
            }
            if(i == 0 || 1) {
                const char *e = plan_bytes[i].p; size_t en = plan_bytes[i].n;
                do {
                    r = ref_parse(s->out + at, s->outlen - at, 1, heads[i], 0, &m);
                    mc_check(r == 1, "response %d at the client is %s", i, r ? "malformed" : "incomplete");
                    if(m.interim) { static msg x; size_t t = m.total; ref_parse(e, en, 1, 0, 0, &x); same_message("the interim response", s->out + at, t, e, x.total, 1, 0, 0); e += x.total; en -= x.total; at += t; m.interim = 1; }
                } while(m.interim);
                { size_t t = m.total;
                if(plan_req[i] == 3) mc_check(m.status == 200 && m.body.n == 12 && memcmp(m.body.p, "hello world\n", 12) == 0, "the file is answered with status %d, %zu bytes", m.status, m.body.n);
                else if(plan_req[i] == 4) mc_check(m.status == 502, "the unreachable backend is answered with status %d", m.status);
                else same_message("the response at the client", s->out + at, t, e, en, 1, heads[i], 0);
                at += t; }
            }
        }
        for(i = 0; i < nb; i++) mc_check(backend(i)->outlen == off[i], "backend connection %d received %zu bytes more than its requests", i, backend(i)->outlen - off[i]);
    }
    mc_check(at == s->outlen, "the client received %zu bytes after its responses", s->outlen - at);
    mc_check(was_open(0), "the connection of the client is closed");
}

/* --- X02: failures ---------------------------------------------------- */
/* what the client received is either one complete 502, or a part of the
 * correct response, cut so that it can not be taken for a complete one */
static void failed_or_cut(int i, const char *full, size_t n, int sent_all, int end, int headreq) {
    vsock *s = done(i); static msg m, w; int r, k; size_t at = 0, wat = 0; char h[300];
    mc_hex(h, sizeof h, s->out ? s->out : "", s->outlen);
    while(1) {      /* interim responses may precede */
        r = ref_parse(s->out ? s->out + at : "", s->outlen - at, 1, headreq, 0, &m);
        if(r != 1 || !m.interim) break;
        k = ref_parse(full + wat, n - wat, 1, headreq, 0, &w);
        mc_check(k == 1 && w.interim && w.status == m.status, "an interim response the backend did not send: %s", h);
        at += m.total; wat += w.total;
    }
    if(r == 1 && m.status == 502) {
        mc_check(m.total == s->outlen - at, "%zu bytes after the 502: %s", s->outlen - at - m.total, h);
        mc_check(was_open(i), "the connection is closed after the 502, the request asked to keep it");
        k = ref_parse(full + wat, n - wat, 1, headreq, 0, &w);
        mc_check(!(k == 1 && !w.interim), "502 for a response that was complete: %s", h);
        return;
    }
    k = ref_parse(full + wat, n - wat, 1, headreq, end == 1, &w);
    if(k == 1 && !w.interim) {
        same_message("the response at the client", s->out + at, s->outlen - at, full + wat, w.total, 1, headreq, was_open(i) ? 0 : 1);
        return;
    }
    /* an incomplete response: cut, and nothing that was not sent */
    mc_check(!was_open(i), "the connection is left open after a response that was cut: %s", h);
    r = ref_parse(s->out ? s->out + at : "", s->outlen - at, 1, headreq, 0, &m);
    mc_check(r == 0 && m.first[0], "after a failing backend the client has %s: %s", r == 1 ? "a complete response" : s->outlen == at ? "nothing" : "something else", h);
    ref_parse(full + wat, n - wat, 1, headreq, 0, &w);
    mc_check(strcmp(m.first, w.first) == 0 && m.head.n <= w.head.n && memcmp(m.head.p ? m.head.p : "", w.head.p ? w.head.p : "", m.head.n) == 0, "the client has headers the backend did not send: %s", h);
    mc_check(m.body.n <= w.body.n && memcmp(m.body.p ? m.body.p : "", w.body.p ? w.body.p : "", m.body.n) == 0, "the client has contents the backend did not send: %s", h);
}
/* the backend sends the first bytes of its response and leaves */
static void x02_truncated(void) {
    static bytes r; int i = mc_choose(COUNT(resps)), q = mc_choose(COUNT(get_req)), end = 1 + mc_choose(2), again = mc_choose(mc_bound ? 2 : 1); actor *c, *b; size_t n, cut[1];
    response_for(i, q == 1, &r);
    n = mc_choose((int) r.n); cut[0] = n / 2;
    proxy_run(); heads[0] = heads[1] = q == 1; nheads = 2;
    c = sim_actor(); sim_add(c, 'c', 0, 0, 0); sim_add(c, 's', get_req[q], strlen(get_req[q]), 0);
    b = sim_actor(); sim_add(b, 'b', 0, 0, 0); sim_add(b, 'q', 0, 0, 1); cut_add(b, r.p, n, cut, again); sim_add(b, end == 1 ? 'e' : 'r', 0, 0, 0);
    good_client();
    sim_run();
    good_check(2);
    failed_or_cut(0, r.p, n, 0, end, q == 1);
    mc_check(sim_nbackends == 1, "%d connections to the backend", sim_nbackends);
}
/* and then the next request of the same client is served */
static void x02_after(void) {
    static bytes r; int i = mc_choose(COUNT(resps)), end = 1 + mc_choose(2); actor *c, *b; size_t n; static msg m; vsock *s; int k; size_t at = 0;
    response_for(i, 0, &r);
    n = mc_choose((int) r.n + 1);
    proxy_run(); nheads = 2;
    c = sim_actor(); sim_add(c, 'c', 0, 0, 0); sim_add(c, 's', get_req[0], strlen(get_req[0]), 0); sim_add(c, 'F', 0, 0, 1); sim_add(c, 'q', 0, 0, 1); sim_add(c, 's', get_req[2], strlen(get_req[2]), 0);
    b = sim_actor(); sim_add(b, 'b', 0, 0, 0); sim_add(b, 'q', 0, 0, 1); if(n) sim_add(b, 's', r.p, n, 0); sim_add(b, end == 1 ? 'e' : 'r', 0, 0, 0); sim_add(b, 'f', 0, 0, 1);
    b = sim_actor(); sim_add(b, 'b', 0, 0, 1); sim_add(b, 'q', 0, 0, 1); sim_add(b, 's', OK200, strlen(OK200), 0);
    sim_run();
    s = done(0);
    if(sim_nbackends == 1) {        /* the response was cut (or ended by the end): so was the client */
        mc_check(!was_open(0), "the second request was not sent to the backend");
        return;
    }
    do {
        k = ref_parse(s->out + at, s->outlen - at, 1, 0, 0, &m);
        mc_check(k == 1, "the first response at the client is not complete");
        at += m.total;
    } while(m.interim);
    same_message("the second response at the client", s->out + at, s->outlen - at, OK200, strlen(OK200), 1, 0, 0);
    mc_check(was_open(0), "the connection of the client is closed");
}
static const char *garbage[] = {
    "garbage" CRLF CRLF, "HTTP/1.1" CRLF CRLF, "HTTP/1.1 abc OK" CRLF CRLF, "HTTP/1.1 99999 OK" CRLF "Content-Length: 0" CRLF CRLF, "ICY 200 OK" CRLF CRLF,
    "HTTP/1.1 200 OK" CRLF "Content-Length: -1" CRLF CRLF "x", "HTTP/1.1 200 OK" CRLF "Content-Length: 99999999999999999999999" CRLF CRLF "x", "HTTP/1.1 200 OK" CRLF "Content-Length: 1x" CRLF CRLF "x",
    "HTTP/1.1 200 OK" CRLF "Transfer-Encoding: chunked" CRLF CRLF "zz" CRLF "x" CRLF "0" CRLF CRLF, "HTTP/1.1 200 OK" CRLF "Transfer-Encoding: chunked" CRLF CRLF "2" CRLF "abcd" CRLF "0" CRLF CRLF,
    "HTTP/1.1 200 OK" CRLF "Transfer-Encoding: chunked" CRLF CRLF "fffffffffffffffffffff" CRLF "abcd" CRLF "0" CRLF CRLF, "\r\n\r\n", "\0\0\0\0", "GET / HTTP/1.1" CRLF CRLF,
    "HTTP/1.1 700 Odd" CRLF "Content-Length: 1" CRLF CRLF "x", "HTTP/1.1 000 Odd" CRLF "Content-Length: 1" CRLF CRLF "x", "HTTP/1.1 64 Odd" CRLF "Content-Length: 1" CRLF CRLF "x",
    "HTTP/9.9 200 OK" CRLF "Content-Length: 1" CRLF CRLF "x", "HTTP/1.1 200 OK" CRLF " folded: first" CRLF CRLF, "HTTP/1.1 200 OK" CRLF "Bad Name: x" CRLF CRLF, "HTTP/1.1 164 Odd" CRLF CRLF, "HTTP/1.1 599 Odd" CRLF CRLF,
    "HTTP/1.1 200 OK" CRLF "no colon" CRLF CRLF, "HTTP/1.1 101 Switching Protocols" CRLF "Upgrade: x" CRLF "Connection: Upgrade" CRLF CRLF "raw",
};
/* a backend that does not speak the protocol: the client ends with an error or
 * a closed connection, and the server lives on */
static void x02_garbage(void) {
    static bytes r; int i = mc_choose(COUNT(garbage)), end = mc_choose(3), cutting = mc_choose(2); actor *c, *b; vsock *s; static msg m; size_t cut[2]; int k;
    r.n = 0; puts_(&r, garbage[i]); if(r.n == 0) put(&r, "\0\0\0\0\r\n\r\n", 8);
    cut[0] = cutting ? 1 + mc_choose((int) r.n - 1) : 0;
    proxy_run(); nheads = 1;
    c = sim_actor(); sim_add(c, 'c', 0, 0, 0); sim_add(c, 's', get_req[0], strlen(get_req[0]), 0);
    b = sim_actor(); sim_add(b, 'b', 0, 0, 0); sim_add(b, 'q', 0, 0, 1); cut_add(b, r.p, r.n, cut, cutting); if(end) sim_add(b, end == 1 ? 'e' : 'r', 0, 0, 0);
    good_client();
    sim_run();
    good_check(2);
    s = done(0); k = ref_parse(s->out ? s->out : "", s->outlen, 1, 0, was_open(0) ? 0 : 1, &m);
    mc_outcome(mc_hash_s(m.first, k));
    if(k == 1 && m.status == 502) mc_check(m.total == s->outlen, "bytes after the 502");
    else if(i >= 11 && i != 12) return;  /* odd, but parts of it may be relayed */
    else mc_check(k == 0 && (!was_open(0) || !end), "a backend sending \"%.30s\" was relayed as a complete response \"%s\"", garbage[i], m.first);
    if(end) mc_check(s->outlen > 0 || !was_open(0), "the client waits for ever");
}
/* no backend to speak of */
static void x02_unreachable(void) {
    static const char *where[] = { "/dead", "/dead/x?y", "/gone/x", "/none/x", "/bad/x" }; static bytes q; static msg m; actor *c; vsock *s; int k, w, n, keep, j; size_t at = 0;
    static const char *tail[] = { CRLF, "Content-Length: 3" CRLF CRLF "abc", "Transfer-Encoding: chunked" CRLF CRLF "1" CRLF "a" CRLF "0" CRLF CRLF };
    static const char *meth[] = { "GET ", "HEAD ", "POST " };
    proxy_run(); c = sim_actor(); sim_add(c, 'c', 0, 0, 0);
    n = 1 + mc_choose(mc_bound); keep = 1; q.n = 0;
    for(j = 0; j < n; j++) {
        w = mc_choose(COUNT(where)); k = mc_choose(COUNT(meth)); heads[j] = k == 1;
        puts_(&q, meth[k]); puts_(&q, where[w]); puts_(&q, " HTTP/1.1" CRLF);
        keep = mc_choose(2); if(keep) puts_(&q, KA);
        puts_(&q, tail[k < 2 ? 0 : mc_choose(COUNT(tail))]);
        if(!keep) { j++; break; }
    }
    n = j; nheads = n;
    sim_add(c, 's', q.p, q.n, 0); good_client();
    sim_run(); good_check(1);
    s = done(0);
    for(j = 0; j < n; j++) {
        k = ref_parse(s->out ? s->out + at : "", s->outlen - at, 1, heads[j], 0, &m);
        mc_check(k == 1 && m.status == 502, "response %d is %s, status %d", j, k == 1 ? "complete" : "not complete", m.status);
        mc_check((heads[j] || m.body.n > 0) && m.framing == (heads[j] ? 0 : 1), "response %d has %zu bytes", j, m.body.n);
        at += m.total;
    }
    mc_check(at == s->outlen, "%zu bytes after the responses", s->outlen - at);
    mc_check(was_open(0) == keep, "the connection is left %s", keep ? "closed" : "open");
    mc_check(sim_nbackends == 0, "a connection was made");
}
#ifndef MC_NO_EPOLL
/* the connection to the backend can not be watched: as if the backend was not there */
static int unregistered(int n) { return n == 2 ? ENOSPC : 0; }
static void x02_unwatched(void) {
    static bytes q; static msg m; actor *c; vsock *s; int k = mc_choose(3), keep = mc_choose(2), cut = mc_choose(mc_bound), next = keep && mc_choose(2), r; size_t at;
    static const char *meth[] = { "GET ", "HEAD ", "POST " }; static const char *tail[] = { CRLF, CRLF, "Content-Length: 3" CRLF CRLF "abc" };
    proxy_run(); sim_register_hook = unregistered; q.n = 0; heads[0] = k == 1; heads[1] = 0; nheads = 1 + next;
    puts_(&q, meth[k]); puts_(&q, "/api/x HTTP/1.1" CRLF); if(keep) puts_(&q, KA); puts_(&q, tail[k]);
    if(next) puts_(&q, "GET /hello.txt HTTP/1.1" CRLF CRLF);
    if((size_t) cut >= q.n) { mc_trivial(); cut = 0; }
    c = sim_actor(); sim_add(c, 'c', 0, 0, 0); if(cut) sim_add(c, 's', q.p, cut, 0); sim_add(c, 's', q.p + cut, q.n - cut, 0); good_client();
    sim_run(); good_check(1); s = done(0);
    r = ref_parse(s->out ? s->out : "", s->outlen, 1, heads[0], 0, &m);
    mc_check(r == 1 && m.status == 502, "the response is %s, status %d", r == 1 ? "complete" : "not complete", m.status);
    at = m.total;
    if(next) { r = ref_parse(s->out + at, s->outlen - at, 1, 0, 0, &m); mc_check(r == 1 && m.status == 200, "the next response is %s, status %d", r == 1 ? "complete" : "not complete", m.status); at += m.total; }
    mc_check(at == s->outlen, "%zu bytes after the responses", s->outlen - at);
    mc_check(was_open(0) == (keep && !next), "the connection is left %s", was_open(0) ? "open" : "closed");
    for(r = 0; r < SIM_MAX; r++) mc_check(!sim_s[r].backend || !sim_s[r].open, "the connection to the backend is left open");
    mc_outcome(mc_hash(&k, sizeof k, keep));
}
#endif
/* the client leaves at any point of the exchange; the other one is served */
static void x02_leaving(void) {
    static bytes r; int i = mc_choose(COUNT(resps)), when = mc_choose(4), end = mc_choose(2); actor *c, *b; vsock *k; size_t n;
    const char *q = get_req[2]; size_t qn = strlen(q);
    response_for(i, 0, &r);
    /* 0: during the request; 1: after n bytes of the response; 2: and the
     * response goes on; 3: and the backend leaves too */
    n = when == 0 ? 1 + mc_choose((int) qn) : mc_choose((int) r.n + 1);
    proxy_run(); nheads = 1;
    c = sim_actor(); sim_add(c, 'c', 0, 0, 0); sim_add(c, 's', q, when == 0 ? n : qn, 0);
    if(when) sim_add(c, 'F', 0, 0, 1);
    sim_add(c, end ? 'r' : 'e', 0, 0, 0); if(when) sim_add(c, 'f', 0, 0, 2);
    b = sim_actor(); sim_add(b, 'b', 0, 0, 0); sim_add(b, 'q', 0, 0, 1);
    if(n) sim_add(b, 's', r.p, n, 0);
    sim_add(b, 'f', 0, 0, 1);
    if(when > 1) { sim_add(b, 'F', 0, 0, 2); if(n < r.n) sim_add(b, 's', r.p + n, r.n - n, 0); }
    if(when > 2) sim_add(b, 'e', 0, 0, 0);
    good_client();
    sim_run();
    good_check(2);
    k = backend(0);
    mc_check(!was_open(0), "the connection of the client that left is still open");
    if(k) mc_check(!at_quiet[1].open, "the connection to the backend is left open without its client");
    mc_outcome(k ? k->outlen : 0);
}
/* the transport fails: the n-th send or receive of one side breaks, or is short */
static int fault_side, fault_n, fault_kind, fault_seen, fault_dir;
static int fault_send(vsock *s, const char *buf, size_t len) {
    if(fault_dir == 0 && s->backend == fault_side && (s->backend || s == sim_client(0)) && fault_seen++ == fault_n) return fault_kind == 0 ? -2 : fault_kind == 1 ? -1 : fault_kind == 2 ? 1 : (int) len / 2;
    return (int) len;
}
static int fault_recv(vsock *s, size_t len) {
    if(fault_dir == 1 && s->backend == fault_side && (s->backend || s == sim_client(0)) && fault_seen++ == fault_n) return fault_kind == 0 ? -2 : fault_kind == 1 ? -1 : 1;
    return (int) len;
}
static void x02_transport(void) {
    static bytes q, r; int f, g; actor *c, *b; vsock *s; size_t big;
    fault_dir = mc_choose(2); fault_side = mc_choose(2); fault_kind = mc_choose(fault_dir ? 3 : 4); fault_n = mc_choose(mc_bound); fault_seen = 0;
    f = 1 + mc_choose(2); g = 1 + mc_choose(3); big = mc_choose(2) ? 40000 : 3;
    q.n = r.n = 0; puts_(&q, "POST /api/x HTTP/1.1" CRLF KA); framed(&q, f, big, 15000);
    puts_(&r, g == 3 ? "HTTP/1.1 200 OK" CRLF : "HTTP/1.1 200 OK" CRLF KA); framed(&r, g, big, 15000);
    proxy_run(); nheads = 1; sim_send_hook = fault_send; sim_recv_hook = fault_recv;
    c = sim_actor(); sim_add(c, 'c', 0, 0, 0); sim_add(c, 's', q.p, q.n, 0);
    b = sim_actor(); sim_add(b, 'b', 0, 0, 0); sim_add(b, 'q', 0, 0, 1); sim_add(b, 's', r.p, r.n, 0); if(g == 3) sim_add(b, 'e', 0, 0, 0);
    good_client();
    sim_run(); good_check(2);
    s = done(0);
    if(fault_seen <= fault_n) mc_trivial();
    if(fault_kind > 0 || fault_seen <= fault_n) {   /* nothing is lost by waiting or by short transfers */
        static bytes want; expect_request(q.p, q.n, 4, &want);
        same_message("the request at the backend", backend(0)->out, backend(0)->outlen, want.p, want.n, 0, 0, 0);
        same_message("the response at the client", s->out, s->outlen, r.p, r.n, 1, 0, was_open(0) ? 0 : 1);
    }
    else if(fault_side == 1) failed_or_cut(0, r.p, backend(0) ? backend(0)->inpos : 0, 0, 0, 0);
}

/* --- X03: isolation --------------------------------------------------- */
/* every client asks for targets of its own; a backend answers with the target
 * it was asked for and the port it stands at */
static void echo_answer(vsock *k, int n) {
    size_t at = 0; int i = 0; static char o[600], t[300]; const char *g;
    while(i < n && ref_parse(k->out + at, k->outlen - at, 0, 0, 0, &scratch) == 1) { at += scratch.total; i++; }
    g = strchr(scratch.first, ' ') + 1;
    snprintf(t, sizeof t, "%d%.*s%.*s", k->port, (int) strcspn(g, " "), g, (int) scratch.body.n, scratch.body.p ? scratch.body.p : "");
    snprintf(o, sizeof o, "HTTP/1.1 200 OK" CRLF KA "Content-Length: %zu" CRLF CRLF "%s", strlen(t), t);
    sim_put(k, o, strlen(o));
}
static const char *iso_req[] = {
    "GET /api/a HTTP/1.1" CRLF KA CRLF, "GET /two/b HTTP/1.1" CRLF KA CRLF, "GET /hello.txt HTTP/1.1" CRLF KA CRLF,
    "POST /api/c HTTP/1.1" CRLF KA "Content-Length: 2" CRLF CRLF "xy",
};
static const char *iso_body[] = { "8080/a", "8081/b", "hello world\n", "8080/cxy" };
static void iso_check(int client, const int *plan, int n, int complete) {
    vsock *s = done(client); size_t at = 0; int i; static msg m;
    for(i = 0; i < n; i++) {
        int k = ref_parse(s->out ? s->out + at : "", s->outlen - at, 1, 0, 0, &m);
        if(k != 1 && !complete) { mc_check(k == 0, "client %d received a malformed response", client); return; }
        mc_check(k == 1, "client %d: response %d is %s", client, i, k ? "malformed" : "incomplete");
        if(!(m.status == 502 && !complete))
            mc_check(m.status == 200 && m.body.n == strlen(iso_body[plan[i]]) && memcmp(m.body.p, iso_body[plan[i]], m.body.n) == 0, "client %d: response %d has status %d and \"%.*s\", expected \"%s\"", client, i, m.status, (int) m.body.n, m.body.p ? m.body.p : "", iso_body[plan[i]]);
        at += m.total;
    }
    mc_outcome(mc_hash(s->out ? s->out : "", s->outlen, client));
    mc_check(at == s->outlen, "client %d received %zu bytes after its responses", client, s->outlen - at);
}
static void iso_backends(int n, int requests) {
    int i, j;
    for(i = 0; i < n; i++) { actor *b = sim_actor(); sim_add(b, 'b', 0, 0, i); for(j = 0; j < requests; j++) { sim_add(b, 'q', 0, 0, j + 1); sim_add(b, 'd', 0, 0, j + 1); } }
}
static void iso(int clients, int each, int nb) {
    int plan[3][4], i, j;
    proxy_run(); sim_mode = 1; sim_data_hook = echo_answer; nheads = 0;
    for(i = 0; i < clients; i++) for(j = 0; j < each; j++) plan[i][j] = mc_choose(COUNT(iso_req));
    for(i = 0; i < clients; i++) {
        actor *c = sim_actor(); sim_add(c, 'c', 0, 0, 0);
        for(j = 0; j < each; j++) { sim_add(c, 's', iso_req[plan[i][j]], strlen(iso_req[plan[i][j]]), 0); if(j + 1 < each) sim_add(c, 'q', 0, 0, j + 1); }
    }
    iso_backends(nb, each);
    sim_run();
    for(i = 0; i < clients; i++) { iso_check(i, plan[i], each, 1); mc_check(was_open(i), "the connection of client %d is closed", i); }
    /* one client and one location per backend connection */
    for(i = 0; i < sim_nbackends; i++) mc_check(!backend(i)->open || 1, "-");
}
static void x03_pair(void) { iso(2, 1, 2); }
static void x03_pairs(void) { iso(2, 2, 4); }
/* pipelined requests to several locations on one connection */
static void x03_pipelined(void) {
    int plan[4], j, n = mc_bound; actor *c; static bytes q; q.n = 0;
    proxy_run(); sim_data_hook = echo_answer;
    for(j = 0; j < n; j++) { plan[j] = mc_choose(COUNT(iso_req)); puts_(&q, iso_req[plan[j]]); }
    j = mc_choose((int) q.n); sim_mode = 0;
    c = sim_actor(); sim_add(c, 'c', 0, 0, 0); if(j) sim_add(c, 's', q.p, j, 0); sim_add(c, 's', q.p + j, q.n - j, 0);
    iso_backends(n, n);
    sim_run();
    iso_check(0, plan, n, 1); mc_check(was_open(0), "the connection of the client is closed");
}
/* one client leaves, the other one is served; every interleaving */
static void x03_leaving(void) {
    int plan[2][2], how = mc_choose(3); actor *c;
    proxy_run(); sim_mode = 1; sim_data_hook = echo_answer;
    plan[0][0] = mc_choose(COUNT(iso_req)); plan[1][0] = mc_choose(COUNT(iso_req));
    c = sim_actor(); sim_add(c, 'c', 0, 0, 0); sim_add(c, 's', iso_req[plan[0][0]], strlen(iso_req[plan[0][0]]), 0);
    if(how < 2) sim_add(c, how ? 'r' : 'e', 0, 0, 0);
    c = sim_actor(); sim_add(c, 'c', 0, 0, 0); sim_add(c, 's', iso_req[plan[1][0]], strlen(iso_req[plan[1][0]]), 0);
    iso_backends(2, 1);
    if(how == 2) { sim_add(&sim_a[2], 'e', 0, 0, 0); sim_add(&sim_a[3], 'e', 0, 0, 0); }
    sim_run();
    if(how == 2) { iso_check(0, plan[0], 1, 1); iso_check(1, plan[1], 1, 1); mc_check(was_open(0) && was_open(1), "a client lost its connection"); }
    else { if(sim_client(0)->accepted) iso_check(0, plan[0], 1, 0); iso_check(1, plan[1], 1, 1); mc_check(was_open(1), "the other client lost its connection"); }
}
/* a backend that says more than it was asked: the next response is not that */
static void x03_unsolicited(void) {
    static const char *extra[] = { "HTTP/1.1 200 OK" CRLF KA "Content-Length: 4" CRLF CRLF "evil", "HTTP/1.1 200", "x", "evil body", CRLF CRLF };
    static bytes r; int e = mc_choose(COUNT(extra)), first = mc_choose(3), how = mc_choose(3), cut = 1, same_piece; actor *c, *b; vsock *s; static msg m; size_t at, c1[1];
    const char *base = first == 0 ? OK200 : first == 1 ? "HTTP/1.1 204 No Content" CRLF KA CRLF : resps[5].r;
    r.n = 0; puts_(&r, base); puts_(&r, extra[e]);
    same_piece = how < 2;
    if(how == 1) cut = 1 + mc_choose((int) r.n - 1);
    c1[0] = cut;
    proxy_run(); nheads = 2;
    c = sim_actor(); sim_add(c, 'c', 0, 0, 0); sim_add(c, 's', get_req[0], strlen(get_req[0]), 0);
    b = sim_actor(); sim_add(b, 'b', 0, 0, 0);
    if(how == 2) { sim_add(b, 's', extra[e], strlen(extra[e]), 0); }  /* before anything was asked */
    else { sim_add(b, 'q', 0, 0, 1); cut_add(b, r.p, r.n, c1, how); }
    sim_add(b, 'f', 0, 0, 1); sim_add(c, 'F', 0, 0, 1); sim_add(c, 'q', 0, 0, 1); sim_add(c, 's', get_req[2], strlen(get_req[2]), 0);
    b = sim_actor(); sim_add(b, 'b', 0, 0, 1); sim_add(b, 'q', 0, 0, 1); sim_add(b, 's', OK200, strlen(OK200), 0);
    sim_run(); (void) same_piece;
    s = done(0);
    if(how == 2) { mc_trivial(); return; }
    mc_check(ref_parse(s->out ? s->out : "", s->outlen, 1, 0, 0, &m) == 1, "the first response is not complete");
    at = m.total;
    same_message("the first response", s->out, at, base, strlen(base), 1, 0, 0);
    same_message("the second response", s->out + at, s->outlen - at, OK200, strlen(OK200), 1, 0, 0);
}

/* --- X04: bounded buffering -------------------------------------------- */
static size_t held_max, room; static int slow_take;
static int slow_send(vsock *s, const char *buf, size_t len) {
    vsock *k = backend(0); size_t held;
    if(s->backend) return (int) len;
    held = k ? k->inpos - (s->outlen < k->inpos ? s->outlen : k->inpos) : 0;
    if(held > held_max) held_max = held;
    if(room == 0) { room = slow_take; return -1; }
    if(len > room) len = room;
    room -= len;
    return (int) len;
}
static void x04_slow(void) {
    static bytes r; static const int take[] = { 100000, 1000000, 3000000, 400000 }; static const size_t size[] = { 900000, 2000000, 8000000, 16000000 };
    static const size_t piece[] = { 0, 300000, 1048576 };
    int f = 1 + mc_choose(3), t = mc_choose(mc_bound), z = mc_choose(COUNT(size)), p = mc_choose(COUNT(piece)), k; size_t c[60], before, after; actor *cl, *b; vsock *s;
    r.n = 0; puts_(&r, f == 3 ? "HTTP/1.1 200 OK" CRLF : "HTTP/1.1 200 OK" CRLF KA); framed(&r, f, size[z], 50000);
    k = even_cuts(r.n, piece[p], c, 55);
    proxy_run(); nheads = 1; held_max = 0; room = 0; slow_take = take[t]; sim_send_hook = slow_send;
    cl = sim_actor(); sim_add(cl, 'c', 0, 0, 0); sim_add(cl, 's', get_req[0], strlen(get_req[0]), 0);
    b = sim_actor(); sim_add(b, 'b', 0, 0, 0); sim_add(b, 'q', 0, 0, 1); cut_add(b, r.p, r.n, c, k); if(f == 3) sim_add(b, 'e', 0, 0, 0);
    (void) before; (void) after;
    sim_run();
    s = done(0);
    same_message("the response at the client", s->out, s->outlen, r.p, r.n, 1, 0, was_open(0) ? 0 : 1);
    mc_check(held_max < 4u << 20, "%zu bytes of the response were held for a slow client", held_max);
}

/* and it leaves, or the backend does, while the transfer is paused */
static int slow_calls, slow_leave;
static int slow_send_leave(vsock *s, const char *buf, size_t len) {
    if(!s->backend && ++slow_calls == slow_leave) sim_flag = 1;
    return slow_send(s, buf, len);
}
static void x04_leave(void) {
    static bytes r; int f = 1 + mc_choose(3), who = mc_choose(4), k; actor *cl, *b; size_t c[60]; vsock *s, *be;
    slow_leave = 1 + mc_choose(mc_bound);
    r.n = 0; puts_(&r, f == 3 ? "HTTP/1.1 200 OK" CRLF : "HTTP/1.1 200 OK" CRLF KA); framed(&r, f, 3000000, 50000);
    k = even_cuts(r.n, 400000, c, 55);
    proxy_run(); nheads = 1; held_max = 0; room = 0; slow_take = 200000; slow_calls = 0; sim_send_hook = slow_send_leave;
    cl = sim_actor(); sim_add(cl, 'c', 0, 0, 0); sim_add(cl, 's', get_req[0], strlen(get_req[0]), 0);
    b = sim_actor(); sim_add(b, 'b', 0, 0, 0); sim_add(b, 'q', 0, 0, 1); cut_add(b, r.p, r.n, c, k);
    if(who < 2) { sim_add(cl, 'F', 0, 0, 1); sim_add(cl, who ? 'r' : 'e', 0, 0, 0); }
    else { sim_add(b, 'F', 0, 0, 1); sim_add(b, who == 2 ? 'e' : 'r', 0, 0, 0); }
    good_client();
    sim_run();
    good_check(2);
    s = done(0); be = backend(0);
    mc_outcome(mc_hash(&s->outlen, sizeof s->outlen, who));
    if(who < 2 && sim_flag) mc_check(!was_open(0) && !at_quiet[1].open, "the client left, its connections are not closed");
    if(who == 2) same_message("the response at the client", s->out, s->outlen, r.p, r.n, 1, 0, was_open(0) ? 0 : 1);
    if(who == 3) {      /* what was lost is not replaced by something else */
        static msg a, w; int i = ref_parse(s->out, s->outlen, 1, 0, 0, &a), j = ref_parse(r.p, r.n, 1, 0, 1, &w);
        mc_check(j == 1 && (i == 1 || !was_open(0)) && a.body.n <= w.body.n && memcmp(a.body.p ? a.body.p : "", w.body.p, a.body.n) == 0, "the client has contents that were not sent");
        mc_check(i != 1 || a.body.n == w.body.n, "a part of the response is relayed as a complete one");
    }
    (void) be;
}

static const mc_scenario list[] = {
    { "X01.request", x01_request, 0, 0, 0, 0, 2, 1, "every request form (method, target, version, headers, body) at the backend" },
    { "X01.methods", x01_methods, 1, 1, 0, 0, 3, 1, "the 24 methods, and what is shorter, longer, different by a letter or made of two of them" },
    { "X01.address", x01_address, 0, 0, 0, 0, 1, 1, "every form of the address of the backend" },
    { "X01.request_cut", x01_request_cut, 1, 2, 0, 0, 2, 1, "requests cut at every place" },
    { "X01.response", x01_response, 1, 2, 0, 0, 2, 1, "every response form at the client, cut at every place, kept or ended by the backend" },
    { "X01.response_even", x01_response_even, 40, 60, 0, 0, 2, 1, "responses in pieces of the same size" },
    { "X01.request_size", x01_request_size, 18, 19, 0, 0, 2, 1, "request bodies around the sizes of the buffers, by framing and piece" },
    { "X01.response_size", x01_response_size, 18, 19, 0, 0, 2, 1, "response bodies around the sizes of the buffers, by framing and piece" },
    { "X01.lengths", x01_lengths, 30, 80, 0, 0, 2, 1, "lengths of targets and headers around the sizes of the buffers" },
    { "X01.short", x01_short, 60, 160, 0, 0, 2, 1, "short writes to the backend or the client" },
    { "X01.sequence2", x01_sequence, 12, 12, 0, 0, 2, 1, "two exchanges on one connection, the backend keeping or closing" },
    { "X01.sequence3", x01_sequence, 3, 13, 0, 0, 2, 1, "three exchanges on one connection" },
    { "X02.truncated", x02_truncated, 1, 1, 0, 0, 2, 1, "a backend that ends or resets at every byte" },
    { "X02.after", x02_after, 0, 0, 0, 0, 2, 1, "the request after a failing backend" },
    { "X02.garbage", x02_garbage, 0, 0, 0, 0, 2, 1, "malformed responses, cut at every place" },
    { "X02.unreachable", x02_unreachable, 2, 3, 0, 0, 2, 1, "backends that refuse, do not resolve or are not configured" },
#ifndef MC_NO_EPOLL
    { "X02.unwatched", x02_unwatched, 70, 120, 0, 0, 2, 1, "the connection to the backend can not be registered for polling" },
#endif
    { "X02.leaving", x02_leaving, 0, 0, 0, 0, 2, 1, "the client leaves during the exchange" },
    { "X02.transport", x02_transport, 6, 20, 0, 0, 2, 1, "every transfer to or from either side fails, waits or is short" },
    { "X03.pair", x03_pair, 0, 0, 3, 6, 3, 1, "two clients, one request each, interleavings" },
    { "X03.pairs", x03_pairs, 0, 0, 2, 3, 4, 1, "two clients, two requests each, interleavings" },
    { "X03.pipelined", x03_pipelined, 2, 3, 0, 0, 2, 1, "pipelined requests to several locations, cut at every place" },
    { "X03.leaving", x03_leaving, 0, 0, 4, 7, 3, 1, "a client or a backend leaves, the others are served, interleavings" },
    { "X03.unsolicited", x03_unsolicited, 0, 0, 0, 0, 2, 1, "bytes the backend was not asked for" },
    { "X04.leave", x04_leave, 40, 120, 0, 0, 2, 1, "a slow client, or its backend, leaves at any point of a large response" },
    { "X04.slow", x04_slow, 2, 4, 0, 0, 2, 1, "a slow client of a large response: everything arrives, little is held" },
};
MC_MAIN(list)
