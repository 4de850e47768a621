/* holding.c - S07: what a peer can make the server hold in memory */
#include "srv.h"

#define CONF BASE \
    "[location:d]\npath=^/default\nhandler=default\n" \
    "[location:s]\npath=^/secret\nhandler=file\nauth_basic=realm\nauth_file=cfg/passwd\n" \
    "[location:api]\npath=^/api\nhandler=proxy\nproxy_pass=http://backend:8080/\n"
#define LIMIT ((size_t) 12 << 20)
#define MUCH ((size_t) 24 << 20)
#define LITTLE ((size_t) 3 << 20)
static vsock *backend(void) {
    int i;
    for(i = 0; i < SIM_MAX; i++) if(sim_s[i].used && sim_s[i].backend) return &sim_s[i];
    return NULL;
}

/* a peer that never stops sending: the next piece is always there */
typedef struct source { const char *name, *head, *unit; int dense; } source;
#define GET "GET /hello.txt HTTP/1.1" CRLF
static const source from_client[] = {
    { "body by length", "POST /hello.txt HTTP/1.1" CRLF KA "Content-Length: 2000000000" CRLF CRLF, "0123456789abcdef" },
    { "body in chunks", "POST /hello.txt HTTP/1.1" CRLF KA "Transfer-Encoding: chunked" CRLF CRLF, "10" CRLF "0123456789abcdef" CRLF },
    { "one chunk", "POST /hello.txt HTTP/1.1" CRLF KA "Transfer-Encoding: chunked" CRLF CRLF "7fffff00" CRLF, "0123456789abcdef" },
    { "size of a chunk", "POST /hello.txt HTTP/1.1" CRLF KA "Transfer-Encoding: chunked" CRLF CRLF, "00000000" },
    { "parameters of a chunk", "POST /hello.txt HTTP/1.1" CRLF KA "Transfer-Encoding: chunked" CRLF CRLF "10;", "abcdefgh=0123456" },
    { "trailers", "POST /hello.txt HTTP/1.1" CRLF KA "Transfer-Encoding: chunked" CRLF CRLF "0" CRLF, "A: 0123456789" CRLF },
    { "one trailer", "POST /hello.txt HTTP/1.1" CRLF KA "Transfer-Encoding: chunked" CRLF CRLF "0" CRLF "A: ", "0123456789abcdef" },
    { "a name of a trailer", "POST /hello.txt HTTP/1.1" CRLF KA "Transfer-Encoding: chunked" CRLF CRLF "0" CRLF, "abcdefghijklmnop" },
    { "header fields", GET, "A: 0123456789" CRLF },
    { "header fields of many names", GET, "A-long-name-for-a-header-field: 0" CRLF "B: 1" CRLF "Host: x" CRLF },
    { "a value of a header field", GET "A: ", "0123456789abcdef" },
    { "a folded value", GET "A: 1" CRLF, " 0123456789" CRLF },
    { "spaces before a value", GET "A:", "                " },
    { "spaces after a value", GET "A: 1", "                " },
    { "a name of a header field", GET, "abcdefghijklmnop" },
    { "credentials", "GET /secret/s.txt HTTP/1.1" CRLF "Authorization: Basic ", "dXNlcjpwYXNzdXNl" },
    { "a range", GET "Range: bytes=", "1-2,3-4,5-6,7-8," },
    { "a length", "POST /hello.txt HTTP/1.1" CRLF "Content-Length: ", "0000000000000000" },
    { "a path", "GET /", "0123456789abcdef" },
    { "a query", "GET /hello.txt?", "0123456789abcdef" },
    { "a fragment", "GET /hello.txt#", "0123456789abcdef" },
    { "a host", "GET http://", "abcdefghijklmnop" },
    { "a port", "GET http://host:", "0000000000000000" },
    { "spaces before the target", "GET ", "                " },
    { "spaces after the target", "GET /hello.txt", "                " },
    { "a version", "GET /hello.txt HTTP/1.", "0000000000000000" },
    { "empty lines", "", CRLF CRLF CRLF CRLF },
    { "requests", "", GET KA CRLF, 1 },
    { "requests without an answer body", "", "HEAD /missing HTTP/1.1" CRLF KA CRLF, 1 },
    { "requests that are refused", "", "GET /secret/s.txt HTTP/1.1" CRLF KA CRLF, 1 },
    { "requests with bodies", "", "POST /default HTTP/1.1" CRLF KA "Content-Length: 16" CRLF CRLF "0123456789abcdef", 1 },
    { "requests with chunks", "", "POST /hello.txt HTTP/1.1" CRLF KA "Transfer-Encoding: chunked" CRLF CRLF "10" CRLF "0123456789abcdef" CRLF "0" CRLF CRLF, 1 },
    { "requests for a large file", "", "GET /big.bin HTTP/1.1" CRLF KA CRLF, 2 },
    { "requests that end the connection", "", GET CRLF },
    { "no request", "", "BAD ", },
    { "proxied header fields", "GET /api HTTP/1.1" CRLF, "A: 0123456789" CRLF },
    { "a proxied value", "GET /api HTTP/1.1" CRLF "A: ", "0123456789abcdef" },
    { "a proxied target", "GET /api?", "0123456789abcdef" },
    { "proxied requests", "", "GET /api HTTP/1.1" CRLF KA CRLF },
    { "proxied trailers", "POST /api HTTP/1.1" CRLF "Transfer-Encoding: chunked" CRLF CRLF "0" CRLF, "A: 0123456789" CRLF },
};
/* bodies that are forwarded: these are held whole until the request is complete */
static const source proxied[] = {
    { "a proxied body by length", "POST /api HTTP/1.1" CRLF KA "Content-Length: 2000000000" CRLF CRLF, "0123456789abcdef" },
    { "a proxied body in chunks", "POST /api HTTP/1.1" CRLF KA "Transfer-Encoding: chunked" CRLF CRLF, "10" CRLF "0123456789abcdef" CRLF },
};
#define R200 "HTTP/1.1 200 OK" CRLF KA
static const source from_backend[] = {
    { "header fields", R200, "A: 0123456789" CRLF },
    { "a value of a header field", R200 "A: ", "0123456789abcdef" },
    { "a name of a header field", R200, "abcdefghijklmnop" },
    { "a folded value", R200 "A: 1" CRLF, " 0123456789" CRLF },
    { "a reason", "HTTP/1.1 200 ", "0123456789abcdef" },
    { "a version", "HTTP/1.", "0000000000000000" },
    { "interim responses", "", "HTTP/1.1 100 Continue" CRLF CRLF, 1 },
    { "interim responses with fields", "", "HTTP/1.1 103 Early Hints" CRLF "A: 0123456789abcdef0123456789abcdef0123456789abcdef" CRLF CRLF, 1 },
    { "trailers", R200 "Transfer-Encoding: chunked" CRLF CRLF "0" CRLF, "A: 0123456789" CRLF },
    { "one trailer", R200 "Transfer-Encoding: chunked" CRLF CRLF "0" CRLF "A: ", "0123456789abcdef" },
    { "parameters of a chunk", R200 "Transfer-Encoding: chunked" CRLF CRLF "10;", "abcdefgh=0123456" },
    { "body by length", R200 "Content-Length: 2000000000" CRLF CRLF, "0123456789abcdef" },
    { "body in chunks", R200 "Transfer-Encoding: chunked" CRLF CRLF, "10" CRLF "0123456789abcdef" CRLF, 1 },
    { "body until the end", "HTTP/1.1 200 OK" CRLF CRLF, "0123456789abcdef" },
    { "responses", "", R200 "Content-Length: 0" CRLF CRLF },
    { "no response", "", "BAD " },
};
static const source *src; static size_t piece, got, much, most, base, room; static int at_backend, gated;
static int source_recv(vsock *s, size_t len) {
    static char unit[65536]; size_t n = strlen(src->unit), k = 0;
    if(at_backend ? !s->backend || sim_flag == 0 : s != sim_client(0) || sim_flag == 0) return (int) len;
    if(mc_allocated() - sim_bytes > base + most) most = mc_allocated() - sim_bytes - base;
    mc_check(most < LIMIT, "%s without end from %s: the server holds %zu bytes, %zu were sent", src->name, at_backend ? "a backend" : "a client", most, got);
    if(s->inlen - s->inpos >= len || got >= much) return (int) len;
    memmove(s->in, s->in + s->inpos, s->inlen - s->inpos); s->inlen -= s->inpos; s->inpos = 0;
    while(k + n <= sizeof unit && k < piece) { memcpy(unit + k, src->unit, n); k += n; }
    sim_put(s, unit, k); got += k;
    return (int) len;
}
static int gate(vsock *s, const char *buf, size_t len) {
    (void) buf;
    if(s != sim_client(0) || !gated) { if(s == sim_client(0) && s->outlen > ((size_t) 1 << 20)) { sim_bytes -= s->outcap; s->outlen = 0; sim_bytes += s->outcap; } return (int) len; }
    if(room == 0) { sim_full = s; return -1; }
    if(len > room) len = room;
    room -= len;
    return (int) len;
}
static int reachable(vsock *s, int port) { (void) s; (void) port; return 1; }
static int idle(void) {
    if(sim_flag == 2) return 0;
    if(mc_allocated() - sim_bytes > base + most) most = mc_allocated() - sim_bytes - base;
    sim_flag = 2;
    return 1;
}
static void endless(int who, const source *list, int count) {
    static const size_t rooms[] = { 0, 10, 300, 300000, 2000000 }, pieces[] = { 5000, 60000, 300 }; const char *start; actor *a, *b; vsock *s; static char first[600];
    at_backend = who; src = &list[mc_choose(count)];
    { int r = list == proxied ? 0 : mc_choose(COUNT(rooms) + 1), before; gated = r > 0; room = r > 0 ? rooms[r - 1] : 0; piece = pieces[mc_choose(mc_bound)]; before = mc_choose(2);
      snprintf(first, sizeof first, "%s%s", before ? GET KA CRLF : "", who ? "GET /api HTTP/1.1" CRLF KA CRLF : src->head); }
    much = src->dense == 2 && !gated ? LITTLE / 4 : src->dense && !gated ? LITTLE : piece == 300 ? LITTLE * 4 : MUCH; start = src->unit; got = most = 0;
    fresh_run(CONF); sim_recv_hook = source_recv; sim_send_hook = gate; sim_idle_hook = idle; sim_connect_hook = reachable; base = mc_allocated() - sim_bytes;
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0); if(first[0]) sim_add(a, 's', first, strlen(first), 0);
    if(!who) { sim_add(a, 'f', 0, 0, 1); sim_add(a, 's', start, strlen(start), 0); }
    sim_add(a, 'F', 0, 0, 2); sim_add(a, 'r', 0, 0, 0);
    b = sim_actor(); sim_add(b, 'b', 0, 0, 0);
    if(who) { if(src->head[0]) sim_add(b, 's', src->head, strlen(src->head), 0); sim_add(b, 'f', 0, 0, 1); sim_add(b, 's', start, strlen(start), 0); }
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0); sim_add(a, 'F', 0, 0, 2); sim_add(a, 's', GET CRLF, strlen(GET CRLF), 0);
    sim_run();
    s = done(0); (void) s;
    good_check(2);
    mc_log("%s: %zu bytes taken, %zu held at most", src->name, got, most);
    mc_outcome(mc_hash(&who, sizeof who, got >= much));
}
static void s07_client(void) { endless(0, from_client, COUNT(from_client)); }
static void s07_proxied(void) { endless(0, proxied, COUNT(proxied)); }
static void s07_backend(void) { endless(1, from_backend, COUNT(from_backend)); }

/* many requests arrive while nothing can be sent: each of them is answered later, in order */
static size_t stride, pause_at;
static int slow(vsock *s, const char *buf, size_t len) {
    (void) buf;
    if(s != sim_client(0) || !gated) return (int) len;
    if(room == 0) { if(stride) room = stride; else sim_full = s; return -1; }
    if(len > room) len = room;
    room -= len;
    return (int) len;
}
static int open_gate(void) {
    if(mc_allocated() - sim_bytes > base + most) most = mc_allocated() - sim_bytes - base;
    if(sim_full == NULL) return 0;
    gated = stride > 0; sim_full = NULL; sim_room(sim_client(0));
    return 1;
}
static void s07_resume(void) {
    static const char *asks[] = { "GET /hello.txt", "GET /missing", "HEAD /hello.txt", "GET /default", "GET /secret/s.txt", "GET /dir/", "POST /default" };
    static const size_t pads[] = { 100000, 20, 900, 16300, 400000 }, steps[] = { 0, 50000, 700 }; static const int after[] = { 0, 1, 3 };
    static bytes all, want; int q = mc_choose(COUNT(asks)), q2 = mc_choose(2) ? (q + 1) % COUNT(asks) : q, i, n, p = mc_choose(3 + mc_bound), ends = mc_choose(3), post; size_t cut, at; actor *a; vsock *s; const answer *w[2]; char small[200];
    stride = steps[mc_choose(COUNT(steps))]; pause_at = after[mc_choose(COUNT(after))]; cut = mc_choose(2) ? 65536 : 1000000;
    all.n = want.n = 0; n = (int) (3500000 / (pads[p] + 60)); if(n > 3000) n = 3000;
    if(stride == 700 && n > 400) n = 400;
    for(i = 0; i < 2; i++) { const char *k = asks[i ? q2 : q]; post = strncmp(k, "POST", 4) == 0; snprintf(small, sizeof small, "%s HTTP/1.1" CRLF KA "%s" CRLF "%s", k, post ? "Content-Length: 5" CRLF : "", post ? "12345" : ""); w[i] = solo(CONF, small, strlen(small)); }
    for(i = 0; i < n; i++) {
        const char *k = asks[i & 1 ? q2 : q]; post = strncmp(k, "POST", 4) == 0;
        puts_(&all, k); puts_(&all, " HTTP/1.1" CRLF KA "X-Pad: "); fill(&all, 'p', pads[p]); puts_(&all, CRLF); puts_(&all, post ? "Content-Length: 5" CRLF CRLF "12345" : CRLF);
        put(&want, w[i & 1]->data, w[i & 1]->len);
    }
    fresh_run(CONF); sim_send_hook = slow; sim_idle_hook = open_gate; base = mc_allocated() - sim_bytes; most = 0;
    gated = 1; room = pause_at == 0 ? 0 : pause_at == 1 ? w[0]->len : w[0]->len + w[1]->len / 2;
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0);
    for(at = 0; at < all.n; at += cut) sim_add(a, 's', all.p + at, all.n - at < cut ? all.n - at : cut, 0);
    if(ends == 1) sim_add(a, 'e', 0, 0, 0);
    sim_run();
    s = done(0);
    if(ends == 1) {     /* it left: what it has is the beginning of the answers */
        if(s->outlen < want.n) want.n = s->outlen;
        mc_check(!was_open(0), "the client left, its connection is open");
    } else mc_check(was_open(0), "the connection is closed");
    same("the answers to the requests that had to wait", s->out ? s->out : "", s->outlen, want.p, want.n);
    mc_check(most < LIMIT, "%zu bytes are held for the requests that have to wait", most);
    mc_outcome(mc_hash(&n, sizeof n, ends));
}
/* a large head is not refused */
static void s07_room(void) {
    static const size_t sizes[] = { 1000, 4096, 16000, 16384, 40000, 262144, 900000 }, cuts[] = { 4096, 60000, 1000000 };
    static bytes q; const answer *w = solo(CONF, GET KA CRLF, strlen(GET KA CRLF)); size_t n = sizes[mc_choose(COUNT(sizes))], cut = cuts[mc_choose(COUNT(cuts))], at; int form = mc_choose(6), again = 1 + mc_choose(3), i; actor *a; vsock *s; static bytes want; char b[60];
    q.n = want.n = 0;
    for(i = 0; i < again; i++) {
        size_t start = q.n; int k = 0;
        if(form == 5) puts_(&q, "POST /hello.txt HTTP/1.1" CRLF KA "Transfer-Encoding: chunked" CRLF CRLF "0" CRLF); else puts_(&q, GET KA);
        if(form == 0) { puts_(&q, "A: "); fill(&q, 'x', n); puts_(&q, CRLF); }
        else if(form == 1) { fill(&q, 'x', n); puts_(&q, ": 1" CRLF); }
        else if(form == 4) { puts_(&q, "A:"); fill(&q, ' ', n); puts_(&q, "1" CRLF); }
        else while(q.n < start + n) { snprintf(b, sizeof b, form == 2 ? "A: %d" CRLF : form == 3 ? "Name-of-field-%d: with a value" CRLF : "A: %d" CRLF, k++); puts_(&q, b); }
        puts_(&q, CRLF); put(&want, w->data, w->len);
    }
    fresh_run(CONF); a = sim_actor(); sim_add(a, 'c', 0, 0, 0);
    if(q.n / cut > 58) cut = q.n / 58 + 1;
    for(at = 0; at < q.n; at += cut) sim_add(a, 's', q.p + at, q.n - at < cut ? q.n - at : cut, 0);
    sim_run();
    s = done(0);
    same("the answers to requests with large heads", s->out ? s->out : "", s->outlen, want.p, want.n);
    mc_outcome(mc_hash(&n, sizeof n, form));
}

static const mc_scenario list[] = {
    { "S07.client", s07_client, 1, 3, 0, 0, 2, 1, "a client that sends without end, in 41 ways, and reads nothing, something or everything" },
    { "S07.proxied", s07_proxied, 1, 1, 0, 0, 1, 1, "a client that sends a body without end to a backend" },
    { "S07.backend", s07_backend, 1, 3, 0, 0, 2, 1, "a backend that sends without end, in 16 ways, to a client that reads nothing, something or everything" },
    { "S07.resume", s07_resume, 0, 2, 0, 0, 2, 1, "megabytes of requests that wait for the client to read: all are answered" },
    { "S07.room", s07_room, 0, 0, 0, 0, 2, 1, "heads of up to 900000 bytes, of 6 forms" },
};
MC_MAIN(list)
