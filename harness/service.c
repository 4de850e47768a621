/* service.c - the server as a whole: S01 isolation of clients, S02 resources
 * over time and at the end, S03 failing resources, S04 many clients */
#include "srv.h"
#include <errno.h>

#define CONF BASE \
    "[location:t]\npath=^/t\nhandler=file\nbase_path=alt\n" \
    "[location:s]\npath=^/secret\nhandler=file\nauth_basic=realm\nauth_file=cfg/passwd\n" \
    "[location:d]\npath=^/default\nhandler=default\n"
#define LIST "[general]\nhandler=dispatch\nindex=index.html\nuse_template=1\nlist_directory=1\n"
static const char *kinds[] = {
    "GET /hello.txt HTTP/1.1" CRLF KA CRLF,
    "GET /big.bin HTTP/1.1" CRLF KA CRLF,
    "GET /missing HTTP/1.1" CRLF KA CRLF,
    "GET /dir/ HTTP/1.1" CRLF KA CRLF,
    "GET /secret/s.txt HTTP/1.1" CRLF "Authorization: Basic dXNlcjpwYXNz" CRLF KA CRLF,
    "GET /secret/s.txt HTTP/1.1" CRLF KA CRLF,
    "GET /big.bin HTTP/1.1" CRLF "Range: bytes=1000-280000" CRLF KA CRLF,
    "GET /t/x.txt HTTP/1.1" CRLF KA CRLF,
    "POST /hello.txt HTTP/1.1" CRLF KA "Content-Length: 4" CRLF CRLF "abcd",
    "GET /default HTTP/1.1" CRLF KA CRLF,
    "GET /sub HTTP/1.1" CRLF KA CRLF,
    "GET /sub/ HTTP/1.1" CRLF KA CRLF,
    "HEAD /hello.txt HTTP/1.1" CRLF CRLF,
    "BAD" CRLF CRLF,
};
static size_t take;
static int some(vsock *s, const char *buf, size_t len) {
    if(take == 0 || len <= take) return (int) len;
    return (int) take;
}
static void isolated(int i, const char *ini, const char *req, size_t n, const answer *w) {
    vsock *s = done(i); char t[80];
    snprintf(t, sizeof t, "client %d gets another output than when it is alone", i);
    same(t, s->out ? s->out : "", s->outlen, w->data, w->len);
    mc_check(was_open(i) == !w->closed, "the connection of client %d is left %s", i, was_open(i) ? "open" : "closed");
    mc_outcome(mc_hash(s->out ? s->out : "", s->outlen, i));
}
static const size_t takes[] = { 0, 100000, 300, 60000 };
static void s01(int clients, int takes_n) {
    const answer *w[4]; const char *q[4]; int i;
    for(i = 0; i < clients; i++) { q[i] = kinds[mc_choose(COUNT(kinds))]; w[i] = solo(CONF, q[i], strlen(q[i])); }
    take = takes[mc_choose(takes_n)];
    if(take == 300) for(i = 0; i < clients; i++) if(w[i]->len > 100000) { mc_trivial(); return; }
    fresh_run(CONF); sim_mode = 1; sim_send_hook = some;
    for(i = 0; i < clients; i++) { actor *a = sim_actor(); sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', q[i], strlen(q[i]) / 2, 0); sim_add(a, 's', q[i] + strlen(q[i]) / 2, strlen(q[i]) - strlen(q[i]) / 2, 0); }
    sim_run();
    for(i = 0; i < clients; i++) isolated(i, CONF, q[i], strlen(q[i]), w[i]);
}
static void s01_two(void) { s01(2, mc_bound); }
static void s01_three(void) { s01(3, 1); }
/* a slow client does not hold the others back */
static size_t blocked_after;
static int blocked(vsock *s, const char *buf, size_t len) {
    if(s != sim_client(0)) return (int) len;
    if(s->outlen >= blocked_after) return -1;
    return s->outlen + len > blocked_after ? (int) (blocked_after - s->outlen) : (int) len;
}
static void s01_blocked(void) {
    static const size_t at[] = { 0, 1, 20, 100, 200, 4096, 262144, 270000, 300000 };
    const char *q0 = kinds[mc_choose(COUNT(kinds))], *q1 = kinds[mc_choose(COUNT(kinds))]; const answer *w0 = solo(CONF, q0, strlen(q0)), *w1 = solo(CONF, q1, strlen(q1)); int again = mc_choose(2); actor *a; vsock *s;
    blocked_after = at[mc_choose(COUNT(at))];
    fresh_run(CONF); sim_send_hook = blocked;
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', q0, strlen(q0), 0); if(again) sim_add(a, 's', q0, strlen(q0), 0); sim_add(a, 'F', 0, 0, 1); sim_add(a, 'r', 0, 0, 0);
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', q1, strlen(q1), 0); sim_add(a, 'q', 0, 0, 1); sim_add(a, 'f', 0, 0, 1);
    sim_request_hook = sim_count;
    sim_run();
    isolated(1, CONF, q1, strlen(q1), w1);
    s = done(0); same("the output of the slow client", s->out ? s->out : "", s->outlen < w0->len ? s->outlen : w0->len, w0->data, s->outlen < w0->len ? s->outlen : w0->len);
    (void) w0;
}
/* sequences on two connections: what one asked before does not matter */
static void s01_history(void) {
    int i, j, n = mc_bound; const char *q[2][4]; static bytes all[2]; const answer *w[2];
    for(i = 0; i < 2; i++) { all[i].n = 0; for(j = 0; j < n; j++) { q[i][j] = kinds[mc_choose(COUNT(kinds) - 2)]; } }
    fresh_run(CONF); sim_request_hook = sim_count;
    {   actor *a = sim_actor(), *b = sim_actor();
        sim_add(a, 'c', 0, 0, 0); sim_add(b, 'c', 0, 0, 0);
        for(j = 0; j < n; j++) { sim_add(a, 's', q[0][j], strlen(q[0][j]), 0); sim_add(a, 'q', 0, 0, j + 1); sim_add(b, 'q', 0, 0, j); sim_add(b, 's', q[1][j], strlen(q[1][j]), 0); } }
    sim_run();
    for(i = 0; i < 2; i++) {
        vsock *s = done(i); static bytes o[2]; static char *keep[2];
        o[i].n = 0; put(&o[i], s->out ? s->out : "", s->outlen);
        (void) keep; (void) w;
        all[i].n = 0; put(&all[i], o[i].p ? o[i].p : "", o[i].n);
    }
    for(i = 0; i < 2; i++) {
        size_t at = 0;
        for(j = 0; j < n; j++) {
            const answer *x = solo(CONF, q[i][j], strlen(q[i][j]));
            mc_check(all[i].n - at >= x->len, "client %d: response %d is not complete", i, j);
            same("a response in a sequence differs from that to the request alone", all[i].p + at, x->len, x->data, x->len);
            at += x->len;
        }
        mc_check(at == all[i].n, "client %d: more bytes than its responses", i);
    }
}

/* a client that never stops sending: the next piece is always there */
typedef struct source { const char *head, *unit; } source;
static const source sources[] = {
    { "POST /hello.txt HTTP/1.1" CRLF KA "Content-Length: 2000000000" CRLF CRLF, "0123456789abcdef" },
    { "POST /hello.txt HTTP/1.1" CRLF KA "Transfer-Encoding: chunked" CRLF CRLF, "10" CRLF "0123456789abcdef" CRLF },
    { "", "GET /hello.txt HTTP/1.1" CRLF KA CRLF },
    { "", "HEAD /missing HTTP/1.1" CRLF KA CRLF },
    { "", "POST /hello.txt HTTP/1.1" CRLF KA "Content-Length: 1000" CRLF CRLF "................" },
    { "GET /hello.txt HTTP/1.1" CRLF, "A: 0123456789" CRLF },
    { "GET /hello.txt HTTP/1.1" CRLF "A: ", "0123456789abcdef" },
    { "GET /hello.txt?", "0123456789abcdef" },
    { "", CRLF },
    { "POST /default HTTP/1.1" CRLF KA "Content-Length: 2000000000" CRLF CRLF, "0123456789abcdef" },
};
static const source *endless; static int endless_piece, endless_told; static size_t endless_got, endless_at, endless_most, endless_base; static const char *endless_rest;
static int endless_recv(vsock *s, size_t len) {
    static char piece[65536]; size_t n = strlen(endless->unit), k = 0; vsock *o = sim_client(1);
    if(s != sim_client(0) || sim_flag != 1) return (int) len;
    if(s->inlen - s->inpos >= len) return (int) len;
    memmove(s->in, s->in + s->inpos, s->inlen - s->inpos); s->inlen -= s->inpos; s->inpos = 0;
    while(k + n <= sizeof piece && k < (size_t) endless_piece) { memcpy(piece + k, endless->unit, n); k += n; }
    sim_put(s, piece, k); endless_got += k;
    if(mc_allocated() - sim_bytes > endless_base + endless_most) endless_most = mc_allocated() - sim_bytes - endless_base;
    /* the other one sends the rest of its request */
    if(!endless_told && endless_got >= endless_at) { endless_told = 1; endless_at = endless_got; sim_put(o, endless_rest, strlen(endless_rest)); }
    if(endless_told && sim_count(o) > 0) sim_flag = 2;
    else mc_check(!endless_told || endless_got - endless_at < (8 << 20), "8 MB of the client that never stops sending are read while the other one waits");
    return (int) len;
}
static void s01_endless(void) {
    static const int pieces[] = { 100, 5000, 60000 }; static const size_t ats[] = { 1, 10000, 1048576, 3000000 };
    const char *q1 = kinds[mc_thorough ? mc_choose(COUNT(kinds) - 2) : 3 * mc_choose((COUNT(kinds) - 2) / 3)]; const answer *w1 = solo(CONF, q1, strlen(q1)); actor *a;
    endless = &sources[mc_choose(COUNT(sources))]; endless_piece = pieces[mc_choose(3)]; endless_at = ats[mc_choose(!endless->head[0] && !mc_thorough ? 2 : 4)];
    fresh_run(CONF); sim_recv_hook = endless_recv; sim_request_hook = sim_count;
    endless_got = endless_most = 0; endless_told = 0; endless_rest = q1 + strlen(q1) / 2; endless_base = mc_allocated() - sim_bytes;
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', endless->head, strlen(endless->head), 0); sim_add(a, 'F', 0, 0, 1); sim_add(a, 's', endless->unit, strlen(endless->unit), 0); sim_add(a, 'F', 0, 0, 2); sim_add(a, 'r', 0, 0, 0);
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', q1, strlen(q1) / 2, 0); sim_add(a, 'f', 0, 0, 1); sim_add(a, 'q', 0, 0, 1); sim_add(a, 'f', 0, 0, 2);
    sim_run();
    if(!endless_told) { mc_trivial(); sim_flag = 0; return; }
    isolated(1, CONF, q1, strlen(q1), w1);
    mc_log("%d %zu bytes read, %zu bytes held at most", (int)(endless - sources), endless_got, endless_most);
}

/* --- S02 -------------------------------------------------------------- */
static size_t held_at_quiet; static int live_at_quiet;
static void quiet_held(void) { on_quiet(); held_at_quiet = mc_allocated() - sim_bytes; live_at_quiet = sim_live_connections(); }
static size_t held_after(const char *q, int n, int mode, int leave) {
    actor *a; int i; vsock *s; int before; size_t base;
    fresh_run(CONF); sim_quiet_hook = quiet_held; sim_request_hook = sim_count;
    base = mc_allocated() - sim_bytes;
    a = sim_actor();
    if(mode == 0) {     /* one connection, n requests */
        sim_add(a, 'c', 0, 0, 0);
        for(i = 0; i < n; i++) { sim_add(a, 's', q, strlen(q), 0); sim_add(a, 'q', 0, 0, i + 1); }
    } else {            /* n connections, one after the other */
        for(i = 0; i < n; i++) { sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', q, strlen(q), 0); sim_add(a, 'q', 0, 0, 1); sim_add(a, leave ? 'r' : 'e', 0, 0, 0); }
    }
    (void) s; (void) before;
    sim_run();
    mc_check(quiet_seen, "the server stopped by itself");
    return held_at_quiet - base;
}
static void s02_growth(void) {
    int k = mc_choose(COUNT(kinds)), mode = mc_choose(2), leave = mode ? mc_choose(2) : 0; size_t few, many; int n = mc_bound;
    if(mode == 0 && k >= COUNT(kinds) - 2) { mc_trivial(); return; }
    held_after(kinds[k], 2, mode, leave);       /* what is allocated once */
    few = held_after(kinds[k], 2, mode, leave); many = held_after(kinds[k], n, mode, leave);
    mc_outcome(many);
    if(mode == 1) mc_check(live_at_quiet == 0, "%d connections are still held after all clients left", live_at_quiet);
    mc_check(many <= few, "%zu bytes more are held after %d %s than after 2", many - few, n, mode ? "connections" : "requests");
}
/* the server is told to stop at every wait, both ways, clients in every state */
static void s02_stop(void) {
    int k = mc_choose(COUNT(kinds)), j = mc_choose(COUNT(kinds)), at, how = mc_choose(2); actor *a;
    take = takes[mc_choose(2)]; at = mc_choose(mc_bound);
    fresh_run(CONF); sim_send_hook = some; sim_stop_at = at; sim_stop_signal = how;
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', kinds[k], strlen(kinds[k]) - 1, 0); sim_add(a, 's', kinds[k] + strlen(kinds[k]) - 1, 1, 0);
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', kinds[j], strlen(kinds[j]), 0); sim_add(a, 's', kinds[j], strlen(kinds[j]), 0);
    sim_run();
    mc_outcome(sim_waits);
    if(sim_waits <= at) mc_trivial();
}

/* --- S03 -------------------------------------------------------------- */
/* the n-th opening of a file or directory fails */
static int fail_open_n, fail_open_e, fail_open_hit; static char fail_path[300];
static int open_fails(int n, const char *path) {
    if(sim_client(0) == NULL || sim_client(0)->recvs == 0 || sim_flag) return 0;
    if(fail_open_n-- == 0) { fail_open_hit = 1; snprintf(fail_path, sizeof fail_path, "%s", path); return fail_open_e; }
    return 0;
}
static void s03_open(void) {
    static const char *inis[] = { CONF, LIST "[location:s]\npath=^/secret\nhandler=file\nauth_basic=realm\nauth_file=cfg/passwd\n" };
    static const int errs[] = { EMFILE, EACCES, ENOENT };
    int k = mc_choose(COUNT(kinds)), c = mc_choose(COUNT(inis)), n = mc_choose(mc_bound), e = mc_choose(COUNT(errs)); actor *a; vsock *s; resp r; const answer *w; int p;
    w = solo(inis[c], kinds[k], strlen(kinds[k]));
    fresh_run(inis[c]); fail_open_n = n; fail_open_e = errs[e]; fail_open_hit = 0; sim_open_hook = open_fails; sim_request_hook = sim_count;
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', kinds[k], strlen(kinds[k]), 0); sim_add(a, 'q', 0, 0, 1); sim_add(a, 'f', 0, 0, 1);
    a = sim_actor(); sim_add(a, 'F', 0, 0, 1); sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', "GET /hello.txt HTTP/1.1" CRLF CRLF, 27, 0);
    sim_run();
    good_check(1);
    s = done(0);
    if(!fail_open_hit) { mc_trivial(); isolated(0, inis[c], kinds[k], strlen(kinds[k]), w); return; }
    /* either the same answer, an error, or a cut; never other contents */
    p = sim_parse(s->out ? s->out : "", s->outlen, strncmp(kinds[k], "HEAD", 4) == 0, &r);
    mc_outcome(mc_hash(&p, sizeof p, p == 1 ? r.status : 0));
    if(s->outlen == w->len && memcmp(s->out, w->data, w->len) == 0) return;
    if(p == 1) {
        mc_check(r.status >= 400 || (k == 12 && r.status == 200) || (r.status / 100 == 3), "opening %s failed, the response has status %d and %zu bytes", fail_path, r.status, r.bodylen);
        mc_check(r.total == s->outlen, "%zu bytes after the response", s->outlen - r.total);
        mc_check(memmem(s->out, s->outlen, "top secret", 10) == NULL, "the protected contents were given although %s could not be opened", fail_path);
    } else mc_check(p == 0 && !was_open(0), "opening %s failed, the client is left waiting", fail_path);
}
/* accept fails now and then: the clients that wait are served in the end */
static int accept_at, accept_err, accept_count;
static int accept_fails(int n) { return n >= accept_at && n < accept_at + accept_count ? accept_err : 0; }
static void s03_accept(void) {
    static const int errs[] = { ECONNABORTED, EINTR, EMFILE }; int e = mc_choose(mc_bound), i, clients = 2 + mc_choose(2), at_once = mc_choose(2); actor *a;
    accept_err = errs[e]; accept_at = mc_choose(4); accept_count = 1 + mc_choose(2);
    fresh_run(CONF); sim_accept_hook = accept_fails;
    for(i = 0; i < clients; i++) good_client();
    if(at_once) { for(i = 0; i < clients; i++) { sim_a[i].n = 0; sim_add(&sim_a[i], 'c', 0, 0, 0); } for(i = 0; i < clients; i++) { sim_add(&sim_a[i], 's', "GET /hello.txt HTTP/1.1" CRLF CRLF, 27, 0); } sim_mode = 1; }
    sim_run();
    for(i = 0; i < clients; i++) {
        vsock *s = sim_client(i);
        if(s->rst && !s->accepted) continue;    /* this is the one that was aborted */
        mc_check(s->accepted, "client %d is never accepted after accept failed with error %d", i, accept_err);
        good_check(i);
    }
    (void) a;
}
/* the wait is interrupted at any time: nothing is lost */
static int eintr_at, eintr_n;
static int interrupted(int n) { return n >= eintr_at && n < eintr_at + eintr_n ? EINTR : 0; }
static void s03_interrupt(void) {
    const char *q0 = kinds[mc_choose(COUNT(kinds))], *q1 = kinds[mc_choose(COUNT(kinds))]; const answer *w0 = solo(CONF, q0, strlen(q0)), *w1 = solo(CONF, q1, strlen(q1)); actor *a;
    take = takes[mc_choose(2)]; eintr_at = mc_choose(mc_bound); eintr_n = 1 + mc_choose(2);
    fresh_run(CONF); sim_send_hook = some; sim_wait_hook = interrupted;
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', q0, strlen(q0), 0);
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', q1, strlen(q1), 0);
    sim_run();
    if(sim_waits <= eintr_at) mc_trivial();
    isolated(0, CONF, q0, strlen(q0), w0); isolated(1, CONF, q1, strlen(q1), w1);
}

/* the registration of a connection for polling fails: that client is told at once, the others are served */
static int refuse_at, refuse_error;
static int refused(int n) { return n == refuse_at ? refuse_error : 0; }
static void s03_register(void) {
    static const int errs[] = { ENOSPC, ENOMEM }; int i, clients = 2 + mc_choose(2), cut = 0; const char *q[3]; const answer *w[3];
    for(i = 0; i < clients; i++) { q[i] = kinds[i ? mc_choose(2) * 3 : mc_choose(COUNT(kinds))]; w[i] = solo(CONF, q[i], strlen(q[i])); }
    refuse_at = 1 + mc_choose(clients); refuse_error = errs[mc_choose(2)]; 
    fresh_run(CONF); sim_mode = 1; sim_register_hook = refused;
    for(i = 0; i < clients; i++) { actor *a = sim_actor(); sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', q[i], strlen(q[i]), 0); }
    sim_run();
    for(i = 0; i < clients; i++) {
        vsock *s = done(i);
        if(s->outlen == 0 && !was_open(i) && w[i]->len > 0) { cut++; continue; }
        if(w[i]->len == 0) { mc_check(!was_open(i), "the connection of client %d is left open", i); continue; }
        isolated(i, CONF, q[i], strlen(q[i]), w[i]);
    }
    mc_check(cut <= 1, "%d clients get nothing, one could not be registered", cut);
}

/* --- S04 -------------------------------------------------------------- */
static const int crowd[] = { 100, 1000, 1023, 1024, 1025, 1100, 2047, 2050, 3000, 8000 };
static void s04_many(void) {
    const char *q = kinds[mc_choose(COUNT(kinds))]; const answer *w; int n = crowd[mc_choose(mc_bound)], leave = mc_choose(6), i, seen = 0, again; actor *a;
    if(strstr(q, "big.bin")) { mc_trivial(); return; }
    w = solo(CONF, q, strlen(q));
    again = leave == 3 && !w->closed;
    fresh_run(CONF);
    a = sim_actor(); sim_add(a, 'm', q, leave ? strlen(q) / 2 : strlen(q), n);
    if(leave == 1 || leave == 2) sim_add(a, 'x', 0, 0, leave);
    if(leave == 3) sim_add(a, 'x', q + strlen(q) / 2, strlen(q) - strlen(q) / 2, 0);
    if(leave == 4) sim_add(a, 'x', q + strlen(q) / 2, strlen(q) - strlen(q) / 2, 3);  /* a third asks, the others reset */
    /* leave 5: everybody stays, with half a request, until the server is stopped */
    good_client();
    sim_run();
    good_check(1);
    for(i = 0; i < SIM_MAX; i++) if(sim_s[i].type == 2 && &sim_s[i] != sim_client(1)) {
        vsock *s = &sim_s[i]; seen++;
        mc_check(s->accepted, "connection %d of %d was never accepted", i, n);
        if(leave == 0 || leave == 3) same("the response of one of many clients", s->out ? s->out : "", s->outlen, w->data, w->len);
        (void) again;
    }
    mc_check(seen == n, "internal: %d of %d clients", seen, n);
    mc_outcome(mc_hash(&n, sizeof n, leave));
}

#ifdef MC_NO_EPOLL
/* as many clients as the sets of select can hold, or more */
static void p01_many(void) {
    static const int crowds[] = { 100, 700, 810, 822, 823, 824, 825, 1000, 1025, 3000, 8000 };
    const char *q = kinds[mc_choose(COUNT(kinds))]; const answer *w; int n = crowds[mc_choose(mc_bound)], leave = mc_choose(6), i, seen = 0, served = 0, fit = FD_SETSIZE - SIM_FD - 1 - sim_argc; actor *a;
    if(strstr(q, "big.bin")) { mc_trivial(); return; }
    w = solo(CONF, q, strlen(q));
    fresh_run(CONF); sim_reuse = 1;
    a = sim_actor(); sim_add(a, 'm', q, leave ? strlen(q) / 2 : strlen(q), n);
    if(leave == 1 || leave == 2) sim_add(a, 'x', 0, 0, leave);
    if(leave == 3) sim_add(a, 'x', q + strlen(q) / 2, strlen(q) - strlen(q) / 2, 0);
    if(leave == 4) sim_add(a, 'x', q + strlen(q) / 2, strlen(q) - strlen(q) / 2, 3);
    if(n < fit || leave == 1 || leave == 2) good_client();
    sim_run();
    if(n < fit || leave == 1 || leave == 2) good_check(1);
    for(i = 0; i < SIM_MAX; i++) if(sim_s[i].type == 2 && (sim_na < 2 || &sim_s[i] != sim_client(1))) {
        vsock *s = &sim_s[i]; seen++;
        mc_check(s->accepted, "connection %d of %d was never accepted", i, n);
        if(leave == 0 || leave == 3) {
            if(s->outlen == 0 && n > fit && w->len) { mc_check(!s->open, "a connection that is not served is left open"); continue; }
            served++; same("the response of one of many clients", s->out ? s->out : "", s->outlen, w->data, w->len);
        }
    }
    mc_check(seen == n, "internal: %d of %d clients", seen, n);
    if(leave == 0 || leave == 3) mc_check(served >= (n < fit ? n : fit - 1), "%d of %d clients are served, %d could be", served, n, fit);
    mc_outcome(mc_hash(&n, sizeof n, leave));
}
/* connections that last: thousands of requests, one after the other, on up to three of them */
static int asked, ask_n, ask_who; static const char *ask_q;
static int ask(void) {
    if(asked >= ask_n) return 0;
    sim_put(sim_client(asked % ask_who), ask_q, strlen(ask_q)); asked++;
    return 1;
}
static void p01_long(void) {
    static const int turns[] = { 1100, 2600, 10000 }; int i, n; size_t at; const answer *w;
    ask_q = kinds[mc_choose(COUNT(kinds))]; ask_who = 1 + mc_choose(3); ask_n = turns[mc_choose(mc_bound)]; asked = 0; w = solo(CONF, ask_q, strlen(ask_q));
    if(w->closed || w->len > 4096) { mc_trivial(); return; }
    fresh_run(CONF); sim_idle_hook = ask;
    for(i = 0; i < ask_who; i++) { actor *a = sim_actor(); sim_add(a, 'c', 0, 0, 0); }
    sim_run();
    for(i = 0; i < ask_who; i++) {
        vsock *s = done(i); n = ask_n / ask_who + (i < ask_n % ask_who);
        mc_check(s->outlen == n * w->len, "client %d gets %zu bytes for %d requests, not %zu", i, s->outlen, n, n * w->len);
        for(at = 0; at < s->outlen; at += w->len) mc_check(memcmp(s->out + at, w->data, w->len) == 0, "answer %zu of client %d is another one", at / w->len, i);
        mc_check(was_open(i), "the connection of client %d is closed", i);
    }
    mc_outcome(mc_hash(&ask_n, sizeof n, ask_who));
}
#endif

static const mc_scenario list[] = {
#ifdef MC_NO_EPOLL
    { "P01.long", p01_long, 2, 3, 0, 0, 2, 1, "thousands of requests on connections that last" },
    { "P01.many", p01_many, 8, 11, 0, 0, 2, 1, "up to as many clients as select can watch, or more, leaving, served, or both at once" },
#endif
    { "S01.two", s01_two, 2, 4, 2, 4, 3, 1, "two clients, every pair of 14 requests sent in halves, short writes, interleavings" },
    { "S01.three", s01_three, 0, 0, 1, 2, 3, 1, "three clients, every triple of requests, interleavings" },
    { "S01.blocked", s01_blocked, 0, 0, 0, 0, 2, 1, "a client that stops reading after some bytes, another one is served" },
    { "S01.endless", s01_endless, 1, 1, 0, 0, 2, 1, "a client that never stops sending, in 10 ways, another one is served" },
    { "S01.history", s01_history, 2, 2, 0, 0, 3, 1, "two connections, two requests each" },
    { "S02.growth", s02_growth, 14, 14, 0, 0, 2, 1, "the memory held after many requests or connections is that after two" },
    { "S02.stop", s02_stop, 12, 60, 0, 0, 3, 1, "the server is told to stop at every wait" },
    { "S03.open", s03_open, 6, 10, 0, 0, 2, 1, "the n-th opening of a file or directory fails" },
    { "S03.accept", s03_accept, 2, 2, 2, 4, 2, 1, "accept fails" },
#ifndef MC_NO_EPOLL
    { "S03.register", s03_register, 0, 0, 2, 4, 2, 1, "the registration of a connection for polling fails" },
#endif
    { "S03.interrupt", s03_interrupt, 8, 40, 0, 0, 2, 1, "the wait is interrupted at any time" },
    { "S04.many", s04_many, 6, 10, 0, 0, 2, 1, "up to 8000 clients at once, leaving, served, or both at once, or there when the server stops" },
};
MC_MAIN(list)
