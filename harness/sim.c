#define _GNU_SOURCE
#include "sim.h" /* before the sources of the server, one of which changes the packing */
#include "stdafx.h"
#include "system/service.h"
#include <arpa/inet.h>
#include <dirent.h>
#include <execinfo.h>
#include <errno.h>
#include <netdb.h>
#include <stdarg.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <time.h>

vsock sim_s[SIM_MAX];
actor sim_a[8];
int sim_na, sim_mode, sim_accept_limit = -1, sim_stop_signal, sim_start_result;
int (*sim_send_hook)(vsock *, const char *, size_t);
int (*sim_recv_hook)(vsock *, size_t);
int (*sim_idle_hook)(void);
vsock *sim_full;
void (*sim_quiet_hook)(void);
int (*sim_connect_hook)(vsock *, int);
char sim_resolved[512];
void (*sim_end_hook)(void);
int (*sim_request_hook)(vsock *);
void (*sim_data_hook)(vsock *, int);
int sim_nbackends, sim_flag, sim_setups, sim_argc; char **sim_argv, sim_bound[400];
int (*sim_setup_hook)(const char *call, int n);
struct service_t *sim_service;
char sim_opened[256][1200]; int sim_nopened;

static long stamp; size_t sim_bytes;
int sim_leaks = 1, sim_accepts, sim_files, sim_stop_at, sim_waits;
int (*sim_accept_hook)(int n); int (*sim_open_hook)(int n, const char *path); int (*sim_wait_hook)(int n); int (*sim_register_hook)(int n); int sim_registers;
static int high;
static int nsock, epfd_open, quiet, running, backlog[SIM_MAX], nbacklog, waits;

/* every socket has a descriptor of its own, so that the use of a closed one shows; with sim_reuse they are given again, as they really are */
int sim_reuse; static int holder[SIM_MAX], taken;
static vsock *get(int fd) { return fd < SIM_FD || fd >= SIM_FD + SIM_MAX ? NULL : !sim_reuse ? &sim_s[fd - SIM_FD] : fd < SIM_FD + taken ? &sim_s[holder[fd - SIM_FD]] : NULL; }
static int fdof(vsock *s) { return sim_reuse ? s->fd : SIM_FD + (int) (s - sim_s); }
static void give(vsock *s) {
    int i;
    if(!sim_reuse) return;
    for(i = 0; i < taken && sim_s[holder[i]].open && sim_s[holder[i]].fd == SIM_FD + i; i++) ;
    if(i == taken) taken++;
    holder[i] = (int) (s - sim_s); s->fd = SIM_FD + i;
}
static vsock *fresh(int type) {
    vsock *s;
    if(nsock >= SIM_MAX) mc_fail("internal: out of simulated sockets");
    s = &sim_s[nsock++]; if(nsock > high) high = nsock;
    s->used = 1; s->type = type; s->open = 1;
    return s;
}
static void wake(vsock *s) { s->ready = 1; s->stamp = ++stamp; }

unsigned sim_heads;
void sim_reset(void) {
    int i;
    for(i = 0; i < high; i++) {
        vsock k; memset(&k, 0, sizeof k);
        k.in = sim_s[i].in; k.incap = sim_s[i].incap; k.out = sim_s[i].out; k.outcap = sim_s[i].outcap;
        sim_s[i] = k;
    }
    memset(sim_a, 0, sizeof(sim_a)); sim_leaks = 1;
    sim_na = 0; sim_mode = 0; sim_accept_limit = -1; sim_stop_signal = 0; sim_reuse = 0; taken = 0; sim_register_hook = NULL; sim_registers = 0;
    sim_full = NULL; sim_send_hook = NULL; sim_recv_hook = NULL; sim_idle_hook = NULL; sim_quiet_hook = NULL;
    sim_resolved[0] = 0; sim_end_hook = NULL; sim_connect_hook = NULL; sim_request_hook = NULL; sim_data_hook = NULL; sim_flag = 0; sim_nbackends = 0; sim_heads = 0; sim_later = 0;
    sim_setup_hook = NULL; sim_setups = sim_argc = 0; sim_bound[0] = 0;
    sim_accept_hook = NULL; sim_open_hook = NULL; sim_wait_hook = NULL; sim_accepts = sim_files = sim_waits = 0; sim_stop_at = -1;
    stamp = 0; nsock = 0; epfd_open = 0; quiet = 0; nbacklog = 0; sim_nopened = 0; waits = 0;
}
actor *sim_actor(void) { actor *a = &sim_a[sim_na++]; memset(a, 0, sizeof *a); a->sock = -1; return a; }
void sim_add(actor *a, char op, const void *data, size_t len, int n) {
    step *s;
    if(a->n >= 64) mc_fail("internal: script too long");
    s = &a->st[a->n++]; s->op = op; s->data = data; s->len = len; s->n = n;
}
static void grow(char **p, size_t *cap, size_t need) {
    if(need <= *cap) return;
    sim_bytes -= *cap; *cap = need * 2 + 64; *p = realloc(*p, *cap); sim_bytes += *cap;
}
void sim_put(vsock *s, const void *data, size_t len) {
    grow(&s->in, &s->incap, s->inlen + len);
    memcpy(s->in + s->inlen, data, len); s->inlen += len; wake(s);
}
void sim_peer_eof(vsock *s) { s->eof = 1; wake(s); }
void sim_peer_rst(vsock *s) { s->rst = 1; wake(s); }
void sim_room(vsock *s) { s->nospace = 0; wake(s); }
vsock *sim_client(int i) { return sim_a[i].sock < 0 ? NULL : &sim_s[sim_a[i].sock]; }
int sim_live_connections(void) {
    int i, n = 0;
    for(i = 0; i < nsock; i++) if(sim_s[i].type == 2 && sim_s[i].accepted && sim_s[i].open) n++;
    return n;
}

/* --- responses ------------------------------------------------------- */
int sim_header(const resp *r, const char *name, char *out, size_t max) {
    const char *p = r->head, *end = r->head + r->headlen; size_t n = strlen(name);
    p = memchr(p, '\n', end - p);
    for(p = p ? p + 1 : end; p < end; ) {
        const char *e = memchr(p, '\n', end - p), *l; if(!e) e = end;
        l = e; if(l > p && l[-1] == '\r') l--;
        if((size_t) (l - p) > n && p[n] == ':' && strncasecmp(p, name, n) == 0) {
            const char *v = p + n + 1; size_t k;
            while(v < l && *v == ' ') v++;
            k = l - v; if(k >= max) k = max - 1;
            memcpy(out, v, k); out[k] = 0; return 1;
        }
        p = e + 1;
    }
    out[0] = 0; return 0;
}
int sim_parse(const char *d, size_t len, int headreq, resp *r) {
    const char *e; char v[256]; size_t i;
    memset(r, 0, sizeof *r); r->clen = -1;
    if(len == 0) return 0;
    if(memcmp(d, "HTTP/1.", len < 7 ? len : 7) != 0) return -1;
    e = len >= 4 ? memmem(d, len, "\r\n\r\n", 4) : NULL;
    if(!e) return len > 16384 ? -1 : 0;
    r->head = (char *) d; r->headlen = e + 2 - d;
    if(r->headlen < 15 || d[8] != ' ' || d[12] != ' ') return -1;
    for(i = 9; i < 12; i++) if(d[i] < '0' || d[i] > '9') return -1;
    for(i = 0; i < r->headlen; i++) if(d[i] == '\n' && (i == 0 || d[i - 1] != '\r')) return -1;
    /* every header line has a name and a colon */
    {   const char *p = memchr(d, '\n', r->headlen) + 1, *end = d + r->headlen;
        while(p < end) {
            const char *q = memchr(p, '\n', end - p), *c = memchr(p, ':', q - p);
            if(c == NULL || c == p) return -1;
            p = q + 1;
        } }
    r->status = atoi(d + 9);
    r->body = e + 4;
    if(sim_header(r, "Content-Length", v, sizeof v)) {
        char *end; r->clen = strtol(v, &end, 10);
        if(*end || !v[0] || r->clen < 0) return -1;
    }
    if(sim_header(r, "Connection", v, sizeof v)) r->keep = strcasecmp(v, "keep-alive") == 0;
    r->bodylen = headreq || r->status == 304 || r->status == 204 || r->clen < 0 ? 0 : (size_t) r->clen;
    r->total = (r->body - d) + r->bodylen;
    return len >= r->total;
}
int sim_count(vsock *s) {
    size_t at = 0; int n = 0; resp r;
    while(at < s->outlen && sim_parse(s->out + at, s->outlen - at, s == sim_client(0) && n < 32 && sim_heads >> n & 1, &r) == 1) { at += r.total; n++; }
    return n;
}

/* --- the environment ------------------------------------------------- */
static int enabled(actor *a) {
    step *s; vsock *k;
    if(a->at >= a->n) return 0;
    s = &a->st[a->at]; k = a->sock < 0 ? NULL : &sim_s[a->sock];
    if(s->op == 'w') return k->open == 0 || sim_count(k) >= s->n;
    if(s->op == 'W') return k->open == 0;
    if(s->op == 'F') return sim_flag >= s->n;
    if(s->op == 'b') return sim_nbackends > s->n;
    if(s->op == 'q') return k->open == 0 || (sim_request_hook && sim_request_hook(k) >= s->n);
    return 1;
}
static void perform(actor *a) {
    step *s = &a->st[a->at++]; vsock *k = a->sock < 0 ? NULL : &sim_s[a->sock];
    int i; char hex[400];
    mc_step();
    switch(s->op) {
        case 'c':
            k = fresh(2); a->sock = (int) (k - sim_s); backlog[nbacklog++] = a->sock;
            for(i = 0; i < nsock; i++) if(sim_s[i].type == 1 && sim_s[i].open) wake(&sim_s[i]);
            mc_log("client %d connects", (int) (a - sim_a));
            break;
        case 's':
            if(mc_verbose) { mc_hex(hex, sizeof hex, s->data, s->len); mc_log("client %d sends %zu bytes: %s", (int) (a - sim_a), s->len, hex); }
            if(!k->rst && k->open) sim_put(k, s->data, s->len);
            break;
        case 'm':
            for(i = 0; i < s->n; i++) { vsock *f = fresh(2); backlog[nbacklog++] = (int) (f - sim_s); sim_put(f, s->data, s->len); }
            for(i = 0; i < nsock; i++) if(sim_s[i].type == 1 && sim_s[i].open) wake(&sim_s[i]);
            mc_log("%d clients connect", s->n);
            break;
        case 'x':
            for(i = 0; i < nsock; i++) if(sim_s[i].type == 2 && !sim_s[i].backend && sim_s[i].open) {
                if(s->n == 0 || (s->n == 3 && i < nsock / 3)) sim_put(&sim_s[i], s->data, s->len); else if(s->n == 1) sim_peer_eof(&sim_s[i]); else sim_peer_rst(&sim_s[i]); }
            break;
        case 'b':
            for(i = 0; i < nsock; i++) if(sim_s[i].backend && sim_s[i].order == s->n) a->sock = i;
            mc_log("actor %d is backend %d (port %d)", (int) (a - sim_a), s->n, sim_s[a->sock].port);
            break;
        case 'd': mc_log("actor %d answers", (int) (a - sim_a)); if(!k->rst && k->open) sim_data_hook(k, s->n); break;
        case 'f': sim_flag = s->n; break;
        case 'e': mc_log("client %d half closes", (int) (a - sim_a)); sim_peer_eof(k); break;
        case 'r': mc_log("client %d resets", (int) (a - sim_a)); sim_peer_rst(k); break;
        default: break;
    }
}
static uint32_t level(vsock *s) {
    uint32_t m = 0;
    if(s->type == 1) return nbacklog > 0 ? EPOLLIN : 0;
    if(s->inpos < s->inlen || s->eof || s->rst) m |= EPOLLIN;
    if(!s->nospace || s->rst) m |= EPOLLOUT;
    if(s->rst) m |= EPOLLERR | EPOLLHUP;
    return m;
}
static int reportable(vsock *s) { return s->used && s->open && s->epoll && s->ready && (level(s) & (s->mask | EPOLLERR | EPOLLHUP)); }

static fd_set *set_r, *set_w; static int set_n; /* the descriptors of a call to select */
static int selected(vsock *s) {
    int fd = fdof(s), n = 0;
    if(!s->used || !s->open || fd >= set_n) return 0;
    if(set_r && FD_ISSET(fd, set_r) && (level(s) & EPOLLIN)) n |= 1;
    if(set_w && FD_ISSET(fd, set_w) && (level(s) & EPOLLOUT)) n |= 2;
    return n;
}
/* lets the environment act until the events are to be reported (0), or until nothing can happen anymore (1) or the call is interrupted (-1) */
static int surroundings(int timeout, int selecting) {
    int i, na, en[16];
    if(!running) mc_fail("waiting for events outside a run");
    if(sim_wait_hook) { int e = sim_wait_hook(sim_waits); if(e) { sim_waits++; errno = e; mc_log("the wait is interrupted"); return -1; } }
    if(sim_waits++ == sim_stop_at) { mc_log("the server is told to stop"); stop_service(sim_service); if(sim_stop_signal) { errno = EINTR; return -1; } }
    if(++waits > 20000) mc_fail("the event loop spins: 20000 waits");
    while(1) {
        int pending = 0, k = 0, c, drain = -1;
        for(i = 0; i < nsock; i++) {
            if(selecting ? selected(&sim_s[i]) : reportable(&sim_s[i])) pending++;
            if(drain < 0 && sim_s[i].used && sim_s[i].type == 2 && sim_s[i].open && sim_s[i].nospace && &sim_s[i] != sim_full) drain = i;
        }
        if(timeout == 0) return 0;
        for(i = 0, na = 0; i < sim_na; i++) if(enabled(&sim_a[i])) en[na++] = i;
        /* options: report the events, the actors in order, make room for one sender */
        k = (pending ? 1 : 0) + na + (drain >= 0 ? 1 : 0);
        if(k == 0) {
            if(sim_idle_hook && sim_idle_hook()) continue;
            if(!quiet) {
                quiet = 1;
                if(sim_quiet_hook) sim_quiet_hook();
            }
            stop_service(sim_service);
            errno = EINTR;
            return sim_stop_signal ? -1 : 1;
        }
        c = sim_mode == 0 || k == 1 ? 0 : sim_mode == 1 ? mc_deviate(k) : mc_choose(k);
        if(pending) { if(c == 0) return 0; c--; }
        if(c < na) { perform(&sim_a[en[c]]); continue; }
        mc_log("room for sending on connection %d", drain);
        sim_room(&sim_s[drain]);
    }
}

int __wrap_epoll_wait(int epfd, struct epoll_event *ev, int max, int timeout) {
    int i, n = surroundings(timeout, 0);
    if(n) return n < 0 ? -1 : 0;
    for(n = 0; n < max; n++) {
        vsock *b = NULL;
        for(i = 0; i < nsock; i++) if(reportable(&sim_s[i]) && (!b || sim_s[i].stamp < b->stamp)) b = &sim_s[i];
        if(!b) break;
        ev[n].events = level(b) & (b->mask | EPOLLERR | EPOLLHUP); ev[n].data.ptr = b->ptr; b->ready = 0;
        mc_step();
        mc_log("event%s%s%s on socket %d", ev[n].events & EPOLLIN ? " in" : "", ev[n].events & EPOLLOUT ? " out" : "", ev[n].events & EPOLLERR ? " err" : "", (int) (b - sim_s));
    }
    return n;
}
int __wrap_select(int nfds, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
    fd_set or, ow; int i, n;
    if(nfds < 0 || nfds > FD_SETSIZE) mc_fail("select called for %d descriptors", nfds);
    for(i = 0; i < nfds; i++) {
        vsock *s = get(i); int in = (r && FD_ISSET(i, r)) || (w && FD_ISSET(i, w)) || (e && FD_ISSET(i, e));
        if(in && (!s || !s->used || !s->open)) mc_fail("select on descriptor %d, which is not open", s ? i - SIM_FD : i);
    }
    set_r = r; set_w = w; set_n = nfds;
    n = surroundings(tv && !tv->tv_sec && !tv->tv_usec ? 0 : -1, 1);
    if(n < 0) return -1;
    FD_ZERO(&or); FD_ZERO(&ow);
    if(n == 0) for(i = 0; i < nsock; i++) {
        int k = selected(&sim_s[i]);
        if(!k) continue;
        mc_step();
        mc_log("event%s%s on socket %d", k & 1 ? " in" : "", k & 2 ? " out" : "", i);
        if(k & 1) { FD_SET(fdof(&sim_s[i]), &or); n++; }
        if(k & 2) { FD_SET(fdof(&sim_s[i]), &ow); n++; }
    }
    else n = 0;
    if(r) *r = or; if(w) *w = ow; if(e) FD_ZERO(e);
    return n;
}

int __real_close(int); int __real_fcntl(int, int, ...); int __real_epoll_ctl(int, int, int, struct epoll_event *);
int __real_setsockopt(int, int, int, const void *, socklen_t);
FILE *__real_fopen(const char *, const char *); DIR *__real_opendir(const char *);

int __wrap_epoll_create(int n) { if(epfd_open) mc_fail("a second polling descriptor is created"); epfd_open = 1; return SIM_FD + SIM_MAX; }
int __wrap_epoll_ctl(int epfd, int op, int fd, struct epoll_event *ev) {
    vsock *s = get(fd);
    if(!s || !s->used) { errno = EBADF; mc_fail("epoll_ctl on descriptor %d, which is not open", fd); }
    if(!s->open) mc_fail("epoll_ctl on a closed descriptor (socket %d)", fd - SIM_FD);
    if(op == EPOLL_CTL_ADD && sim_register_hook) { int e = sim_register_hook(sim_registers++); if(e) { mc_log("epoll_ctl fails (%d)", e); errno = e; return -1; } }
    if(op == EPOLL_CTL_ADD) { if(s->epoll) { errno = EEXIST; return -1; } s->epoll = 1; s->mask = ev->events; s->ptr = ev->data.ptr; wake(s); }
    else if(op == EPOLL_CTL_MOD) { if(!s->epoll) { errno = ENOENT; return -1; } s->mask = ev->events; s->ptr = ev->data.ptr; wake(s); }
    else { if(!s->epoll) { errno = ENOENT; return -1; } s->epoll = 0; }
    return 0;
}
static int setup(const char *call) { int e = sim_setup_hook ? sim_setup_hook(call, sim_setups++) : 0; if(e) { mc_log("%s fails (%d)", call, e); errno = e; } return e; }
int __wrap_socket(int a, int b, int c) { vsock *s; if(setup("socket")) return -1; s = fresh(0); give(s); return fdof(s); }
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t l) {
    char t[80] = "?";
    if(!get(fd) || !get(fd)->open) mc_fail("bind on a closed descriptor");
    if(setup("bind")) return -1;
    if(a->sa_family == AF_INET && l == sizeof(struct sockaddr_in)) { const struct sockaddr_in *i = (void *) a; inet_ntop(AF_INET, &i->sin_addr, t, 60); sprintf(t + strlen(t), " %d", ntohs(i->sin_port)); }
    if(a->sa_family == AF_INET6 && l == sizeof(struct sockaddr_in6)) { const struct sockaddr_in6 *i = (void *) a; inet_ntop(AF_INET6, &i->sin6_addr, t, 60); sprintf(t + strlen(t), " %d", ntohs(i->sin6_port)); }
    snprintf(sim_bound + strlen(sim_bound), sizeof sim_bound - strlen(sim_bound), "%s%s", sim_bound[0] ? ", " : "", t);
    return 0;
}
int __wrap_listen(int fd, int n) { vsock *s = get(fd); if(setup("listen")) return -1; if(s) { s->type = 1; } return 0; }
int __wrap_setsockopt(int fd, int l, int o, const void *v, socklen_t n) {
    vsock *s = get(fd);
    if(!s) return __real_setsockopt(fd, l, o, v, n);
    if(!s->open) mc_fail("setsockopt on a closed descriptor");
    if(s->type == 0 && !s->backend && (o == SO_REUSEADDR || l == IPPROTO_IPV6) && setup("setsockopt")) return -1;
    return 0;
}
int __wrap_fcntl(int fd, int cmd, ...) {
    va_list a; long v; va_start(a, cmd); v = va_arg(a, long); va_end(a);
    if(get(fd)) return 0;
    return __real_fcntl(fd, cmd, v);
}
int __wrap_accept(int fd, struct sockaddr *addr, socklen_t *len) {
    vsock *l = get(fd), *s; int i; struct sockaddr_in in;
    if(!l || !l->open) mc_fail("accept on a closed descriptor");
    if(nbacklog == 0) { errno = EAGAIN; return -1; }
    if(sim_accept_hook) { int e = sim_accept_hook(sim_accepts++); if(e) { if(e == ECONNABORTED) { sim_s[backlog[0]].rst = 1; for(i = 1; i < nbacklog; i++) backlog[i - 1] = backlog[i]; nbacklog--; } errno = e; mc_log("accept fails (%d)", e); return -1; } }
    if(sim_accept_limit == 0) { sim_accept_limit = -1; errno = EMFILE; return -1; }
    s = &sim_s[backlog[0]];
    for(i = 1; i < nbacklog; i++) backlog[i - 1] = backlog[i];
    nbacklog--;
    s->accepted = 1; give(s);
    memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_addr.s_addr = htonl(INADDR_LOOPBACK); in.sin_port = htons(40000);
    if(addr && len) { socklen_t n = *len < sizeof in ? *len : sizeof in; memcpy(addr, &in, n); *len = n; }
    return fdof(s);
}
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t n) {
    vsock *s = get(fd);
    if(!s || !s->open) mc_fail("connect on a closed descriptor");
    s->port = ntohs(((struct sockaddr_in *) a)->sin_port);
    if(sim_connect_hook == NULL || sim_connect_hook(s, s->port) < 0) { errno = ECONNREFUSED; mc_log("connection to port %d refused", s->port); return -1; }
    s->type = 2; s->backend = 1; s->accepted = 1; s->order = sim_nbackends++;
    mc_log("connection to port %d on socket %d", s->port, (int) (s - sim_s));
    return 0;
}
ssize_t __wrap_recv(int fd, void *buf, size_t len, int flags) {
    vsock *s = get(fd); size_t n; int lim;
    if(!s || !s->used || !s->open) mc_fail("recv on a closed descriptor (%d)", fd - SIM_FD);
    s->recvs++;
    lim = sim_recv_hook ? sim_recv_hook(s, len) : (int) len;
    if(lim == -2) { errno = ECONNRESET; return -1; }
    if(lim == -1) { errno = EAGAIN; wake(s); return -1; }
    if(s->rst) { errno = ECONNRESET; return -1; }
    n = s->inlen - s->inpos;
    if(n == 0) { if(s->eof) return 0; errno = EAGAIN; return -1; }
    if(n > len) n = len;
    if(n > (size_t) lim) n = lim;
    memcpy(buf, s->in + s->inpos, n); s->inpos += n;
    return n;
}
ssize_t __wrap_send(int fd, const void *buf, size_t len, int flags) {
    vsock *s = get(fd); size_t n = len; int lim; char hex[300];
    if(!s || !s->used || !s->open) mc_fail("send on a closed descriptor (%d)", fd - SIM_FD);
    s->sends++;
    if(s->rst) { errno = ECONNRESET; return -1; }
    if(s->nospace) { errno = EAGAIN; return -1; }
    if(sim_send_hook && len > 0) {
        lim = sim_send_hook(s, buf, len);
        if(lim == -2) { s->rst = 1; wake(s); errno = EPIPE; mc_log("send on socket %d: broken pipe", fd - SIM_FD); return -1; }
        if(lim < 0) { s->nospace = 1; errno = EAGAIN; mc_log("send on socket %d: would block", fd - SIM_FD); return -1; }
        if((size_t) lim < len) { n = lim; s->nospace = 1; }
    }
    grow(&s->out, &s->outcap, s->outlen + n);
    memcpy(s->out + s->outlen, buf, n); s->outlen += n;
    if(mc_verbose) { mc_hex(hex, sizeof hex, buf, n); mc_log("server sends %zu of %zu bytes on socket %d: %s", n, len, fd - SIM_FD, hex); }
    return n;
}
int __wrap_close(int fd) {
    vsock *s = get(fd);
    if(fd == SIM_FD + SIM_MAX) { if(!epfd_open) mc_fail("the polling descriptor is closed twice"); epfd_open = 0; return 0; }
    if(!s) return __real_close(fd);
    if(!s->used || !s->open) mc_fail("descriptor of socket %d is closed twice", fd - SIM_FD);
    s->open = 0; s->epoll = 0; s->ready = 0;
    mc_log("server closes socket %d", fd - SIM_FD);
    return 0;
}
struct hostent *__wrap_gethostbyname(const char *name) {
    static struct hostent h; static char a[4] = { 127, 0, 0, 1 }; static char *list[2] = { a, NULL };
    snprintf(sim_resolved, sizeof sim_resolved, "%s", name);
    if(strncmp(name, "backend", 7) != 0) return NULL;
    h.h_name = "backend"; h.h_addrtype = AF_INET; h.h_length = 4; h.h_addr_list = list;
    return &h;
}
long sim_later;
time_t __wrap_time(time_t *t) { if(t) *t = 1000000000 + sim_later; return 1000000000 + sim_later; }
FILE *__wrap_fopen(const char *p, const char *m) {
    if(running && sim_nopened < 256) snprintf(sim_opened[sim_nopened++], 1200, "%s", p);
    if(running && sim_open_hook) { int e = sim_open_hook(sim_files++, p); if(e) { errno = e; mc_log("opening %s fails", p); return NULL; } }
    return __real_fopen(p, m);
}
DIR *__wrap_opendir(const char *p) {
    if(running && sim_nopened < 256) snprintf(sim_opened[sim_nopened++], 1200, "%s", p);
    if(running && sim_open_hook) { int e = sim_open_hook(sim_files++, p); if(e) { errno = e; mc_log("opening %s fails", p); return NULL; } }
    return __real_opendir(p);
}

/* --- the site -------------------------------------------------------- */
static char big[SIM_BIG];
const char *sim_big(void) { return big; }
void sim_file(const char *path, const void *data, size_t len) {
    FILE *f = __real_fopen(path, "wb"); struct timespec ts[2] = { { 1000000000, 0 }, { 1000000000, 0 } };
    if(!f) mc_fail("internal: cannot write %s", path);
    fwrite(data, 1, len, f); fclose(f);
    utimensat(AT_FDCWD, path, ts, 0);
}
static int verbose;
void sim_site(void) {
    static int done; static const char listing[] =
        "[${out value=folder_path /}]${foreach item=entry from=entries}${out value=entry.name /};${/foreach}";
    static const char error[] = "<${out value=error_code /}|${out value=error_message /}>";
    char dir[64]; size_t i;
    if(done) return;
    done = 1; verbose = mc_verbose;
    snprintf(dir, sizeof dir, "w%d", getpid());
    mkdir(dir, 0755);
    if(chdir(dir)) mc_fail("internal: chdir");
    mkdir("www", 0755); mkdir("www/dir", 0755); mkdir("www/sub", 0755); mkdir("www/templates", 0755); mkdir("www/secret", 0755);
    mkdir("cfg", 0755); mkdir("mods", 0755); mkdir("www/a b", 0755); mkdir("alt", 0755); mkdir("alt/in", 0755);
    for(i = 0; i < SIM_BIG; i++) big[i] = "0123456789abcdefghijklmnopqrstuvwxyz\n"[(i * 7 + i / 911) % 37];
    sim_file("www/hello.txt", "hello world\n", 12);
    sim_file("www/empty.txt", "", 0);
    sim_file("www/one.bin", "\0", 1);
    sim_file("www/noext", "plain", 5);
    sim_file("www/big.bin", big, SIM_BIG);
    sim_file("www/dir/a.txt", "file a", 6);
    sim_file("www/dir/b.html", "<b>", 3);
    sim_file("www/sub/index.html", "<sub index>", 11);
    sim_file("www/a b/c.txt", "space", 5);
    sim_file("www/secret/s.txt", "top secret", 10);
    sim_file("www/templates/listing.html.tpl", listing, sizeof listing - 1);
    sim_file("www/templates/error.html.tpl", error, sizeof error - 1);
    sim_file("alt/x.txt", "alternative", 11);
    sim_file("alt/in/y.txt", "inner", 5);
    sim_file("outside.txt", "OUTSIDE", 7);
    sim_file("cfg/passwd", "user:pass\nroot:toor\n", 20);
    /* what the C library allocates once and for all is not to be counted */
    {   time_t t = 1000000000; struct tm tm = *localtime(&t); char x[64]; DIR *d; mktime(&tm); strftime(x, sizeof x, "%c %Z", &tm); gmtime(&t);
        d = __real_opendir("www"); if(d) { readdir(d); closedir(d); } }
    if(!mc_verbose) { FILE *f = freopen("/dev/null", "w", stdout); (void) f; }
    { static char buffer[4096]; setvbuf(stdout, buffer, _IOFBF, sizeof buffer); setvbuf(stderr, NULL, _IONBF, 0); }
}
static char sim_ini[8192];
size_t sim_idle_kept;
void sim_config(const char *ini) {
    if(strcmp(sim_ini, ini) == 0) return;
    snprintf(sim_ini, sizeof sim_ini, "%s", ini);
    sim_file("cfg/viriatum.ini", ini, strlen(ini));
}

/* when one execution is replayed the blocks that remain are listed */
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));
static struct live { const volatile void *p; size_t n; void *bt[8]; int k; } live[20000]; static int nlive, tracing, inhook;
static void on_malloc(const volatile void *p, size_t n) {
    if(!tracing || inhook || nlive == 20000) return;
    inhook = 1; live[nlive].p = p; live[nlive].n = n; live[nlive].k = backtrace(live[nlive].bt, 8); nlive++; inhook = 0;
}
static void on_free(const volatile void *p) {
    int i; if(!tracing || inhook) return;
    for(i = nlive - 1; i >= 0; i--) if(live[i].p == p) { live[i] = live[--nlive]; break; }
}
static void list_live(void) {
    int i;
    tracing = 0;
    for(i = 0; i < nlive; i++) { fprintf(stderr, "--- %zu bytes remain, allocated from:\n", live[i].n); backtrace_symbols_fd(live[i].bt, live[i].k, 2); }
}
static size_t once(void) {
    struct service_t *service; struct hash_map_t *arguments; size_t before; int i;
    before = mc_allocated() - sim_bytes;
    create_service(&service, (unsigned char *) "viriatum", (unsigned char *) "viriatum");
    sim_bound[0] = 0;
    process_arguments(sim_argc, sim_argv, &arguments);
    sim_service = service;
    running = 1;
    load_specifications(service);
    load_options_service(service, arguments);
    calculate_options_service(service);
    calculate_locations_service(service);
    sim_start_result = start_service(service);
    running = 0;
    delete_service(service);
    delete_arguments(arguments);
    sim_service = NULL;
    for(i = 0; i < nsock; i++) if(sim_s[i].open && (sim_s[i].type != 2 || sim_s[i].accepted))
        mc_fail("the server left socket %d open after it stopped", i);
    if(epfd_open) mc_fail("the server left the polling descriptor open after it stopped");
    if(sim_end_hook) sim_end_hook();
    return mc_allocated() - sim_bytes - before;
}
int sim_run(void) {
    /* what an idle run of the same configuration retains is known, anything
    more was retained on behalf of a client */
    static struct { uint64_t key; size_t kept; } base[64]; static int nbase;
    uint64_t key = mc_hash(sim_ini, strlen(sim_ini), 7); int i; for(i = 1; i < sim_argc; i++) key = mc_hash_s(sim_argv[i], key); size_t kept, idle;
    for(i = 0; i < nbase && base[i].key != key; i++);
    if(i == nbase) {
        int na = sim_na, v = mc_verbose; void (*q)(void) = sim_quiet_hook, (*en)(void) = sim_end_hook; int (*h)(void) = sim_idle_hook, (*st)(const char *, int) = sim_setup_hook, (*rg)(int) = sim_register_hook;
        if(nbase == 64) nbase = i = 0;
        sim_na = 0; sim_quiet_hook = NULL; sim_end_hook = NULL; sim_setup_hook = NULL; sim_register_hook = NULL; sim_idle_hook = NULL; mc_verbose = 0;
        once(); nsock = 0; quiet = 0; waits = 0; for(int k = 0; k < 4; k++) sim_s[k].used = sim_s[k].open = sim_s[k].type = sim_s[k].accepted = 0;
        idle = once(); nsock = 0; quiet = 0; waits = 0; sim_nopened = 0; for(int k = 0; k < 4; k++) sim_s[k].used = sim_s[k].open = sim_s[k].type = sim_s[k].accepted = 0;
        sim_na = na; sim_quiet_hook = q; sim_end_hook = en; sim_setup_hook = st; sim_setups = 0; sim_register_hook = rg; sim_registers = 0; sim_idle_hook = h; mc_verbose = v;
        base[i].key = key; base[i].kept = idle; nbase = i + 1 > nbase ? i + 1 : nbase;
        sim_idle_kept = idle;
    }
    idle = base[i].kept;
    sim_idle_kept = idle;
    if(verbose) { static int hooked; void *b[2]; backtrace(b, 2); if(!hooked && __sanitizer_install_malloc_and_free_hooks) { hooked = 1; __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); } nlive = 0; tracing = 1; }
    kept = once();
    tracing = 0;
    if(sim_leaks && kept > idle && verbose) list_live();
    if(sim_leaks && kept > idle) mc_fail("%zu bytes are still allocated on behalf of the clients after the server stopped", kept - idle);
    return sim_start_result;
}
