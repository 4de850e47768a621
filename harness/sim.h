/* sim.h - the server under a simulated network.
 *
 * The whole server (service, event loop, protocol, handlers) runs in process,
 * unmodified; the socket and epoll calls are redirected at link time to the
 * simulation, in which the scenario owns every decision the environment can
 * take: when a client connects, how its bytes are cut, when events are
 * reported, how many bytes a send accepts, when a peer resets. */
#ifndef SIM_H
#define SIM_H
#include "mc.h"
#include <stddef.h>
#include <stdint.h>

#define SIM_MAX 8400
#ifdef MC_NO_EPOLL
#define SIM_FD 200 /* must fit the sets of select */
#else
#define SIM_FD 1000
#endif

typedef struct vsock {
    int used, type;                 /* type 1 listening, 2 connection, 0 fresh */
    int open;                       /* open on the side of the server */
    int accepted;                   /* the server took it (or created it) */
    int backend;                    /* created by the server with connect */
    char *in; size_t inlen, inpos, incap;
    int eof, rst;                   /* what the peer did after the bytes in `in` */
    char *out; size_t outlen, outcap;
    int nospace;                    /* the last send was short, waits for room */
    int fd, epoll, ready; uint32_t mask; void *ptr; long stamp;
    int sends, recvs;
    int port, order;                /* of a backend: where the server connected to, and when */
} vsock;

typedef struct step { char op; const char *data; size_t len; int n; } step;
/* an actor is a script of steps on one client connection:
 *  'c' connect, 's' send data, 'e' half close (EOF), 'r' reset,
 *  'w' wait until n complete responses were received, 'p' pass (nothing),
 *  'W' wait until the server closed the connection
 *  'm' n other clients connect and send data, 'x' all clients send data (n 0), half close (1), reset (2), a third sends and the others reset (3)
 * or on a backend, the n-th connection the server makes:
 *  'b' accept it
 * or on both: 'q' wait until n complete messages were received (sim_request_hook),
 *  'd' let sim_data_hook send, 'f' set sim_flag to n, 'F' wait until sim_flag is n */
typedef struct actor { step st[64]; int n, at, sock; } actor;

extern vsock sim_s[SIM_MAX];
extern int sim_reuse, sim_registers; extern int (*sim_register_hook)(int n);
extern actor sim_a[8];
extern int sim_na;
extern int sim_mode;                /* 0 in order, 1 deviations, 2 every interleaving */
extern int sim_accept_limit;        /* -1: no limit */
extern int (*sim_send_hook)(vsock *s, const char *buf, size_t len); /* bytes taken, -1 full, -2 broken */
extern int (*sim_recv_hook)(vsock *s, size_t len);  /* bytes given at most, -1 would block, -2 broken */
extern vsock *sim_full;             /* the environment makes no room on this one by itself */
extern int (*sim_idle_hook)(void);  /* last resort step of the environment, 0: nothing left */
extern void (*sim_end_hook)(void);  /* the server was released, what it kept is about to be counted */
extern void (*sim_quiet_hook)(void);/* the server is idle and nothing will ever happen again */
extern int sim_nbackends, sim_flag;
extern int (*sim_request_hook)(vsock *s);           /* complete messages received by a peer */
extern void (*sim_data_hook)(vsock *s, int n);
extern int (*sim_connect_hook)(vsock *s, int port); /* 0 accepts, -1 refuses */
extern char sim_resolved[512]; /* the last name that was looked up */
extern int (*sim_accept_hook)(int n);        /* 0, or the error of the n-th accept */
extern int (*sim_open_hook)(int n, const char *path); /* 0, or the error of the n-th opening */
extern int (*sim_wait_hook)(int n);          /* 0, or the error of the n-th wait */
extern int (*sim_setup_hook)(const char *call, int n); /* 0, or the error of the n-th socket, setsockopt, bind or listen of the start */
extern int sim_setups, sim_argc; extern char **sim_argv; /* the command line of the next run */
extern char sim_bound[400];         /* where the last run listened, in order */
extern int sim_stop_at;             /* the server is told to stop at this wait */
extern int sim_waits;
extern int sim_stop_signal;         /* 1: stop by interrupting the wait */
extern struct service_t *sim_service;
extern int sim_live_connections(void);

void sim_reset(void);
actor *sim_actor(void);
void sim_add(actor *a, char op, const void *data, size_t len, int n);
void sim_put(vsock *s, const void *data, size_t len);   /* the peer sends bytes */
void sim_peer_eof(vsock *s);
void sim_peer_rst(vsock *s);
void sim_room(vsock *s);
vsock *sim_client(int actor_index);
int sim_run(void);                  /* starts the server, runs it to quiescence, releases it */
extern int sim_start_result;
extern int sim_leaks;               /* 0: the leak check of sim_run is off (for this run) */
extern size_t sim_bytes;             /* held by the simulation and the harness, not by the server */
extern size_t sim_idle_kept;        /* what a run without clients retains */

/* the site, created once per process under the working directory */
void sim_site(void);
void sim_file(const char *path, const void *data, size_t len);
void sim_config(const char *ini);   /* the configuration of the next run */
#define SIM_BIG 300007
const char *sim_big(void);

/* responses */
typedef struct resp {
    int status, keep; char *head; size_t headlen; const char *body; size_t bodylen; size_t total;
    long clen;                      /* -1 when absent */
} resp;
/* parses one response at data, 1 when complete, 0 when more is needed, -1 when malformed */
int sim_parse(const char *data, size_t len, int headreq, resp *r);
int sim_header(const resp *r, const char *name, char *out, size_t max); /* 1 when present (trimmed) */
int sim_count(vsock *s);            /* complete responses at the client */
extern long sim_later;              /* seconds since the start */
extern unsigned sim_heads;         /* which responses of client 0 have no body: they answer HEAD */

/* opened paths (relative or absolute), for containment */
extern char sim_opened[256][1200]; extern int sim_nopened;
#endif
