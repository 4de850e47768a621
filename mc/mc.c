#define _GNU_SOURCE
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAX_CHOICES 4096
#define MAX_WORKERS 16
#define SET_SIZE (1u << 22)
#define MAX_FAILS 60
#define SCEN_FAILS 5
#define MAX_SAMPLES 6
#define MSG 6000

int mc_bound, mc_thorough, mc_verbose;

typedef struct slot {               /* state of one worker, shared */
    volatile int scenario;
    volatile int len;               /* choices made by the current execution */
    uint16_t choice[MAX_CHOICES];
    uint16_t arity[MAX_CHOICES];
    uint8_t costs[MAX_CHOICES];
    volatile int failed;            /* 1: mc_fail was called, message below */
    volatile int hang;
    char msg[MSG];
    uint64_t execs, points, steps, trivial, pruned;
    volatile int done;
    volatile int capped;
    int max_depth, max_used_dev;
} slot;

typedef struct shared {
    slot slots[MAX_WORKERS];
    uint64_t states[SET_SIZE];
    uint64_t outcomes[SET_SIZE];
    uint64_t nstates, noutcomes;
    int states_full, outcomes_full;
    uint64_t scen_execs[256], scen_points[256];
    volatile int stop;
    int scen_fails[256]; volatile int scen_skip[256];
} shared;

static shared *sh;
static slot *me;
static int worker_id, workers = 8;
static const mc_scenario *scens;
static size_t nscens;

/* --- the execution in progress ------------------------------------- */
static uint16_t prefix[MAX_CHOICES];
static uint16_t prefix_arity[MAX_CHOICES];
static uint8_t prefix_cost[MAX_CHOICES];
static int prefix_len, pos, dev_used, dev_budget;
static jmp_buf escape;
static int shard_at;
static int noabort, foreign;        /* foreign: this leaf belongs to another worker */
static int replaying;               /* 1: single given vector, choices beyond are 0 */
#define LOG_CAP (64u << 20)
static char *logbuf; static volatile uint32_t *loglen;   /* shared with the parent, which reads it even after a crash */
static int exec_timeout = 20;
static uint64_t cur_trivial;

size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
size_t mc_allocated(void) {
    return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
}

uint64_t mc_hash(const void *data, size_t size, uint64_t h) {
    const unsigned char *p = data; size_t i;
    h ^= 0xcbf29ce484222325ULL + size;
    for(i = 0; i < size; i++) { h ^= p[i]; h *= 0x100000001b3ULL; h ^= h >> 29; }
    return h;
}
uint64_t mc_hash_s(const char *s, uint64_t h) { return mc_hash(s, strlen(s), h); }

static int set_add(uint64_t *set, uint64_t *n, int *full, uint64_t h) {
    uint32_t i, k;
    if(h == 0) h = 1;
    for(i = (uint32_t) (h ^ (h >> 32)) & (SET_SIZE - 1), k = 0; k < 64; k++, i = (i + 1) & (SET_SIZE - 1)) {
        uint64_t v = __atomic_load_n(&set[i], __ATOMIC_RELAXED);
        if(v == h) return 1;
        if(v == 0) {
            uint64_t z = 0;
            if(__atomic_compare_exchange_n(&set[i], &z, h, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                __atomic_add_fetch(n, 1, __ATOMIC_RELAXED); return 0;
            }
            if(z == h) return 1;
        }
    }
    *full = 1;                       /* saturated: the count is a lower bound */
    return 0;
}
void mc_state(uint64_t h) { if(sh) set_add(sh->states, &sh->nstates, &sh->states_full, h); }
void mc_outcome(uint64_t h) { if(sh) set_add(sh->outcomes, &sh->noutcomes, &sh->outcomes_full, h); }
/* 1 when the state was already entered elsewhere, by this worker or another one,
 * and the caller may drop the rest of this execution: everything reachable from
 * it is explored from there.  States on the replayed prefix are never dropped. */
int mc_visited(uint64_t h) {
    if(replaying || pos < prefix_len || pos < shard_at) return 0;
    return set_add(sh->states, &sh->nstates, &sh->states_full, h);
}
void mc_step(void) { me->steps++; }
void mc_trivial(void) { cur_trivial = 1; }
int mc_budget(void) { return dev_budget - dev_used; }

void mc_hex(char *out, size_t max, const void *data, size_t size) {
    const unsigned char *p = data; size_t i, o = 0;
    for(i = 0; i < size && o + 5 < max; i++) {
        if(p[i] >= 0x20 && p[i] < 0x7f && p[i] != '\\') out[o++] = p[i];
        else if(p[i] == '\r') { out[o++] = '\\'; out[o++] = 'r'; }
        else if(p[i] == '\n') { out[o++] = '\\'; out[o++] = 'n'; }
        else o += sprintf(out + o, "\\x%02x", p[i]);
    }
    if(i < size && o + 5 < max) { memcpy(out + o, "...", 3); o += 3; }
    out[o] = 0;
}

void mc_log(const char *fmt, ...) {
    va_list a; int n;
    if(!mc_verbose) return;
    if(LOG_CAP - *loglen < 8192) return;
    va_start(a, fmt); n = vsnprintf(logbuf + *loglen, 8000, fmt, a); va_end(a);
    if(n > 7999) n = 7999;
    *loglen += n; logbuf[(*loglen)++] = '\n'; logbuf[*loglen] = 0;
}

void mc_fail(const char *fmt, ...) {
    va_list a;
    va_start(a, fmt); vsnprintf(me->msg, MSG, fmt, a); va_end(a);
    me->failed = 1;
    _exit(3);
}

void mc_skip(void) { me->pruned++; longjmp(escape, 1); }

/* the nodes at the shard depth are dealt out to the workers by a hash of the
 * choices that lead to them, every worker walks the nodes above by itself */
static int is_mine(void) {
    int n = me->len < shard_at ? me->len : shard_at;
    uint64_t h = mc_hash(me->choice, n * sizeof(uint16_t), 77);
    return (int) ((h >> 7) % (uint64_t) workers) == worker_id;
}

static int choose(int n, int costly) {
    int v;
    if(n < 1) mc_fail("internal: choice of arity %d", n);
    if(n == 1) return 0;
    if(pos >= MAX_CHOICES) mc_fail("internal: too many choices");
    if(costly && dev_used >= dev_budget) return 0;
    if(pos < prefix_len) {
        v = prefix[pos];
        if(!replaying && (prefix_arity[pos] != n || prefix_cost[pos] != costly))
            mc_fail("internal: replay divergence at choice %d (arity %d, was %d)", pos, n, prefix_arity[pos]);
        if(v >= n) mc_fail("internal: replay divergence at choice %d (value %d of %d)", pos, v, n);
    } else v = 0;
    me->choice[pos] = v; me->arity[pos] = n; me->costs[pos] = costly;
    pos++; me->len = pos; me->points++;
    if(costly && v) dev_used++;
    if(pos == shard_at && !replaying && !noabort && !is_mine()) { foreign = 1; longjmp(escape, 1); }
    return v;
}
int mc_choose(int n) { return choose(n, 0); }
int mc_deviate(int n) { return choose(n, 1); }

static void on_alarm(int s) { (void) s; me->hang = 1; _exit(4); }

static void arm(int seconds) { alarm(seconds); }

static int run_one(const mc_scenario *s) {
    pos = 0; dev_used = 0; me->len = 0; cur_trivial = 0; foreign = 0;
    if(setjmp(escape) == 0) { s->fn(); return 1; }
    return 0;
}

/* advances the prefix to the next leaf, returns 0 when the tree is done */
static int next_prefix(int len) {
    int i, used;
    for(i = len - 1; i >= 0; i--) {
        if(me->choice[i] + 1 < me->arity[i]) break;
    }
    if(i < 0) return 0;
    memcpy(prefix, me->choice, sizeof(uint16_t) * (i + 1));
    memcpy(prefix_arity, me->arity, sizeof(uint16_t) * (i + 1));
    memcpy(prefix_cost, me->costs, i + 1);
    prefix[i]++; prefix_len = i + 1;
    (void) used;
    return 1;
}

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void set_scenario(const mc_scenario *s) {
    mc_bound = mc_thorough ? s->thorough : s->quick;
    dev_budget = mc_thorough ? s->thorough_dev : s->quick_dev;
    noabort = s->noabort;
    shard_at = s->shard_depth ? s->shard_depth : 2;
}

static void worker_loop(double deadline, int resume_scen, int resume) {
    size_t i;
    signal(SIGALRM, on_alarm);
    for(i = resume_scen; i < nscens; i++) {
        const mc_scenario *s = &scens[i];
        set_scenario(s);
        if(mc_bound < 0 || sh->scen_skip[i]) { resume = 0; continue; }
        me->scenario = (int) i;
        prefix_len = 0;
        if(resume) {                 /* skip past the execution that failed */
            resume = 0;
            if(!next_prefix(me->len)) continue;
        }
        while(1) {
            int complete;
            uint64_t p0 = me->points, s0 = me->steps;
            arm(exec_timeout);
            complete = run_one(s);
            arm(0);
            if(!foreign && is_mine()) {
                if(complete) {
                    me->execs++; me->trivial += cur_trivial;
                    __atomic_add_fetch(&sh->scen_execs[i], 1, __ATOMIC_RELAXED);
                    __atomic_add_fetch(&sh->scen_points[i], me->points - p0, __ATOMIC_RELAXED);
                }
                if(me->len > me->max_depth) me->max_depth = me->len;
                if(dev_used > me->max_used_dev) me->max_used_dev = dev_used;
                if(!next_prefix(me->len)) break;
            } else {
                me->points = p0; me->steps = s0;
                if(!next_prefix(me->len < shard_at ? me->len : shard_at)) break;
            }
            if((me->execs & 15) == 0 && now() > deadline) { me->capped = 1; goto out; }
            if(sh->stop) goto out;
            if(sh->scen_skip[i]) break;
        }
    }
out:
    me->done = 1;
    exit(0);
}

static void json_str(FILE *f, const char *s) {
    fputc('"', f);
    for(; *s; s++) {
        unsigned char c = *s;
        if(c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
        else if(c == '\n') fputs("\\n", f);
        else if(c < 0x20 || c >= 0x7f) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

/* runs one vector in a child, collects failure message and log text */
static int replay_child(int scen, const uint16_t *v, int len, int timeout, char *msg, char **log, char *errpath) {
    int st; pid_t pid; char *map;
    map = mmap(NULL, LOG_CAP + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(map == MAP_FAILED) return -1;
    loglen = (volatile uint32_t *) map; logbuf = map + 4096;
    me->failed = 0; me->hang = 0; me->msg[0] = 0;
    fflush(NULL);
    pid = fork();
    if(pid == 0) {
        const mc_scenario *s = &scens[scen];
        int efd = open(errpath, O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(efd, 2); dup2(efd, 1);
        signal(SIGALRM, on_alarm);
        set_scenario(s);
        memcpy(prefix, v, len * sizeof(uint16_t)); prefix_len = len; replaying = 1;
        mc_verbose = 1;
        alarm(timeout);
        run_one(s);
        _exit(0);
    }
    waitpid(pid, &st, 0);
    if(log) { *log = malloc(*loglen + 1); memcpy(*log, logbuf, *loglen); (*log)[*loglen] = 0; }
    munmap(map, LOG_CAP + 4096); logbuf = NULL;
    if(me->failed) { snprintf(msg, MSG, "%s", me->msg); return 1; }
    if(me->hang) { snprintf(msg, MSG, "execution did not finish within %d seconds (hang)", timeout); return 2; }
    if(WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    {   /* crash: summary line of the sanitizer report or the signal */
        FILE *f = fopen(errpath, "r"); char line[1024], sum[1024] = ""; char frames[3][256]; int nf = 0;
        if(f) {
            while(fgets(line, sizeof line, f)) {
                if(strstr(line, "ERROR: AddressSanitizer") || strstr(line, "Assertion") || strstr(line, "runtime error:"))
                    if(!sum[0]) snprintf(sum, sizeof sum, "%s", line);
                if(nf < 3 && strstr(line, "/src/") && strstr(line, "    #")) {
                    char *in = strstr(line, " in ");
                    if(in) snprintf(frames[nf++], 256, "%s", in + 4);
                }
            }
            fclose(f);
        }
        for(char *c = sum; *c; c++) if(*c == '\n') *c = ' ';
        int o = snprintf(msg, MSG, "crash: %s", sum[0] ? sum : (WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "exit"));
        for(int i = 0; i < nf; i++) { frames[i][strcspn(frames[i], "\n")] = 0; o += snprintf(msg + o, MSG - o, " | %s", frames[i]); }
    }
    return 3;
}

typedef struct fail { int scen, len, kind; uint16_t v[MAX_CHOICES]; char msg[MSG]; char *log; int confirmed; } fail;

int mc_main(int argc, char **argv, const mc_scenario *list, size_t count) {
    const char *out = NULL, *replay = NULL, *only = NULL, *tmp = getenv("TMPDIR");
    double budget = 600, t0 = now();
    int i, nfails = 0; fail *fails;
    pid_t pids[MAX_WORKERS]; char errpath[600], workerr[600];
    scens = list; nscens = count;
    for(i = 1; i < argc; i++) {
        if(!strcmp(argv[i], "--thorough")) mc_thorough = 1;
        else if(!strcmp(argv[i], "--quick")) mc_thorough = 0;
        else if(!strcmp(argv[i], "--out")) out = argv[++i];
        else if(!strcmp(argv[i], "--replay")) replay = argv[++i];
        else if(!strcmp(argv[i], "--only")) only = argv[++i];
        else if(!strcmp(argv[i], "--budget")) budget = atof(argv[++i]);
        else if(!strcmp(argv[i], "--workers")) workers = atoi(argv[++i]);
        else if(!strcmp(argv[i], "--timeout")) exec_timeout = atoi(argv[++i]);
        else { fprintf(stderr, "unknown argument %s\n", argv[i]); return 2; }
    }
    if(!tmp) tmp = "/tmp";
    if(workers > MAX_WORKERS) workers = MAX_WORKERS;
    sh = mmap(NULL, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if(sh == MAP_FAILED) { perror("mmap"); return 2; }
    snprintf(errpath, sizeof errpath, "%s/mc-err-%d", tmp, getpid());
    snprintf(workerr, sizeof workerr, "%s/mc-werr-%d", tmp, getpid());
    if(only) {
        mc_scenario *copy = malloc(sizeof(mc_scenario) * count); size_t n = 0, k;
        for(k = 0; k < count; k++) if(strstr(list[k].name, only)) copy[n++] = list[k];
        scens = copy; nscens = n;
    }
    if(replay) {
        /* "scenario tier c0,c1,..." */
        char name[128], tier[32]; char *vec = malloc(1 << 16), *p; uint16_t v[MAX_CHOICES]; int len = 0, s, rc; char *log = NULL; char msg[MSG];
        FILE *f = fopen(replay, "r");
        vec[0] = 0;
        if(!f || fscanf(f, "%127s %31s %65000s", name, tier, vec) < 2) { fprintf(stderr, "bad replay file\n"); return 2; }
        fclose(f);
        mc_thorough = !strcmp(tier, "thorough");
        for(p = vec; *p && *p != '-'; ) { v[len++] = (uint16_t) strtoul(p, &p, 10); if(*p == ',') p++; }
        for(s = 0; s < (int) count; s++) if(!strcmp(list[s].name, name)) break;
        if(s == (int) count) { fprintf(stderr, "unknown scenario %s\n", name); return 2; }
        scens = list; nscens = count;
        me = &sh->slots[0];
        rc = replay_child(s, v, len, 120, msg, &log, errpath);
        if(log) fputs(log, stdout);
        {   FILE *e = fopen(errpath, "r"); char line[2048]; if(e) { while(fgets(line, sizeof line, e)) fputs(line, stderr); fclose(e); } }
        unlink(errpath);
        if(rc) { printf("FAILED: %s\n", msg); return 1; }
        printf("PASSED\n"); return 0;
    }
    fails = calloc(MAX_FAILS + 1, sizeof(fail));
    fflush(NULL);
    for(i = 0; i < workers; i++) {
        worker_id = i; me = &sh->slots[i];
        pids[i] = fork();
        if(pids[i] == 0) {
            int efd = open(workerr, O_CREAT | O_APPEND | O_WRONLY, 0600);
            dup2(efd, 2); dup2(efd, 1);
            worker_loop(t0 + budget, 0, 0);
        }
    }
    int alive = workers, lost = 0;
    while(alive > 0) {
        int st, w; pid_t p = waitpid(-1, &st, 0);
        if(p < 0) break;
        for(w = 0; w < workers && pids[w] != p; w++);
        if(w == workers) continue;
        me = &sh->slots[w]; worker_id = w;
        if(me->done) { alive--; continue; }
        /* the worker stopped in the middle of an execution */
        if(nfails >= MAX_FAILS) { sh->stop = 1; alive--; lost = 1; continue; }
        fail *f = &fails[nfails];
        f->scen = me->scenario; f->len = me->len; f->kind = me->failed ? 1 : me->hang ? 2 : 3;
        memcpy(f->v, me->choice, sizeof(uint16_t) * me->len);
        snprintf(f->msg, MSG, "%s", me->failed ? me->msg : me->hang ? "hang" : "crash");
        me->failed = 0; me->hang = 0;
        /* a crash in a part of the tree dealt to another worker is found there too */
        {
            int dup = 0, k;
            for(k = 0; k < nfails; k++)
                if(fails[k].scen == f->scen && fails[k].len == f->len && !memcmp(fails[k].v, f->v, sizeof(uint16_t) * f->len)) dup = 1;
            if(!dup) {
                nfails++;
                /* a scenario that failed this often is not explored further */
                if(++sh->scen_fails[f->scen] >= SCEN_FAILS) { sh->scen_skip[f->scen] = 1; lost = 1; }
            }
        }
        if(nfails >= MAX_FAILS) { sh->stop = 1; alive--; lost = 1; continue; }
        pids[w] = fork();
        if(pids[w] == 0) {
            int efd = open(workerr, O_CREAT | O_APPEND | O_WRONLY, 0600);
            dup2(efd, 2); dup2(efd, 1);
            worker_loop(t0 + budget, me->scenario, 1);
        }
    }
    /* every failure is replayed, alone, twice, before it is reported */
    uint64_t execs = 0, points = 0, steps = 0, trivial = 0, pruned = 0; int capped = lost, depth = 0, useddev = 0;
    for(i = 0; i < workers; i++) {
        slot *s = &sh->slots[i];
        execs += s->execs; points += s->points; steps += s->steps; trivial += s->trivial; pruned += s->pruned;
        if(s->capped) capped = 1;
        if(s->max_depth > depth) depth = s->max_depth;
        if(s->max_used_dev > useddev) useddev = s->max_used_dev;
    }
    me = &sh->slots[workers < MAX_WORKERS ? workers : MAX_WORKERS - 1];
    int confirmed = 0, turn, patience = exec_timeout + 10 < 60 ? exec_timeout + 10 : 60;
    /* executions that do not end take long to confirm: one of them is enough */
    for(turn = 0; turn < 2; turn++) for(i = 0; i < nfails; i++) {
        char m1[MSG], m2[MSG]; char *log = NULL; int r1, r2;
        if(confirmed >= 16) break;
        if((fails[i].kind == 2) != turn || (turn && confirmed)) continue;
        r1 = replay_child(fails[i].scen, fails[i].v, fails[i].len, patience, m1, &log, errpath);
        r2 = r1 ? replay_child(fails[i].scen, fails[i].v, fails[i].len, patience, m2, NULL, errpath) : 0;
        fails[i].confirmed = r1 && r2;
        if(fails[i].confirmed) { confirmed++; snprintf(fails[i].msg, MSG, "%s", m1); }
        fails[i].log = log;
    }
    /* samples: the first and a few later executions of every scenario, replayed with logging */
    FILE *f = out ? fopen(out, "w") : stdout;
    if(!f) { perror("out"); return 2; }
    fprintf(f, "{\"tier\":\"%s\",\"executions\":%llu,\"choice_points\":%llu,\"steps\":%llu,\"trivial\":%llu,\"pruned\":%llu,"
        "\"states\":%llu,\"states_saturated\":%s,\"outcomes\":%llu,\"capped\":%s,\"max_depth\":%d,\"max_deviations\":%d,\"wall_s\":%.2f,\n\"scenarios\":[",
        mc_thorough ? "thorough" : "quick", (unsigned long long) execs, (unsigned long long) points, (unsigned long long) steps,
        (unsigned long long) trivial, (unsigned long long) pruned, (unsigned long long) sh->nstates, sh->states_full ? "true" : "false",
        (unsigned long long) sh->noutcomes, capped ? "true" : "false", depth, useddev, now() - t0);
    int nsamples = 0, first = 1;
    for(i = 0; i < (int) nscens; i++) {
        set_scenario(&scens[i]); if(mc_bound < 0) continue;
        fprintf(f, "%s{\"name\":", first ? "" : ",\n"); first = 0; json_str(f, scens[i].name);
        fprintf(f, ",\"what\":"); json_str(f, scens[i].what ? scens[i].what : "");
        fprintf(f, ",\"bound\":%d,\"deviations\":%d,\"executions\":%llu,\"choice_points\":%llu}", mc_bound, dev_budget,
            (unsigned long long) sh->scen_execs[i], (unsigned long long) sh->scen_points[i]);
    }
    fprintf(f, "],\n\"samples\":[");
    first = 1;
    for(i = 0; i < (int) nscens && nsamples < MAX_SAMPLES; i++) {
        char m[MSG]; char *log = NULL; uint16_t v[1] = { 0 }; int k;
        set_scenario(&scens[i]); if(mc_bound < 0) continue;
        /* the last execution a worker completed in this scenario is a varied sample */
        slot *s = NULL; for(k = 0; k < workers; k++) if(sh->slots[k].scenario == i && sh->slots[k].done && (!s || sh->slots[k].len > s->len)) s = &sh->slots[k];
        if(replay_child(i, s ? s->choice : v, s ? s->len : 0, 60, m, &log, errpath) == 0 && log) {
            if(strlen(log) > 1500) strcpy(log + 1490, "...");
            fprintf(f, "%s{\"scenario\":", first ? "" : ",\n"); first = 0; json_str(f, scens[i].name);
            fprintf(f, ",\"choices\":\""); for(k = 0; s && k < s->len; k++) fprintf(f, "%s%d", k ? " " : "", s->choice[k]);
            fprintf(f, "\",\"trace\":"); json_str(f, log); fprintf(f, "}"); nsamples++;
        }
        free(log);
    }
    fprintf(f, "],\n\"failures\":[");
    for(i = 0, first = 1; i < nfails; i++) {
        int k;
        if(!fails[i].log && !fails[i].confirmed) continue;
        fprintf(f, "%s{\"scenario\":", first ? "" : ",\n"); first = 0; json_str(f, scens[fails[i].scen].name);
        fprintf(f, ",\"kind\":\"%s\",\"confirmed\":%s,\"choices\":\"", fails[i].kind == 1 ? "check" : fails[i].kind == 2 ? "hang" : "crash", fails[i].confirmed ? "true" : "false");
        for(k = 0; k < fails[i].len; k++) fprintf(f, "%s%d", k ? "," : "", fails[i].v[k]);
        fprintf(f, "\",\"message\":"); json_str(f, fails[i].msg);
        fprintf(f, ",\"log\":"); json_str(f, fails[i].log ? fails[i].log : ""); fprintf(f, "}");
    }
    fprintf(f, "],\n\"failures_found\":%d}\n", nfails);
    if(out) fclose(f);
    unlink(errpath); unlink(workerr);
    return confirmed ? 1 : 0;
}
