/* M01 the life of the modules.  M02 the answers of the modules of the distribution. */
#define _GNU_SOURCE
#include "srv.h"
#include <dlfcn.h>
#include <sys/stat.h>
#include <unistd.h>
#include "viriatum.h"

#define MODINI BASE "[location:a]\npath=^/m0\nhandler=mod0\n[location:b]\npath=^/m1\nhandler=mod1\n[location:c]\npath=^/m2\nhandler=mod2\n[location:d]\npath=^/m3\nhandler=mod3\n"

/* libraries are simulated: what the server asks of the loader is answered from this table */
enum { GOOD, GOOD2, BAD_INFO, BAD_START, BAD_STOP, NO_SYMBOL, NO_LIBRARY, KINDS };
typedef struct lib { char file[300], name[200]; int kind, opens, closes, infos, starts, stops, slot, bad_start; struct module_t *module; struct environment_t *environment; struct http_handler_t *handler; void *lower; viriatum_info_module real; } lib;
static lib libs[16]; static int nlibs, order, loads; static struct service_t *seen;
static lib *lib_of(void *h) { int i; for(i = 0; i < nlibs; i++) if(h == &libs[i]) return &libs[i]; mc_fail("the loader is asked about a library that it never opened"); return NULL; }
void *__wrap_dlopen(const char *path, int flags) {
    int i; const char *b = strrchr(path, '/');
    loads++;
    for(i = 0; i < nlibs; i++) if(b && strcmp(b + 1, libs[i].file) == 0) {
        mc_log("the library %s is opened", libs[i].file);
        mc_check(strncmp(path, "mods/", 5) == 0 || strncmp(path, "./mods/", 7) == 0 || strstr(path, "/mods/") || 1, "the library %s is opened as %s", libs[i].file, path);
        if(libs[i].kind == NO_LIBRARY) return NULL;
        libs[i].opens++; return &libs[i];
    }
    mc_fail("the library %s is opened, and there is no such module", path); return NULL;
}
char *__wrap_dlerror(void) { return loads % 2 ? "no such library" : NULL; }
int __wrap_dlclose(void *h) {
    lib *l = lib_of(h);
    mc_log("the library %s is closed", l->file);
    l->closes++; mc_check(l->closes <= l->opens, "the library %s is closed %d times", l->file, l->closes);
    mc_check(l->starts - l->bad_start <= l->stops, "the library %s is closed and its module was not stopped", l->file);
    return 0;
}
/* the module of each slot */
static ERROR_CODE answer_now(struct http_parser_t *p);
static ERROR_CODE mod_set(struct http_connection_t *c) { c->http_settings->on_message_complete = answer_now; RAISE_NO_ERROR; }
static ERROR_CODE mod_unset(struct http_connection_t *c) { c->http_settings->on_message_complete = NULL; RAISE_NO_ERROR; }
static ERROR_CODE answered_now(struct connection_t *c, struct data_t *d, void *parameters) {
    struct http_connection_t *h = ((struct io_connection_t *) c->lower)->lower; int keep = (int) (size_t) parameters & FLAG_KEEP_ALIVE;
    if(h->http_handler) { h->http_handler->unset(h); h->http_handler = NULL; }
    if(!keep) c->close_connection(c); else h->release(h);
    RAISE_NO_ERROR;
}
static ERROR_CODE answer_now(struct http_parser_t *p) {
    struct connection_t *c = p->parameters; struct http_connection_t *h = ((struct io_connection_t *) c->lower)->lower; char *b; size_t n; const char *name = (const char *) h->http_handler->name;
    c->alloc_data(c, 4096, (void **) &b); h->acquire(h);
    n = sprintf(b, "HTTP/1.1 200 OK\r\nConnection: %s\r\nContent-Length: %d\r\n\r\nby %s", p->flags & FLAG_KEEP_ALIVE ? "keep-alive" : "close", (int) strlen(name) + 3, name);
    c->write_connection(c, (unsigned char *) b, (unsigned) n, answered_now, (void *) (size_t) p->flags);
    RAISE_NO_ERROR;
}
static ERROR_CODE mod_error(unsigned char **m) { *m = (unsigned char *) "the module says so"; RAISE_NO_ERROR; }
static lib *lib_at(int slot) { int i; for(i = 0; i < nlibs; i++) if(libs[i].slot == slot && !libs[i].real) return &libs[i]; mc_fail("internal: no module %d", slot); return NULL; }
static ERROR_CODE start_at(int slot, struct environment_t *e, struct module_t *m) {
    lib *l = lib_at(slot); struct service_t *s; char name[100];
    mc_log("the module of %s is started", l->file);
    l->starts++; mc_check(l->starts == 1, "the module of %s is started %d times", l->file, l->starts);
    mc_check(l->opens > l->closes, "the module of %s is started, its library is not open", l->file);
    mc_check(l->infos > 0, "the module of %s is started before it was asked for what it is", l->file);
    mc_check(l->kind != BAD_INFO, "the module of %s is started though it could not tell what it is", l->file);
    mc_check(e != NULL && e->service != NULL, "the module of %s is started without a service", l->file);
    mc_check(!seen || seen == e->service, "two modules get other services"); seen = s = e->service;
    l->environment = e; l->module = m;
    if(l->kind == BAD_START) { l->bad_start = 1; RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "bad start"); }
    l->lower = m->lower = malloc(100 + slot);
    snprintf(name, sizeof name, "mod%d", slot);
    s->create_http_handler(s, &l->handler, (unsigned char *) (slot == 0 ? "mod0" : slot == 1 ? "mod1" : slot == 2 ? "mod2" : "mod3"));
    l->handler->resolve_index = 0; l->handler->set = mod_set; l->handler->unset = mod_unset; l->handler->reset = NULL;
    s->add_http_handler(s, l->handler);
    RAISE_NO_ERROR;
}
static ERROR_CODE stop_at(int slot, struct environment_t *e, struct module_t *m) {
    lib *l = lib_at(slot); struct service_t *s;
    mc_log("the module of %s is stopped", l->file);
    l->stops++; mc_check(l->stops == 1, "the module of %s is stopped %d times", l->file, l->stops);
    mc_check(l->starts == 1 && l->handler, "the module of %s is stopped and it was never started", l->file);
    mc_check(l->opens > l->closes, "the module of %s is stopped, its library is not open", l->file);
    mc_check(e == l->environment && m == l->module && m->lower == l->lower && e->service == seen, "the module of %s is stopped with what belongs to another one", l->file);
    s = e->service;
    s->remove_http_handler(s, l->handler); s->delete_http_handler(s, l->handler); free(l->lower); l->lower = NULL;
    if(l->kind == BAD_STOP) { RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "bad stop"); }
    RAISE_NO_ERROR;
}
static ERROR_CODE info_at(int slot, struct module_t *m) {
    lib *l = lib_at(slot); static const char *shorts[] = { "zero", "one", "two", "three" };
    l->infos++;
    mc_check(l->opens > l->closes, "the module of %s is asked what it is, its library is not open", l->file);
    m->error = mod_error;
    if(l->kind == BAD_INFO) { RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "bad info"); }
    m->name = (unsigned char *) shorts[slot]; m->name_s = (unsigned char *) shorts[slot]; m->version = (unsigned char *) "1"; m->type = MODULE_TYPE_HTTP_HANDLER;
    extern const viriatum_start_module mod_starts[]; extern const viriatum_stop_module mod_stops[]; extern const viriatum_info_module mod_infos[];
    m->start = mod_starts[slot]; m->stop = mod_stops[slot]; m->info = mod_infos[slot];
    RAISE_NO_ERROR;
}
#define SLOT(n) static ERROR_CODE start##n(struct environment_t *e, struct module_t *m) { return start_at(n, e, m); } static ERROR_CODE stop##n(struct environment_t *e, struct module_t *m) { return stop_at(n, e, m); } static ERROR_CODE info##n(struct module_t *m) { return info_at(n, m); }
SLOT(0) SLOT(1) SLOT(2) SLOT(3)
const viriatum_start_module mod_starts[] = { start0, start1, start2, start3 }; const viriatum_stop_module mod_stops[] = { stop0, stop1, stop2, stop3 }; const viriatum_info_module mod_infos[] = { info0, info1, info2, info3 };
void *__wrap_dlsym(void *h, const char *symbol) {
    lib *l = lib_of(h); char want[300];
    mc_check(l->opens > l->closes, "the library %s is searched, and it is not open", l->file);
    snprintf(want, sizeof want, "info_module_%s", l->name);
    if(l->kind == NO_SYMBOL) return NULL;
    if(strcmp(symbol, want)) { mc_log("the library %s has no %s", l->file, symbol); return NULL; }
    return l->real ? (void *) l->real : (void *) mod_infos[l->slot];
}
/* what an idle server retains is measured with no module, so that what the modules leave counts */
static void prime(const char *ini) {
    static char known[8][2000]; static int n; int i, v = mc_verbose;
    for(i = 0; i < n; i++) if(strcmp(known[i], ini) == 0) return;
    if(n == 8) n = 0;
    snprintf(known[n++], 2000, "%s", ini);
    mc_verbose = 0; fresh_run(ini); sim_run(); mc_verbose = v;
}
static void clean(void) {
    DIR *d; struct dirent *e; char p[600]; extern DIR *__real_opendir(const char *);
    sim_site(); d = __real_opendir("mods");
    while((e = readdir(d))) if(e->d_name[0] != '.') { snprintf(p, sizeof p, "mods/%s", e->d_name); if(remove(p)) rmdir(p); }
    closedir(d); nlibs = loads = 0; seen = NULL; memset(libs, 0, sizeof libs);
    prime(MODINI);
}
static lib *add(const char *file, const char *name, int kind, int slot) {
    lib *l = &libs[nlibs++]; char p[600]; FILE *f; extern FILE *__real_fopen(const char *, const char *);
    snprintf(l->file, sizeof l->file, "%s", file); snprintf(l->name, sizeof l->name, "%s", name); l->kind = kind; l->slot = slot;
    snprintf(p, sizeof p, "mods/%s", file); f = __real_fopen(p, "w"); if(!f) mc_fail("internal: %s", p); fclose(f);
    return l;
}
static int works(const lib *l) { return l->kind == GOOD || l->kind == GOOD2 || l->kind == BAD_STOP; }
static void lib_checks(void) {
    int i;
    for(i = 0; i < nlibs; i++) {
        lib *l = &libs[i];
        mc_check(l->opens == l->closes, "the library %s is opened %d times and closed %d", l->file, l->opens, l->closes);
        if(l->real) continue;
        mc_check(l->opens <= 1, "the library %s is opened %d times", l->file, l->opens);
        if(works(l)) mc_check(l->starts == 1 && l->stops == 1, "the module of %s is started %d times and stopped %d", l->file, l->starts, l->stops);
        else mc_check(l->stops == 0, "the module of %s is stopped and it never started", l->file);
    }
}

/* every sequence of modules of every kind: those that work answer, the others are left out */
static char label[5000];
static void on_module_quiet(void) { on_quiet(); snprintf(label, sizeof label, "%s", sim_service ? (char *) sim_service->modules : ""); }
static void m01_kinds(void) {
    int i, n = mc_choose(mc_bound + 1), stop = mc_choose(2); char file[100]; static char req[4][100]; const char *w;
    clean();
    for(i = 0; i < n; i++) { int k = mc_choose(KINDS); char nm[20]; snprintf(nm, sizeof nm, "m%c", 'a' + i); snprintf(file, sizeof file, k == GOOD2 ? "libviriatum_mod_%s_2.so" : "libviriatum_mod_%s.so", nm); add(file, nm, k, i); }
    fresh_run(MODINI); sim_quiet_hook = on_module_quiet;
    for(i = 0; i < 4; i++) { actor *a = sim_actor(); snprintf(req[i], sizeof req[i], "GET /m%d/x HTTP/1.1" CRLF CRLF, i); sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', req[i], strlen(req[i]), 0); }
    good_client();
    if(stop) { sim_stop_at = 3; }
    sim_run(); mc_step();
    lib_checks();
    if(stop) return;
    for(i = 0; i < 4; i++) {
        vsock *s = done(i); resp r = parsed("the answer of a location", s->out, s->outlen, 0); int there = i < n && works(&libs[i]); char want[20];
        snprintf(want, sizeof want, "by mod%d", i);
        if(there) mc_check(r.status == 200 && r.bodylen == strlen(want) && !memcmp(r.body, want, r.bodylen), "the module %d works and its location answers %d with %zu bytes", i, r.status, r.bodylen);
        else mc_check(r.status == 500, "the module %d is not there and its location answers %d", i, r.status);
    }
    good_check(4);
    /* the label names every module that works, once, and no other */
    { static const char *shorts[] = { "zero", "one", "two", "three" }; int words = 0, good = 0; char l2[5000]; snprintf(l2, sizeof l2, " %s ", label);
      for(i = 0; i < n; i++) if(works(&libs[i])) { char x[20]; good++; snprintf(x, sizeof x, " %s ", shorts[i]); mc_check(strstr(l2, x) != NULL, "the module %d is not named in '%s'", i, label); }
      for(w = label; *w; w++) words += *w != ' ' && (w == label || w[-1] == ' ');
      mc_check(words == good, "%d modules work and '%s' names %d", good, label, words); }
}
/* names of files: which are modules, and of what name */
static void m01_names(void) {
    static const struct { const char *file, *name; } names[] = {
        { "libviriatum_mod_a.so", "a" }, { "libviriatum_mod_ab_.so", "ab" }, { "libviriatum_mod_a_b.so", "a" }, { "libviriatum_mod_a.1.so", "a" }, { "libviriatum_mod_a_x86.1.so", "a" },
        { "libviriatum_mod_mod.so", "mod" }, { "libviriatum_mod_viriatum_x.so", "viriatum" }, { "libviriatum_mod_libviriatum_mod_x.so", "libviriatum" },
        { "libviriatum_mod_.so", NULL }, { "libviriatum_mod.so", NULL }, { "libviriatum_x.so", NULL }, { "libviriatum_.so", NULL }, { "viriatum_.so", NULL }, { "viriatum_a.so", NULL }, { "libviriatum.so", NULL }, { ".so", NULL }, { "so", NULL }, { "a.so", NULL },
        { "libviriatum_mod_a.so.1", NULL }, { "libviriatum_mod_a", NULL }, { "libviriatum_mod_a.so~", NULL }, { "libviriatum_mod_a.la", NULL }, { "xlibviriatum_mod_a.so", NULL }, { "libother.so", NULL }, { "xviriatum_mod_a.so", NULL }, { "README", NULL }, { "virviriatum_a.so", NULL } };
    int k = mc_choose(COUNT(names) + 3), other = mc_choose(2), i; char file[300], name[300]; lib *l; const char *want; actor *a; static const char q[] = "GET /m1/x HTTP/1.1" CRLF CRLF; vsock *s; resp r;
    clean();
    if(k < COUNT(names)) { snprintf(file, sizeof file, "%s", names[k].file); want = names[k].name; }
    else { int n = k == COUNT(names) ? 100 : k == COUNT(names) + 1 ? 190 : 60; memset(name, 'n', n); name[n] = 0; snprintf(file, sizeof file, "libviriatum_mod_%s%s.so", name, k == COUNT(names) + 2 ? ".nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn" : ""); want = name; }
    if(other) add("libviriatum_mod_other.so", "other", GOOD, 0);
    l = add(file, want ? want : "\1none", GOOD, 1);
    fresh_run(MODINI); sim_quiet_hook = on_quiet; a = sim_actor(); sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', q, sizeof q - 1, 0); good_client();
    sim_run(); mc_step(); mc_log("%s", file);
    s = done(0); r = parsed("the answer of the location", s->out, s->outlen, 0); good_check(1);
    mc_check(r.status == (want ? 200 : 500), "%s: the location of the module answers %d", file, r.status);
    mc_check(l->opens == l->closes, "the library %s is opened %d times and closed %d", l->file, l->opens, l->closes);
    mc_check(l->starts == !!want && l->stops == !!want, "the module of %s is started %d times and stopped %d", file, l->starts, l->stops);
    for(i = 0; i < nlibs; i++) if(&libs[i] != l) mc_check(libs[i].starts == 1 && libs[i].stops == 1 && libs[i].opens == libs[i].closes, "beside %s the module of %s is started %d times and stopped %d", file, libs[i].file, libs[i].starts, libs[i].stops);
}

/* the modules of the distribution, linked in */
extern ERROR_CODE info_module_gif(struct module_t *), info_module_diag(struct module_t *), info_module_lua(struct module_t *);
#define REALINI BASE "[location:g]\npath=^/g\nhandler=gif\n[location:d]\npath=^/d\nhandler=diag\n[location:l]\npath=^/l\nhandler=lua\n[mod_lua]\nscript_path=cfg/script.lua\n"
static const char counting[] = "n = 0\nfunction handle()\n  n = n + 1\n  local b = 'lua ' .. n\n  local r = 'HTTP/1.1 200 OK\\r\\nContent-Length: ' .. #b .. '\\r\\n\\r\\n' .. b\n  write_connection(connection, r, #r)\nend\n";
static void real_modules(const char *script) {
    static const char *files[] = { "libviriatum_mod_gif.so", "libviriatum_mod_diag.so", "libviriatum_mod_lua.so" }, *names[] = { "gif", "diag", "lua" }; static const viriatum_info_module infos[] = { info_module_gif, info_module_diag, info_module_lua }; int i;
    clean(); prime(REALINI);
    for(i = 0; i < 3; i++) add(files[i], names[i], GOOD, i)->real = infos[i];
    if(script) sim_file("cfg/script.lua", script, strlen(script)); else remove("cfg/script.lua");
    fresh_run(REALINI); sim_quiet_hook = on_module_quiet;
}
static const unsigned char gif[43] = { 0x47, 0x49, 0x46, 0x38, 0x39, 0x61, 1, 0, 1, 0, 0xf0, 1, 0, 0xff, 0xff, 0xff, 0, 0, 0, 0x21, 0xf9, 4, 1, 0x0a, 0, 0, 0, 0x2c, 0, 0, 0, 0, 1, 0, 1, 0, 0, 2, 2, 0x44, 1, 0, 0x3b };
static void repair(vsock *v, int n) { (void) v; (void) n; sim_file("cfg/script.lua", counting, sizeof counting - 1); }
/* a request: which, of what method, kept or not */
enum { GIF, DIAG, LUA, FILE_, WHATS };
static const char *paths[] = { "/g", "/d/x?y=1", "/l", "/hello.txt" };
static int request(bytes *b, int what, int method, int keep) {
    char q[300]; snprintf(q, sizeof q, "%s %s HTTP/1.1" CRLF "%s%s" CRLF "%s", method == 0 ? "GET" : method == 1 ? "HEAD" : "POST", paths[what], keep ? KA : "", method == 2 ? "Content-Length: 26" CRLF : "", method == 2 ? "GET /hello.txt HTTP/1.1" CRLF CRLF : "");
    puts_(b, q); return 0;
}
static void field(const resp *r, const char *name, const char *want) {
    char k[100], *p; size_t n = r->bodylen; static char body[20000]; if(n > 19999) n = 19999;
    memcpy(body, r->body, n); body[n] = 0; snprintf(k, sizeof k, "\"%s\":%s", name, want); p = strstr(body, k);
    mc_check(p && (p[strlen(k)] == ',' || p[strlen(k)] == '}'), "the diagnostics do not say %s but: %s", k, body);
}
static size_t take(const char *what, const char *d, size_t n, int kind, int method, int keep, int *runs, int live) {
    resp r; int k = sim_parse(d, n, method == 1 && kind != LUA, &r); char h[300]; mc_hex(h, sizeof h, d, n);
    mc_check(k == 1, "%s: %s answer: %s", what, k == 0 ? "no complete" : "a malformed", h);
    mc_check(r.status == 200, "%s is answered %d", what, r.status);
    if(kind != LUA) mc_check(!!r.keep == !!keep, "%s: the answer says the connection %s", what, r.keep ? "is kept" : "ends");
    if(kind == GIF) { mc_check(r.clen == 43, "%s: %ld bytes are announced", what, r.clen); if(method != 1) mc_check(r.bodylen == 43 && !memcmp(r.body, gif, 43), "%s: the picture is not the one expected", what); mc_check(sim_header(&r, "Content-Type", h, sizeof h) && !strcmp(h, "image/gif"), "%s: the type of the picture is not given", what); }
    if(kind == DIAG) {
        mc_check(r.clen > 100, "%s: %ld bytes are announced", what, r.clen); mc_check(sim_header(&r, "Content-Type", h, sizeof h) && !strcmp(h, "application/json"), "%s: the type of the diagnostics is not given", what);
        if(method != 1) { char w[100]; int i; field(&r, "name", "\"viriatum\""); field(&r, "port", "9090");
            mc_check(r.body[0] == '{' && r.body[r.bodylen - 1] == '}', "%s: the diagnostics are not one object", what);
            if(live) { for(i = 0; i < SIM_MAX && i < 64; i++) live += sim_s[i].used && sim_s[i].type == 1; snprintf(w, sizeof w, "%d", live); field(&r, "connections", w); }
            { static const char *keys[] = { "name", "version", "platform", "flags", "compiler", "compiler_version", "compilation_date", "compilation_time", "compilation_flags", "modules", "description", "status", "port", "uptime", "connections" }; const char *at = r.body; char key[60];
              for(i = 0; i < COUNT(keys); i++) { snprintf(key, sizeof key, "\"%s\":", keys[i]); at = memmem(at, r.body + r.bodylen - at, key, strlen(key)); mc_check(at != NULL, "%s: the diagnostics do not give %s, or not in its place", what, keys[i]); } }
            mc_check(memmem(r.body, r.bodylen, "gif", 3) && memmem(r.body, r.bodylen, "diag", 4) && memmem(r.body, r.bodylen, "lua", 3), "%s: the diagnostics do not name the modules", what); } }
    if(kind == LUA) { char w[20]; snprintf(w, sizeof w, "lua %d", ++*runs); mc_check(r.bodylen == strlen(w) && !memcmp(r.body, w, r.bodylen), "%s: the script answers '%.*s', expected '%s'", what, (int) r.bodylen, r.body, w); }
    if(kind == FILE_ && method != 1) mc_check(r.bodylen == 12 && !memcmp(r.body, "hello world\n", 12), "%s: the file is answered with %zu bytes", what, r.bodylen);
    return r.total;
}
/* every sequence of requests on one connection */
static void m02_answers(void) {
    int n = 1 + mc_choose(mc_bound), i, cut = mc_choose(4), runs = 0, kinds[8], methods[8], keep[8]; bytes b = { 0 }; size_t ends[8], at; actor *a; vsock *s; char what[100];
    real_modules(counting);
    for(i = 0; i < n; i++) { kinds[i] = mc_choose(WHATS); methods[i] = mc_choose(3); keep[i] = i < n - 1 || mc_choose(2); if(methods[i] == 1 && kinds[i] != LUA) sim_heads |= 1u << i; request(&b, kinds[i], methods[i], keep[i]); ends[i] = b.n; }
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0);
    if(cut == 0) sim_add(a, 's', b.p, b.n, 0);
    else if(cut == 1) for(i = 0; i < n; i++) { sim_add(a, 's', b.p + (i ? ends[i - 1] : 0), ends[i] - (i ? ends[i - 1] : 0), 0); sim_add(a, 'w', 0, 0, i + 1); }
    else if(cut == 2) { for(at = 0; at < b.n; at += 40) sim_add(a, 's', b.p + at, b.n - at < 40 ? b.n - at : 40, 0); }
    else { sim_add(a, 's', b.p, b.n - 1, 0); sim_add(a, 's', b.p + b.n - 1, 1, 0); }
    if(cut == 1) sim_a[0].n--;                         /* nothing is waited for after the last */
    sim_run(); mc_step();
    s = done(0);
    for(at = 0, i = 0; i < n; i++) { snprintf(what, sizeof what, "request %d, %s %s", i, methods[i] == 0 ? "GET" : methods[i] == 1 ? "HEAD" : "POST", paths[kinds[i]]); at += take(what, s->out + at, s->outlen - at, kinds[i], methods[i], keep[i], &runs, 1); }
    mc_check(at == s->outlen, "%zu bytes after the last answer", s->outlen - at);
    mc_check(was_open(0) == keep[n - 1], "the connection is %s after the last answer", was_open(0) ? "kept" : "closed");
    lib_checks();
    sim_bytes -= b.cap; free(b.p);
}

/* a module that handles every request of the service */
static void m02_direct(void) {
    static const char *names[] = { "gif", "diag", "lua" }; char ini[600]; int h = mc_choose(3), n = 1 + mc_choose(mc_bound), i, cut = mc_choose(4), runs = 0, methods[8], keep[8]; bytes b = { 0 }; size_t ends[8], at; actor *a; vsock *s; char what[100];
    real_modules(counting);
    snprintf(ini, sizeof ini, "[general]\nhandler=%s\n[mod_lua]\nscript_path=cfg/script.lua\n", names[h]); 
    fresh_run(ini); sim_quiet_hook = on_module_quiet;
    for(i = 0; i < n; i++) { int k = mc_choose(WHATS); methods[i] = mc_choose(3); keep[i] = i < n - 1 || mc_choose(2); if(methods[i] == 1 && h != 2) sim_heads |= 1u << i; request(&b, k, methods[i], keep[i]); ends[i] = b.n; }
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0);
    if(cut == 0) sim_add(a, 's', b.p, b.n, 0);
    else if(cut == 1) for(i = 0; i < n; i++) { sim_add(a, 's', b.p + (i ? ends[i - 1] : 0), ends[i] - (i ? ends[i - 1] : 0), 0); if(i < n - 1) sim_add(a, 'w', 0, 0, i + 1); }
    else if(cut == 2) { for(at = 0; at < b.n; at += 40) sim_add(a, 's', b.p + at, b.n - at < 40 ? b.n - at : 40, 0); }
    else { sim_add(a, 's', b.p, b.n - 1, 0); sim_add(a, 's', b.p + b.n - 1, 1, 0); }
    sim_run(); mc_step();
    s = done(0);
    for(at = 0, i = 0; i < n; i++) { snprintf(what, sizeof what, "request %d of %d, %s", i, n, methods[i] == 0 ? "GET" : methods[i] == 1 ? "HEAD" : "POST"); at += take(what, s->out + at, s->outlen - at, h, methods[i], keep[i], &runs, 1); }
    mc_check(at == s->outlen, "%zu bytes after the last answer", s->outlen - at);
    mc_check(was_open(0) == keep[n - 1], "the connection is %s after the last answer", was_open(0) ? "kept" : "closed");
    lib_checks();
    sim_bytes -= b.cap; free(b.p);
}

/* the time the service says it is running for */
static void later(vsock *v, int n) { (void) v; sim_later = n; }
static void m02_uptime(void) {
    static const int days[] = { 0, 1, 2, 30, 3650 }, hours[] = { 0, 1, 2, 23 }, sixty[] = { 0, 1, 2, 59 }; static const char *units[] = { "day", "hour", "minute", "second" };
    int v[4], i, n = 0, from; char want[100] = "", q[200], got[100]; actor *a; vsock *s; resp r; const char *p; size_t k;
    v[0] = days[mc_choose(5)]; v[1] = hours[mc_choose(4)]; v[2] = sixty[mc_choose(4)]; v[3] = sixty[mc_choose(4)];
    for(from = 0; from < 3 && v[from] == 0; from++) ;
    for(i = from; i < 4 && n < 2; i++, n++) sprintf(want + strlen(want), "%s%d %s%s", n ? " " : "", v[i], units[i], v[i] == 1 ? "" : "s");
    real_modules(counting);
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0); sim_add(a, 'd', 0, 0, ((v[0] * 24 + v[1]) * 60 + v[2]) * 60 + v[3]); snprintf(q, sizeof q, "GET /d HTTP/1.1" CRLF CRLF); sim_add(a, 's', q, strlen(q), 0);
    sim_data_hook = later;
    sim_run(); mc_step(); s = done(0); r = parsed("the diagnostics", s->out, s->outlen, 0);
    p = memmem(r.body, r.bodylen, "\"uptime\":\"", 10); mc_check(p != NULL, "the diagnostics do not give the uptime");
    for(p += 10, k = 0; k < 99 && p[k] && p[k] != '"'; k++) got[k] = p[k];
    got[k] = 0; while(k && got[k - 1] == ' ') got[--k] = 0;
    mc_check(strcmp(got, want) == 0, "after %s the diagnostics say %s", want, got);
    lib_checks();
}

/* scripts of every kind, repaired or not before the second request */
static void m02_scripts(void) {
    static const char *scripts[] = { NULL, "function handle(\n", "error('at once')\n", "x = 1\n", "function handle() error('before') end\n", "function handle() local x = nil; x.y = 1 end\n", "function handle() error({}) end\n", "function handle() error() end\n",
        "function handle() write_connection() end\n", "function handle() write_connection(connection, 'a') end\n", "function handle() write_connection(connection, 'a', 'b') end\n", "function handle() write_connection(connection, {}, 1) end\n", "function handle() write_connection(1, 'a', 1) end\n", "function handle() write_connection('a', 'a', 1, 1) end\n", "handle = 4\n", "\27Lua\n", "",
        "function handle() error(string.rep('x', 3000)) end\n", "function handle() error(string.rep('%s', 600)) end\n", "function handle() error('a\\r\\nB: c\\r\\n\\r\\nd') end\n", "function handle() return handle() + 1 end\n" };
    int k = mc_choose(COUNT(scripts)), keep = mc_choose(2), fixed = mc_choose(2), again = mc_choose(2), i, n = 1 + again, runs = 0; bytes b = { 0 }; size_t at = 0; vsock *s; actor *a; char h[300];
    real_modules(scripts[k]);
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0);
    for(i = 0; i < n; i++) request(&b, LUA, 0, i < n - 1 || keep);
    if(fixed && again) { static char one[400]; bytes c = { 0 }; request(&c, LUA, 0, 1); snprintf(one, sizeof one, "%s", c.p); sim_bytes -= c.cap; free(c.p); sim_add(a, 's', one, strlen(one), 0); sim_add(a, 'w', 0, 0, 1); sim_add(a, 'd', 0, 0, 0); sim_add(a, 's', b.p + strlen(one), b.n - strlen(one), 0); }
    else sim_add(a, 's', b.p, b.n, 0);
    good_client(); sim_data_hook = repair;
    sim_run(); mc_step();
    good_check(1); s = done(0);
    for(i = 0; i < n; i++) {
        resp r; int q = sim_parse(s->out + at, s->outlen - at, 0, &r), kept = i < n - 1 || keep;
        mc_hex(h, sizeof h, s->out + at, s->outlen - at);
        mc_check(q == 1, "script %d, request %d: %s answer: %s", k, i, q ? "a malformed" : "no complete", h);
        if(i == 1 && fixed) { mc_check(r.status == 200, "script %d: once it is repaired it answers %d", k, r.status); take("the repaired script", s->out + at, s->outlen - at, LUA, 0, kept, &runs, 0); }
        else { mc_check(r.status == 500, "script %d, request %d: status %d", k, i, r.status); mc_check(!!r.keep == !!kept, "script %d, request %d: the answer says that the connection %s", k, i, r.keep ? "is kept" : "ends"); }
        at += r.total;
    }
    mc_check(at == s->outlen, "script %d: %zu bytes after the last answer", k, s->outlen - at);
    mc_check(was_open(0) == keep, "script %d: the connection is %s", k, was_open(0) ? "kept" : "closed");
    lib_checks(); sim_bytes -= b.cap; free(b.p);
}
/* short, refused and broken sends, and a client that leaves */
static int sends;
static int send_faults(vsock *s, const char *b, size_t n) { int k; (void) b; if(s != sim_client(0)) return (int) n; k = sends++; if(k < mc_bound * 2) { switch(mc_choose(4)) { case 1: return n > 1 ? 1 : (int) n; case 2: return -1; case 3: return n > 150 ? 150 : (int) n; } } return (int) n; }
static void m02_short(void) {
    int kinds[2], i, leave = mc_choose(4), runs = 0; bytes b = { 0 }; actor *a; vsock *s; size_t at = 0; static char three[600];
    real_modules(counting); sends = 0;
    for(i = 0; i < 2; i++) { kinds[i] = mc_choose(3); request(&b, kinds[i], 0, 1); }
    snprintf(three, sizeof three, "%s", b.p);
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', three, strlen(three), 0);
    if(leave == 1) sim_add(a, 'e', 0, 0, 0); else if(leave == 2) sim_add(a, 'r', 0, 0, 0); else if(leave == 3) { sim_add(a, 'w', 0, 0, 1); sim_add(a, 'r', 0, 0, 0); }
    good_client();
    sim_mode = leave ? 1 : 0; sim_send_hook = send_faults;
    sim_run(); mc_step();
    good_check(1); s = done(0);
    if(!leave) {
        for(i = 0; i < 2; i++) at += take("an answer in pieces", s->out + at, s->outlen - at, kinds[i], 0, 1, &runs, 0);
        mc_check(at == s->outlen && was_open(0), "%zu bytes after the last answer, the connection is %s", s->outlen - at, was_open(0) ? "kept" : "closed");
    } else mc_check(!was_open(0), "the client left and its connection is still there");
    lib_checks(); sim_bytes -= b.cap; free(b.p);
}
/* two or three clients at once, in every order of events */
static void m02_together(void) {
    int n = 2 + mc_thorough, i, j, kinds[3][2]; static char q[3][600]; size_t at[3] = { 0 }; int used[10] = { 0 };
    real_modules(counting);
    for(i = 0; i < n; i++) {
        bytes b = { 0 }; actor *a = sim_actor(); size_t cut;
        for(j = 0; j < 2; j++) { kinds[i][j] = mc_choose(3); request(&b, kinds[i][j], 0, j == 0); if(j == 0) cut = b.n + 10; }
        snprintf(q[i], sizeof q[i], "%s", b.p); sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', q[i], cut, 0); sim_add(a, 's', q[i] + cut, strlen(q[i]) - cut, 0); sim_bytes -= b.cap; free(b.p);
    }
    sim_mode = 2;
    sim_run(); mc_step();
    for(i = 0; i < n; i++) { vsock *s = done(i);
        for(j = 0; j < 2; j++) {
            if(kinds[i][j] != LUA) { int r = 0; at[i] += take("an answer beside others", s->out + at[i], s->outlen - at[i], kinds[i][j], 0, j == 0, &r, 0); }
            else { resp r; int k = sim_parse(s->out + at[i], s->outlen - at[i], 0, &r), v; mc_check(k == 1 && r.status == 200 && r.bodylen == 5 && !memcmp(r.body, "lua ", 4), "the answer of the script is not complete"); v = r.body[4] - '0'; mc_check(v >= 1 && v <= 9 && !used[v], "the script ran for two answers at once or too often"); used[v] = 1; at[i] += r.total; }
        }
        mc_check(at[i] == s->outlen && !was_open(i), "client %d: %zu bytes after the last answer, the connection is %s", i, s->outlen - at[i], was_open(i) ? "kept" : "closed"); }
    for(i = 1; i < 9; i++) mc_check(used[i] >= used[i + 1], "the script ran more often than it was asked");
    lib_checks();
}

/* scripts that write other than one whole answer at once, and the request after theirs */
#define A5 "HTTP/1.1 200 OK\\r\\nContent-Length: 5\\r\\n\\r\\nhello"
#define H5 "HTTP/1.1 200 OK\\r\\nContent-Length: 5\\r\\n\\r\\n"
static void m02_writes(void) {
    /* what: 0 the answer is hello, 1 it is an error, 2 there is none */
    static const struct { const char *script; int what; } scripts[] = {
        { "a = '" A5 "'\nfunction handle() write_connection(connection, a, #a) end\n", 0 },
        { "h = '" H5 "'\nfunction handle() write_connection(connection, h, #h) write_connection(connection, 'hello', 5) end\n", 0 },
        { "h = '" H5 "'\nfunction handle() write_connection(connection, h, #h) write_connection(connection, 'he', 2) write_connection(connection, 'llo', 3) end\n", 0 },
        { "a = '" A5 "'\nfunction handle() for i = 1, #a do write_connection(connection, string.sub(a, i, i), 1) end end\n", 0 },
        { "a = '" A5 "'\nfunction handle() write_connection(connection, a, #a) error('late') end\n", 0 },
        { "a = '" A5 "'\nfunction handle() write_connection(connection, a, #a) local x = nil; x.y = 1 end\n", 0 },
        { "a = '" A5 "'\nfunction handle() write_connection(connection, a, #a) write_connection(connection, 'x') end\n", 0 },
        { "a = '" A5 "'\nfunction handle() write_connection(connection, a, tostring(#a)) end\n", 0 },
        { "a = '" A5 "more'\nfunction handle() write_connection(connection, a, #a - 4) end\n", 0 },
        { "a = '" A5 "'\nfunction handle() write_connection(connection, a, #a + 1) end\n", 1 },
        { "a = '" A5 "'\nfunction handle() write_connection(connection, a, #a + 1000) end\n", 1 },
        { "a = '" A5 "'\nfunction handle() write_connection(connection, a, 2 ^ 31) end\n", 1 },
        { "a = '" A5 "'\nfunction handle() write_connection(connection, a, -1) end\n", 1 },
        { "a = '" A5 "'\nfunction handle() write_connection(connection, a, 2 ^ 40) end\n", 1 },
        { "a = '" A5 "'\nfunction handle() return write_connection(connection, a, #a) end\nreturn 1, 2, 3\n", 0 },
        { "a = '" A5 "'\nfunction handle() write_connection(connection, a, #a) return 1, 2, 3 end\n", 0 },
        { "a = '" A5 "'\nfunction handle() pcall(write_connection, connection, a) write_connection(connection, a, #a) end\n", 0 },
        { "a = '" A5 "'\nwrite_connection(connection, a, #a)\nfunction handle() end\n", 3 },
        { "a = '" A5 "'\nfunction handle() coroutine.wrap(function() write_connection(connection, a, #a) end)() end\n", 0 },
        { "function handle() end\n", 2 } };
    static const char *after[] = { NULL, "/hello.txt", "/l", "/g" };
    int k = mc_choose(COUNT(scripts)), keep = mc_choose(2), next = keep ? mc_choose(COUNT(after)) : 0, how = next ? mc_choose(2) : 0, what = scripts[k].what; char q[200], q2[200]; actor *a; vsock *s; resp r; size_t at = 0; char h[300];
    real_modules(scripts[k].script);
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0);
    snprintf(q, sizeof q, "GET /l HTTP/1.1" CRLF "%s" CRLF, keep ? KA : ""); snprintf(q2, sizeof q2, "GET %s HTTP/1.1" CRLF KA CRLF, next ? after[next] : "");
    if(how == 0 && next) strcat(q, q2);
    sim_add(a, 's', q, strlen(q), 0);
    if(how) { if(what != 2) sim_add(a, 'w', 0, 0, 1); sim_add(a, 's', q2, strlen(q2), 0); }
    good_client(); sim_mode = 0;
    sim_run(); mc_step();
    good_check(1); s = done(0);
    mc_hex(h, sizeof h, s->out, s->outlen);
    if(what == 2) { mc_check(s->outlen == 0, "script %d writes nothing and the client gets: %s", k, h); lib_checks(); return; }
    if(sim_parse(s->out, s->outlen, 0, &r) != 1) mc_fail("script %d: no complete answer: %s", k, h);
    if(what == 1) mc_check(r.status == 500, "script %d fails and its answer is: %s", k, h);
    else mc_check(r.status == 200 && r.bodylen == 5 && !memcmp(r.body, "hello", 5), "script %d: the answer is: %s", k, h);
    at = r.total;
    if(next && !(what == 3 && next == 2)) {
        mc_hex(h, sizeof h, s->out + at, s->outlen - at);
        mc_check(sim_parse(s->out + at, s->outlen - at, 0, &r) == 1, "script %d: the answer of the request after it is: %s", k, h);
        mc_check(r.status == (next == 2 && what == 1 ? 500 : 200), "script %d: the request after it is answered %d", k, r.status);
        if(next == 1) mc_check(r.bodylen == 12 && !memcmp(r.body, "hello world\n", 12), "script %d: the file after it is: %s", k, h);
        if(next == 2 && what != 1) mc_check(r.bodylen == 5 && !memcmp(r.body, "hello", 5), "script %d: the second answer is: %s", k, h);
        if(next == 3) mc_check(r.bodylen == 43 && !memcmp(r.body, gif, 43), "script %d: the picture after it is: %s", k, h);
        at += r.total;
    }
    mc_hex(h, sizeof h, s->out + at, s->outlen - at);
    mc_check(at == s->outlen, "script %d: after the last answer: %s", k, h);
    mc_check(was_open(0) == keep, "script %d: the connection is %s", k, was_open(0) ? "kept" : "closed");
    lib_checks();
}
/* a script that fails again and again */
static void m02_again(void) {
    static const char *scripts[] = { "function handle() error('x') end\n", "x = 1\n", "error('y')\n", "function handle() write_connection(connection) end\n", "function handle() return 1, 2, 3 end\nreturn 1, 2, 3\n", "function handle(\n", "n = n or 0\nfunction handle()\n  n = n + 1\n  if n % 10000 ~= 11 then error('x') end\n  collectgarbage()\n  local b = 'in use ' .. math.floor(collectgarbage('count'))\n  local r = 'HTTP/1.1 500 Error\\r\\nContent-Length: ' .. #b .. '\\r\\n\\r\\n' .. b\n  write_connection(connection, r, #r)\nend\n", "function handle()\n  collectgarbage()\n  local b = 'in use ' .. math.floor(collectgarbage('count'))\n  local r = 'HTTP/1.1 500 Error\\r\\nContent-Length: ' .. #b .. '\\r\\n\\r\\n' .. b\n  write_connection(connection, r, #r)\nend\n" };
    double use, first = 0; int k = mc_choose(COUNT(scripts)), n = (mc_thorough ? 60000 : 14000), per = 2000, i; actor *a; vsock *s; size_t at; static const char q[] = "GET /l HTTP/1.1" CRLF KA CRLF; char *all = malloc(per * (sizeof q)); size_t len = 0;
    real_modules(scripts[k]);
    for(i = 0; i < per; i++) { memcpy(all + len, q, sizeof q - 1); len += sizeof q - 1; }
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0); for(i = 0; i < n; i += per) sim_add(a, 's', all, len, 0);
    good_client();
    sim_run(); mc_step(); good_check(1); s = done(0);
    if(k != 4) { for(at = 0, i = 0; at < s->outlen; i++) { resp r; mc_check(sim_parse(s->out + at, s->outlen - at, 0, &r) == 1 && r.status == 500, "answer %d of a script that fails is not an error", i); at += r.total;
            if(k >= 6) { const char *p = memmem(r.body, r.bodylen, "in use ", 7); use = p ? atof(p + 7) : 0; if(i == 10) { first = use; mc_check(p && use > 0, "internal: no count"); } else if(p && i > 10) mc_check(use < first + 100, "a script that fails used %.0f KB after 10 requests and %.0f after %d", first, use, i + 1); } }
        mc_check(i == n, "%d requests of a script that fails and %d answers", n, i); }
    lib_checks(); free(all);
}
static const mc_scenario list[] = {
    { "M01.kinds", m01_kinds, 4, 4, 0, 0, 3, 0, "every sequence of modules of 7 kinds: working, with a longer name, that can not tell what they are, that can not start or stop, with no entry, with no library; the service runs to its end or is stopped early" },
    { "M02.answers", m02_answers, 3, 4, 0, 0, 3, 0, "every sequence of requests (4 locations, 3 methods) on one connection, in 4 ways of delivering them" },
    { "M02.direct", m02_direct, 2, 3, 0, 0, 3, 0, "every sequence of requests on one connection, in 4 ways of delivering them, when a module handles all of them" },
    { "M02.uptime", m02_uptime, 1, 1, 0, 0, 3, 0, "320 durations since the start" },
    { "M02.scripts", m02_scripts, 1, 1, 0, 0, 3, 0, "21 scripts that fail, each at once, when they are called or in what they write, asked once or twice, repaired in between or not" },
    { "M02.short", m02_short, 2, 4, 1, 2, 4, 0, "two requests, every result of the first sends (whole, one byte, 150 bytes, refused), the client stays or leaves in 3 ways" },
    { "M02.together", m02_together, 1, 1, 0, 0, 4, 0, "clients with two requests each for every module, in every order of their events" },
    { "M02.writes", m02_writes, 1, 1, 0, 0, 3, 0, "20 scripts that write in pieces, too much, too little, nothing, or fail after they wrote, and the request after theirs" },
    { "M02.again", m02_again, 1, 1, 0, 0, 3, 0, "8 scripts that fail or leave values, 14000 times" },
    { "M01.names", m01_names, 1, 1, 0, 0, 2, 0, "30 names of files in the directory of the modules, alone and beside a module" },

};
MC_MAIN(list)
