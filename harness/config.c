/* R02 settings of the service, from the configuration file and the command
 * line, against a reference reader; S05 the start of the service. */
#include "srv.h"
#include "stdafx.h"
#include "system/service.h"

/* --- the reference reader ------------------------------------------- */
typedef struct entry { char sec[1200], key[1200], val[2400]; } entry;
static entry ref[64]; static int nref;
static char *ends(char *s) { size_t n = strlen(s); while(n && s[n - 1] == ' ') s[--n] = 0; return s; }
static void ref_set(const char *sec, const char *key, const char *val) {
    int i, at = -1;
    for(i = 0; i < nref; i++) if(!strcmp(ref[i].sec, sec) && !strcmp(ref[i].key, key)) at = i;
    if(at < 0) { mc_check(nref < 64, "internal: too many entries"); at = nref++; strcpy(ref[at].sec, sec); strcpy(ref[at].key, key); }
    strcpy(ref[at].val, val);
}
/* 1 when every reader agrees on the meaning of the text */
static int ref_ini(const char *p) {
    char sec[1200] = "", key[1200], val[2400]; const char *e, *q;
    nref = 0;
    while(*p) {
        if(*p == '\n' || *p == '\r') { p++; continue; }
        e = p + strcspn(p, "\r\n");
        if(*p == ';') { p = e; continue; }
        if(*p == '[') {
            q = memchr(p, ']', e - p);
            if(!q) return 0;
            if(q + 1 != e) return 0;            /* something after the name */
            memcpy(sec, p + 1, q - p - 1); sec[q - p - 1] = 0; p = e; continue;
        }
        if(*p == ' ') return 0;
        q = memchr(p, '=', e - p);
        if(!q) { if(*e == 0) return 1; return 0; }  /* an incomplete last line says nothing */
        if(q == p) return 0;
        memcpy(key, p, q - p); key[q - p] = 0; ends(key);
        for(q++; q < e && *q == ' '; q++);
        memcpy(val, q, e - q); val[e - q] = 0;
        ref_set(sec, key, val); p = e;
    }
    return 1;
}
/* the entries in the order of the sections, then of the keys */
static void check_ini(const char *text) {
    struct sort_map_t *m = NULL, *s; struct iterator_t *i, *j; struct hash_map_element_t *a, *b; int ok = ref_ini(text), k, seen = 0, sec = 0; size_t base; char h[300]; ERROR_CODE r; static char order[64][1200];
    mc_hex(h, sizeof h, text, strlen(text));
    sim_file("cfg/t.ini", text, strlen(text));
    unset_last_error_message(); base = mc_allocated() - sim_bytes;
    r = process_ini_file("cfg/t.ini", &m); mc_step();
    mc_check(!IS_ERROR_CODE(r) && m, "%s can not be read", h);
    if(ok) {
        create_element_iterator_sort_map(m, &i);
        for(;;) {
            char *want = NULL; int left = 0;
            get_next_iterator(i, (void **) &a); if(!a) break;
            for(k = 0; k < nref && !want; k++) { int d, dup = 0; for(d = 0; d < sec; d++) dup |= !strcmp(order[d], ref[k].sec); if(!dup) want = ref[k].sec; }
            mc_check(want && !strcmp((char *) a->key_string, want), "%s: section %d is [%s], expected [%s]", h, sec, a->key_string, want ? want : "none");
            mc_check(sec < 64, "internal"); strcpy(order[sec++], want);
            get_value_string_sort_map(m, a->key_string, (void **) &s);
            create_element_iterator_sort_map(s, &j);
            for(k = 0; k < nref; k++) {
                char *v;
                if(strcmp(ref[k].sec, want)) continue;
                get_next_iterator(j, (void **) &b);
                mc_check(b && !strcmp((char *) b->key_string, ref[k].key), "%s: a key of [%s] is '%s', expected '%s'", h, want, b ? (char *) b->key_string : "missing", ref[k].key);
                get_value_string_sort_map(s, b->key_string, (void **) &v);
                mc_check(v && !strncmp(v, ends(ref[k].val), strlen(ends(ref[k].val))) && strspn(v + strlen(ref[k].val), " ") == strlen(v + strlen(ref[k].val)), "%s: [%s] %s is '%s', expected '%s'", h, want, ref[k].key, v ? v : "nothing", ref[k].val);
                seen++;
            }
            get_next_iterator(j, (void **) &b); left = b != NULL;
            mc_check(!left, "%s: [%s] has a key '%s' that was not set", h, want, b ? (char *) b->key_string : "");
            delete_iterator_sort_map(s, j);
        }
        delete_iterator_sort_map(m, i);
        mc_check(seen == nref, "%s: %d values are read, expected %d", h, seen, nref);
        mc_state(mc_hash_s(text, 1));
    }
    else mc_trivial();
    delete_configuration(m, 1);
    mc_check(mc_allocated() - sim_bytes == base, "%s: %zu bytes are left allocated", h, mc_allocated() - sim_bytes - base);
}
static void r02_text(void) {
    static const char alpha[] = "[]a=; \n\rb"; char t[16]; int n = mc_choose(mc_bound + 1), i, head = n < 3 ? n : 3; long total = 1, k, q;
    sim_site();
    for(i = 0; i < head; i++) t[i] = alpha[mc_choose(9)];
    t[n] = 0;
    for(i = head; i < n; i++) total *= 9;
    for(k = 0; k < total; k++) { for(q = k, i = head; i < n; i++, q /= 9) t[i] = alpha[q % 9]; check_ini(t); }
}
static void r02_lines(void) {
    static const char *lines[] = { "", "[general]", "[a]", "[]", "[location:b c]", "port=1", "port = 22", "x=", "x =  y z  ", "y=a=b;c [d]", "; port=3", "; [z]", "long key name=v", "z=\xc3\xa9" };
    static const char *eol[] = { "\n", "\r\n", "\r", "\n\n" }; char t[600] = ""; int n = mc_choose(mc_bound) + 1, i, e = mc_choose(4), last = mc_choose(2);
    sim_site();
    for(i = 0; i < n; i++) { strcat(t, lines[mc_choose(14)]); if(i < n - 1 || last) strcat(t, eol[e]); }
    check_ini(t);
}
static void r02_lengths(void) {
    static const int centers[] = { 1, 64, 256, 1024, 2047 }; int what = mc_choose(3), n = centers[mc_choose(5)] - mc_bound / 2 + mc_choose(mc_bound), i; static char t[8000], h[80]; char *p = t; struct sort_map_t *m, *s = NULL; char *v;
    sim_site(); if(n < 1) n = 1;
    sprintf(h, "a %s of %d characters", what == 0 ? "section" : what == 1 ? "key" : "value", n);
    p += sprintf(p, "[first]\na=b\n[");
    for(i = 0; i < (what == 0 ? n : 3); i++) *p++ = 's';
    p += sprintf(p, "]\n");
    for(i = 0; i < (what == 1 ? n : 3); i++) *p++ = 'k';
    *p++ = '=';
    for(i = 0; i < (what == 2 ? n : 3); i++) *p++ = 'v';
    sprintf(p, "\n[last]\nc=d");
    if(n < 1024 || what == 2) check_ini(t);
    sim_file("cfg/t.ini", t, strlen(t)); process_ini_file("cfg/t.ini", &m);
    get_value_string_sort_map(m, (u_char *) "first", (void **) &s); v = NULL; if(s) get_value_string_sort_map(s, (u_char *) "a", (void **) &v);
    mc_check(v && !strcmp(v, "b"), "%s: the value before it is '%s'", h, v ? v : "missing");
    get_value_string_sort_map(m, (u_char *) "last", (void **) &s); v = NULL; if(s) get_value_string_sort_map(s, (u_char *) "c", (void **) &v);
    mc_check(v && !strcmp(v, "d"), "%s: the value after it is '%s'", h, v ? v : "missing");
    delete_configuration(m, 1); mc_log("%s", h); mc_step(); mc_state(what * 10000 + n);
}

/* --- the command line ------------------------------------------------ */
static const char *shapes[] = { "--port=1", "-port=2", "--port", "port=3", "--", "-", "", "--a=b=c", "---x", "--k=", "--port=", "x", "-a", "--host=::1 y", "--a b", "--\xc3\xa9=\xc3\xa9", NULL, NULL, NULL, NULL };
static char longs[4][1400];
static void r02_arguments(void) {
    int n = mc_choose(mc_bound + 1), i, j, k, nw = 0; char *argv[8]; struct { char key[1400], val[1400]; int has; } *w = calloc(8, sizeof *w); struct hash_map_t *m; struct argument_t *a; size_t base; char what[400] = "";
    for(i = 0; i < 4; i++) if(!longs[i][0]) { size_t l = i == 0 ? 255 : i == 1 ? 256 : i == 2 ? 1023 : 1024; strcpy(longs[i], "--"); if(i < 2) memset(longs[i] + 2, 'n', l); else { strcpy(longs[i], "--v="); memset(longs[i] + 4, 'n', l); } shapes[16 + i] = longs[i]; }
    argv[0] = "program";
    for(i = 1; i <= n; i++) {
        const char *s = shapes[mc_choose(20)], *e; char key[1400];
        argv[i] = copy(s, strlen(s)); snprintf(what + strlen(what), sizeof what - strlen(what), " '%.40s'", s);
        if(s[0] != '-' || !s[1]) continue;
        s += s[1] == '-' ? 2 : 1; e = strchr(s, '=');
        snprintf(key, sizeof key, "%.*s", (int) (e ? e - s : (long) strlen(s)), s);
        if(strlen(key) > 255 || (e && strlen(e + 1) > 1023)) continue;      /* refused */
        for(j = 0; j < nw && strcmp(w[j].key, key); j++);
        if(j == nw) nw++;
        strcpy(w[j].key, key); w[j].has = e != NULL; strcpy(w[j].val, e ? e + 1 : "");
    }
    unset_last_error_message(); base = mc_allocated();
    process_arguments(n + 1, argv, &m); mc_step();
    mc_log("arguments%s: %d options", what, nw);
    mc_check((int) m->size == nw, "arguments%s: %d options are found, expected %d", what, (int) m->size, nw);
    for(k = 0; k < nw; k++) {
        get_value_string_hash_map(m, (u_char *) w[k].key, (void **) &a);
        mc_check(a != NULL, "arguments%s: the option '%.40s' is not found", what, w[k].key);
        mc_check(!strcmp(a->key, w[k].key) && (a->type == VALUE_ARGUMENT) == w[k].has && !strcmp(a->value, w[k].val), "arguments%s: the option '%.40s' has the value '%.40s', expected '%.40s'", what, w[k].key, a->value, w[k].val);
    }
    delete_arguments(m); for(i = 1; i <= n; i++) free(argv[i]);
    free(w); unset_last_error_message();
    mc_check(mc_allocated() == base - 0 || mc_allocated() <= base, "arguments%s: %zu bytes are left allocated", what, mc_allocated() - base);
    mc_state(mc_hash_s(what, 1));
}

/* --- both, into the settings ----------------------------------------- */
enum { K_PORT, K_HOST, K_IP6, K_HOST6, SSL_, K_HANDLER, K_LOCAL, K_WORKERS, K_TEMPLATE, K_INDEX, NSET };
static const char *names[NSET] = { "port", "host", "ip6", "ip6_host", "ssl", "handler", "local", "workers", "use_template", "index" };
static const char *filevals[NSET][5] = {
    { NULL, "8080", "1", "65535", "80" }, { NULL, "127.0.0.1", "10.1.2.3", "0.0.0.0", "" }, { NULL, "On", "Off", "True", "1" }, { NULL, "[::1]", "[::]", "[fe80::1]", "" },
    { NULL, "On", "Off", "0", "on" }, { NULL, "file", "default", "dispatch", "x" }, { NULL, "On", "Off", "True", "yes" }, { NULL, "2", "0", "200", "1" }, { NULL, "On", "Off", "1", "" },
    { NULL, "index.html", "a b c", "x  y", "index.html index.php i" } };
static const char *argvals[NSET][3] = { { NULL, "--port=99", "--port=9090" }, { NULL, "--host=1.2.3.4", "--host=0.0.0.0" }, { NULL, "--ip6", "--ip6=1" }, { NULL, NULL, NULL }, { NULL, "--ssl", NULL }, { NULL, "--handler=default", "--handler=zz" }, { NULL, "--local", NULL }, { NULL, "--workers=3", "--workers=0" }, { NULL, NULL, NULL }, { NULL, NULL, NULL } };
static int truth(const char *s) { return !strcmp(s, "On") || !strcmp(s, "True") || !strcmp(s, "1"); }
static void r02_settings(void) {
    int pick[4], np = mc_bound, i, j, argc = 1; const char *fv[NSET] = { 0 }, *av[NSET] = { 0 }; char *argv[8], t[800] = "", what[1200]; struct service_t *s; struct hash_map_t *args; struct service_options_t *o; size_t base; int layout;
    int port = 9090, ip6 = 0, ssl = 0, local = 0, workers = 0, tpl = 0; const char *host = "0.0.0.0", *host6 = "[::]", *handler = "dispatch";
    sim_site(); argv[0] = "program";
    for(i = 0; i < np; i++) { pick[i] = i ? pick[i - 1] + 1 + mc_choose(NSET - np - pick[i - 1] + i) : mc_choose(NSET - np + 1); }
    for(i = 0; i < np; i++) { fv[pick[i]] = filevals[pick[i]][mc_choose(5)]; av[pick[i]] = argvals[pick[i]][mc_choose(3)]; }
    layout = mc_choose(3);
    if(layout == 1) strcat(t, "[other]\nport=5\nhandler=no\n");
    strcat(t, layout == 2 ? "; settings\r\n[general]\r\n" : "[general]\n");
    for(i = 0; i < np; i++) { j = layout == 2 ? pick[np - 1 - i] : pick[i]; if(fv[j]) sprintf(t + strlen(t), "%s = %s%s", names[j], fv[j], layout == 2 ? "\r\n" : "\n"); if(av[pick[i]]) argv[argc++] = (char *) av[pick[i]]; }
    if(layout == 1) strcat(t, "[more]\nport=6\nhost=no");
    snprintf(what, sizeof what, "file '%s', arguments", t); for(i = 1; i < argc; i++) sprintf(what + strlen(what), " '%s'", argv[i]);
    sim_config(t);
    unset_last_error_message(); base = mc_allocated() - sim_bytes;
    process_arguments(argc, argv, &args);
    create_service(&s, (u_char *) "viriatum", (u_char *) "viriatum"); load_specifications(s);
    mc_check(!IS_ERROR_CODE(load_options_service(s, args)), "%s: refused", what);
    calculate_options_service(s); calculate_locations_service(s); mc_step(); o = s->options;
    if(fv[K_PORT]) port = atoi(fv[K_PORT]);
    if(av[K_PORT]) port = atoi(av[K_PORT] + 7);
    if(fv[K_HOST]) host = fv[K_HOST];
    if(av[K_HOST]) host = av[K_HOST] + 7;
    if(fv[K_IP6]) ip6 = truth(fv[K_IP6]);
    if(av[K_IP6]) ip6 = 1;
    if(fv[K_HOST6]) host6 = fv[K_HOST6];
    if(fv[SSL_]) ssl = truth(fv[SSL_]);
    if(av[SSL_]) ssl = 1;
    if(fv[K_HANDLER]) handler = fv[K_HANDLER];
    if(av[K_HANDLER]) handler = av[K_HANDLER] + 10;
    if(fv[K_LOCAL]) local = truth(fv[K_LOCAL]);
    if(av[K_LOCAL]) local = 1;
    if(fv[K_WORKERS]) workers = atoi(fv[K_WORKERS]);
    if(av[K_WORKERS]) workers = atoi(av[K_WORKERS] + 10);
    if(fv[K_TEMPLATE]) tpl = truth(fv[K_TEMPLATE]);
    mc_check(o->port == port && atoi((char *) o->_port) == port, "%s: the port is %d, expected %d", what, (int) o->port, port);
    mc_check(!strcmp((char *) o->address, host), "%s: the host is '%s', expected '%s'", what, o->address, host);
    mc_check(!strcmp((char *) o->address6, host6), "%s: the second host is '%s', expected '%s'", what, o->address6, host6);
    mc_check(!strcmp((char *) o->handler_name, handler), "%s: the handler is '%s', expected '%s'", what, o->handler_name, handler);
    mc_check(!!o->ip6 == ip6 && !!o->ssl == ssl && !!o->local == local && !!o->use_template == tpl && o->workers == workers, "%s: ip6 %d ssl %d local %d templates %d workers %d, expected %d %d %d %d %d", what, o->ip6, o->ssl, o->local, o->use_template, o->workers, ip6, ssl, local, tpl, workers);
    { const char *p = fv[K_INDEX]; size_t k = 0; while(p && *p) { size_t l = strcspn(p, " "); if(l) { size_t z; for(z = 0; z < o->index_count && (strlen((char *) o->index[z]) != l || memcmp(o->index[z], p, l)); z++); mc_check(z < o->index_count && z >= k, "%s: the index file %.*s is missing or out of order", what, (int) l, p); k = z + 1; } p += l + (p[l] == ' '); }
      if(!fv[K_INDEX]) mc_check(o->index_count == 0, "%s: there are %d index files", what, (int) o->index_count); }
    delete_service(s); delete_arguments(args); unset_last_error_message();
    mc_check(mc_allocated() - sim_bytes <= base, "%s: %zu bytes are left allocated", what, mc_allocated() - sim_bytes - base);
    mc_log("%s", what); mc_state(mc_hash_s(what, 1));
}
/* lists around the size of their tables */
static void r02_lists(void) {
    static const int locs[] = { 0, 1, 2, 3, 31, 32, 33, 1022, 1023, 1024, 1025, 1100 }, idx[] = { 0, 1, 2, 30, 31, 32, 33, 40 }, lens[] = { 1, 2, 126, 127, 128, 129, 300 }; int nl = locs[mc_choose(12)], ni = idx[mc_choose(8)], len = lens[mc_choose(7)], form = mc_choose(3), i, j, k; static char t[200000]; char *p = t; struct service_t *s; struct hash_map_t *args; struct service_options_t *o;
    sim_site(); p += sprintf(p, "[general]\n");
    if(ni) p += sprintf(p, "index =");
    for(i = 0; i < ni; i++) { *p++ = ' '; for(j = 0; j < len; j++) *p++ = 'a' + i % 26; }
    *p++ = '\n';
    for(i = 0; i < nl; i++) {
        if(form == 1 && i % 3 == 1) p += sprintf(p, "[location:bad%d]\npath=/x\n", i);       /* incomplete, ignored */
        if(form == 2 && i % 2) p += sprintf(p, "[locatio%d]\npath=/x\nhandler=file\n[location]\na=b\n", i);
        p += sprintf(p, "[location:l%d]\npath=/p%d\nhandler=file\n", i, i);
    }
    *p = 0; mc_check(p < t + sizeof t, "internal: configuration too long");
    sim_file("cfg/viriatum.ini", t, strlen(t));
    create_hash_map(&args, 0); create_service(&s, (u_char *) "viriatum", (u_char *) "viriatum"); load_specifications(s); load_options_service(s, args);
    calculate_options_service(s); calculate_locations_service(s); mc_step(); o = s->options;
    k = nl < 1024 ? nl : 1024;
    mc_check((int) s->locations.count == k, "%d locations (form %d): %d are taken", nl, form, (int) s->locations.count);
    for(i = 0; i < k; i++) { char a[40], b[40]; sprintf(a, "l%d", i); sprintf(b, "/p%d", i); mc_check(!strcmp((char *) s->locations.values[i].name, a) && !strcmp((char *) s->locations.values[i].path, b) && !strcmp((char *) s->locations.values[i].handler, "file"), "%d locations (form %d): the %d-th is %s with path %s", nl, form, i, s->locations.values[i].name, s->locations.values[i].path); }
    k = ni < 32 ? ni : 32;
    mc_check((int) o->index_count == k, "%d index files of %d characters: %d are taken", ni, len, (int) o->index_count);
    for(i = 0; i < k; i++) { size_t l = len < 127 ? len : 127; mc_check(strlen((char *) o->index[i]) == l && o->index[i][0] == 'a' + i % 26 && o->index[i][l - 1] == 'a' + i % 26, "%d index files of %d characters: the %d-th is '%s'", ni, len, i, o->index[i]); }
    delete_service(s); delete_hash_map(args); sim_config(""); mc_state(mc_hash(t, strlen(t), form));
}
/* where the service really listens */
static const char *q_hello = "GET /hello.txt HTTP/1.1" CRLF "Host: h" CRLF CRLF;
static void r02_listen(void) {
    static const char *fport[] = { NULL, "80", "65535" }, *fhost[] = { NULL, "127.0.0.1" }, *f6[] = { NULL, "On", "Off" }, *fh6[] = { NULL, "[::1]", "[fe80::1:2]" }, *aport[] = { NULL, "--port=81" }, *ahost[] = { NULL, "--host=10.0.0.1" }, *a6[] = { NULL, "--ip6" };
    int a = mc_choose(3), b = mc_choose(2), c = mc_choose(3), d = mc_choose(3), e = mc_choose(2), f = mc_choose(2), g = mc_choose(2), n = 1, port = a ? atoi(fport[a]) : 9090, six = c == 1 || g; char ini[400] = BASE, *argv[8], want[200]; actor *t; vsock *s; resp r; const char *host = f ? "10.0.0.1" : b ? "127.0.0.1" : "0.0.0.0"; static const char *h6[] = { "::", "::1", "fe80::1:2" };
    if(e) port = 81;
    if(a) sprintf(ini + strlen(ini), "port=%s\n", fport[a]);
    if(b) sprintf(ini + strlen(ini), "host=%s\n", fhost[b]);
    if(c) sprintf(ini + strlen(ini), "ip6=%s\n", f6[c]);
    if(d) sprintf(ini + strlen(ini), "ip6_host=%s\n", fh6[d]);
    sim_site(); fresh_run(ini);
    argv[0] = "viriatum"; if(e) argv[n++] = (char *) aport[e]; if(f) argv[n++] = (char *) ahost[f]; if(g) argv[n++] = (char *) a6[g];
    sim_argc = n; sim_argv = argv;
    t = sim_actor(); sim_add(t, 'c', 0, 0, 0); sim_add(t, 's', q_hello, strlen(q_hello), 0);
    sim_run(); s = done(0);
    sprintf(want, "%s %d", host, port); if(six) sprintf(want + strlen(want), ", %s %d", h6[d], port);
    mc_check(!strcmp(sim_bound, want), "with %s and%s%s%s the service listens at %s, expected %s", ini, e ? " --port=81" : "", f ? " --host=10.0.0.1" : "", g ? " --ip6" : "", sim_bound, want);
    r = parsed("the response", s->out, s->outlen, 0); mc_check(r.status == 200, "status %d", r.status);
    mc_log("%s", want); mc_outcome(mc_hash_s(want, 1));
}
/* --- S05: the start ---------------------------------------------------- */
static int fail_at, fail_with;
static int fail_setup(const char *call, int n) { (void) call; return n == fail_at ? fail_with : 0; }
static void s05_start(void) {
    static const int errs[] = { EADDRINUSE, EACCES, EMFILE, EINVAL }; int six = mc_choose(2), at = mc_choose(mc_bound), again = mc_choose(2), with = errs[mc_choose(4)], calls; char ini[300]; actor *t; vsock *s; resp r;
    sprintf(ini, "%sip6=%s\n", BASE, six ? "On" : "Off");
    sim_site(); fresh_run(ini); sim_leaks = 0; fail_at = at; fail_with = with; sim_setup_hook = fail_setup;
    t = sim_actor(); sim_add(t, 'c', 0, 0, 0); sim_add(t, 's', q_hello, strlen(q_hello), 0);
    sim_run(); calls = sim_setups;
    if(calls <= at) { s = done(0); mc_trivial(); }
    else {
        mc_check(IS_ERROR_CODE(sim_start_result), "call %d of the start fails (error %d) and the start returns no error", at, with);
        mc_check(!quiet_seen, "call %d of the start fails (error %d) and the service runs", at, with);
        mc_check(GET_ERROR() != NULL && strlen((char *) GET_ERROR()) > 0, "call %d of the start fails without a message", at);
    }
    unset_last_error_message();
    if(again) {     /* and then it can be started */
        fresh_run(ini); sim_leaks = 0; t = sim_actor(); sim_add(t, 'c', 0, 0, 0); sim_add(t, 's', q_hello, strlen(q_hello), 0);
        sim_run(); s = done(0); r = parsed("the response after a failed start", s->out, s->outlen, 0); mc_check(r.status == 200, "after a failed start the status is %d", r.status);
    }
    mc_outcome(mc_hash(&sim_start_result, sizeof sim_start_result, at * 10 + six));
}
/* settings that can not be used */
static void s05_settings(void) {
    static const char *lines[] = { "handler=nothing", "handler=", "ip6=On\nip6_host=[zz]", "ip6=On\nip6_host=", "ip6=On\nip6_host=x" };
    int k = mc_choose(5 + mc_bound), n = 0; static char ini[2000]; actor *t;
    sim_site();
    if(k < 5) sprintf(ini, "[general]\nindex=index.html\n%s\n", lines[k]);
    else { char *p = ini + sprintf(ini, "[general]\nindex=index.html\nip6=On\nip6_host=["); for(n = 0; n < k - 5; n++) *p++ = ':'; strcpy(p, "]\n"); if(n == 2) mc_trivial(); }
    if(n == 2) return;
    fresh_run(ini); sim_leaks = 0;
    t = sim_actor(); sim_add(t, 'c', 0, 0, 0); sim_add(t, 's', q_hello, strlen(q_hello), 0);
    sim_run();
    if(k == 3) { mc_log("an empty address: %s", sim_bound); return; }
    mc_check(IS_ERROR_CODE(sim_start_result) && !quiet_seen, "with %s the service starts (listening at %s)", ini, sim_bound);
    unset_last_error_message(); mc_outcome(k);
}

static const mc_scenario list[] = {
    { "R02.text", r02_text, 6, 7, 0, 0, 2, 0, "reading every configuration text over 9 characters" },
    { "R02.lines", r02_lines, 3, 4, 0, 0, 2, 0, "reading every sequence of lines out of 14, with 4 line endings, with and without a final one" },
    { "R02.lengths", r02_lengths, 10, 60, 0, 0, 2, 0, "sections, keys and values of lengths around 5 limits" },
    { "R02.arguments", r02_arguments, 3, 4, 0, 0, 1, 0, "every sequence of command line arguments out of 20" },
    { "R02.settings", r02_settings, 2, 3, 0, 0, 2, 0, "every pair (thorough: triple) of settings in the file and on the command line, in 3 layouts" },
    { "R02.lists", r02_lists, 1, 1, 0, 0, 2, 0, "numbers of locations and index files around the sizes of their tables" },
    { "R02.listen", r02_listen, 1, 1, 0, 0, 3, 0, "where the service listens, for every combination of file and command line" },
    { "S05.start", s05_start, 10, 16, 0, 0, 2, 0, "each call of the start failing with 4 errors, with one and two addresses" },
    { "S05.settings", s05_settings, 90, 130, 0, 0, 1, 0, "settings that can not be used, addresses of every length" },
};
MC_MAIN(list)
