/* D06 the parts of an address; D07 templates: every sequence of tokens within
 * bounds, against references written here from the definitions. */
#include "viriatum_commons/viriatum_commons.h"
#include "mc.h"
#include <ctype.h>
#include <stdarg.h>

typedef unsigned char u8;
static u8 *exact(const void *p, size_t n) { u8 *x = malloc(n ? n : 1); memcpy(x, p, n); return n ? x : x; }

/* ---- D06 ---- */
typedef struct part { const u8 *p; size_t n; } part;
typedef struct want { int scheme_ok, valid; part scheme, user, pass, host, port, path, query, frag; unsigned num; } want;
static part cut(const u8 *a, const u8 *b) { part r = { a, b - a }; return r; }
static const u8 *upto(const u8 *a, const u8 *end, const char *set) { while(a < end && !(*a && strchr(set, *a))) a++; return a; }
/* generic syntax: scheme ":" "//" authority path [ "?" query ] [ "#" fragment ] */
static void parts(const u8 *s, size_t n, want *w) {
    const u8 *end = s + n, *a, *b, *at, *c, *x; memset(w, 0, sizeof *w);
    a = upto(s, end, ":"); if(end - a < 3 || memcmp(a, "://", 3)) return;
    w->scheme_ok = 1; w->scheme = cut(s, a); w->valid = a > s && isalpha(*s);
    for(x = s; x < a; x++) if(!isalnum(*x) && !strchr("+-.", *x)) w->valid = 0;
    a += 3; b = upto(a, end, "/?#"); at = upto(a, b, "@");
    if(at < b) {
        c = upto(a, at, ":"); w->user = cut(a, c); if(c < at) w->pass = cut(c + 1, at); else w->valid = w->valid ? 2 : 0;
        a = at + 1; if(upto(a, b, "@") < b) w->valid = 0;
    }
    c = upto(a, b, ":"); w->host = cut(a, c);
    if(c < b) {
        w->port = cut(c + 1, b);
        for(x = c + 1; x < b; x++) { if(!isdigit(*x)) w->valid = 0; else if(w->num < 100000) w->num = w->num * 10 + *x - '0'; }
        if(w->num > 65535) w->valid = 0;
    }
    c = upto(b, end, "?#"); w->path = cut(b, c);
    if(c < end && *c == '?') { b = c + 1; c = upto(b, end, "#"); w->query = cut(b, c); }
    if(c < end) w->frag = cut(c + 1, end);
}
static int inside(struct string_t *s, u8 *t, size_t n) { return s->buffer == NULL ? s->length == 0 : s->buffer >= t && s->buffer <= t + n && s->length <= (size_t) (t + n - s->buffer); }
static int same(struct string_t *s, part *p) { return s->length == p->n && (p->n == 0 || !memcmp(s->buffer, p->p, p->n)); }
static void check_url(const u8 *text, size_t n) {
    struct url_t u; struct url_static_t *st = malloc(sizeof *st); want w; u8 *x = exact(text, n); ERROR_CODE r; size_t base; int i, fits;
    unset_last_error_message(); base = mc_allocated();
    struct { const char *name; struct string_t *got; part *want; char *st; size_t room; } p[] = {
        { "scheme", &u.scheme, &w.scheme, st->scheme, sizeof st->scheme }, { "user", &u.username, &w.user, st->username, sizeof st->username },
        { "password", &u.password, &w.pass, st->password, sizeof st->password }, { "host", &u.host, &w.host, st->host, sizeof st->host },
        { "path", &u.path, &w.path, st->path, sizeof st->path }, { "query", &u.query, &w.query, st->query, sizeof st->query },
        { "fragment", &u.fragment, &w.frag, st->fragment, sizeof st->fragment } };
    parts(text, n, &w); mc_step();
    r = parse_url((char *) x, n, &u);
    if(!IS_ERROR_CODE(r)) {
        for(i = 0; i < 7; i++) mc_check(inside(p[i].got, x, n), "the %s of '%.*s' is not a part of it", p[i].name, (int) n, text);
        mc_check(inside(&u.port_s, x, n) && inside(&u.auth, x, n) && inside(&u.host_c, x, n), "a part of '%.*s' is not inside of it", (int) n, text);
    }
    if(!w.scheme_ok) mc_check(IS_ERROR_CODE(r), "'%.*s' has no '://' and is accepted", (int) n, text);
    if(w.valid == 1) mc_check(!IS_ERROR_CODE(r), "'%.*s' is refused", (int) n, text);
    if(w.valid && !IS_ERROR_CODE(r)) {
        for(i = 0; i < 7; i++) mc_check(same(p[i].got, p[i].want), "the %s of '%.*s' is '%.*s', expected '%.*s'", p[i].name, (int) n, text,
            (int) p[i].got->length, p[i].got->buffer ? (char *) p[i].got->buffer : "", (int) p[i].want->n, p[i].want->n ? (char *) p[i].want->p : "");
        mc_check(same(&u.port_s, &w.port) && u.port == w.num, "the port of '%.*s' is %u", (int) n, text, u.port);
    }
    memset(st, 0xa5, sizeof *st);
    r = parse_url_static((char *) x, n, st);
    if(!w.scheme_ok) mc_check(IS_ERROR_CODE(r), "'%.*s' has no '://' and is accepted", (int) n, text);
    for(i = 0, fits = 1; i < 7; i++) if(p[i].want->n >= p[i].room) fits = 0;
    if(w.valid && !fits) mc_check(IS_ERROR_CODE(r), "'%.*s' does not fit and is accepted", (int) n, text);
    if(w.valid == 1 && fits) mc_check(!IS_ERROR_CODE(r), "'%.*s' is refused", (int) n, text);
    if(w.valid && !IS_ERROR_CODE(r)) {
        for(i = 0; i < 7; i++) mc_check(strnlen(p[i].st, p[i].room) == p[i].want->n && (p[i].want->n == 0 || !memcmp(p[i].st, p[i].want->p, p[i].want->n)), "the %s of '%.*s' is given as '%.60s'", p[i].name, (int) n, text, p[i].st);
        mc_check(st->port == w.num, "the port of '%.*s' is given as %u", (int) n, text, st->port);
    }
    if(!w.valid && w.scheme_ok) mc_trivial();
    unset_last_error_message(); mc_check(mc_allocated() == base, "'%.*s': %zd bytes are left allocated", (int) n, text, (ssize_t) (mc_allocated() - base));
    free(x); free(st);
}
static void d06_tokens(void) {
    static const char *start[] = { "http://", "", "s3+x.y-z://", "1://", "http:/", "http", "http//:" }, *tok[] = { "h", ":", "/", "@", "?", "#", "80", "u", "%", "\xff", "://", "065535" };
    char s[200]; int n, i; size_t l;
    strcpy(s, start[mc_choose(7)]); n = mc_choose(mc_bound + 1);
    for(i = 0; i < n; i++) strcat(s, tok[mc_choose(12)]);
    l = strlen(s); mc_log("'%s'", s); check_url((u8 *) s, l); mc_state(mc_hash(s, l, 0));
}
/* each part at every length around the space for it, the others short */
static void d06_sizes(void) {
    static char s[16384]; static const int room[] = { 64, 128, 128, 256, 1024, 1024, 256 }; int which = mc_choose(7), n = room[which] - 8 + mc_choose(16), o = 0, i; static const char *b[] = { "x", "u", "p", "h", "/p", "q", "f" }, *sep[] = { "://", ":", "@", ":80", "?", "#", "" };
    if(mc_choose(mc_bound)) n = n * 4;
    for(i = 0; i < 7; i++) {
        if(i != which) o += sprintf(s + o, "%s", b[i]); else { if(i == 4) s[o++] = '/'; memset(s + o, 'a' + i, n - (i == 4)); o += n - (i == 4); }
        o += sprintf(s + o, "%s", sep[i]);
    }
    check_url((u8 *) s, o); mc_state(which * 100000 + n);
}
/* ports of every length */
static void d06_port(void) {
    char s[512]; int n = mc_choose(mc_bound), z = mc_choose(2), o; want w;
    o = sprintf(s, "http://h:"); memset(s + o, z ? '0' : '7', n); o += n; if(n > 3) memcpy(s + o - 2, "80", 2); o += sprintf(s + o, "/p");
    parts((u8 *) s, o, &w);
    if(n < 100) check_url((u8 *) s, o);
    else { struct url_t u; ERROR_CODE r; u8 *x = exact(s, o); r = parse_url((char *) x, o, &u); if(!IS_ERROR_CODE(r)) mc_check(u.path.length == 2 && inside(&u.port_s, x, o), "a port of %d digits: wrong parts", n); unset_last_error_message(); free(x); }
    mc_state(n * 2 + z);
}

/* ---- D07 ---- */
static const char *tpl; static size_t tpl_n; static int opened, fail_open;
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *name, const char *mode) {
    if(strcmp(name, "template")) return __real_fopen(name, mode);
    opened++; if(fail_open) { errno = ENOENT; return NULL; }
    return fmemopen((void *) tpl, tpl_n, "rb");
}
/* the values known to every template:
 * s "str<&>", n 3, m -2147483648, f 1.5, z "", e [], t [ {k:"K0", n:1, l:[{k:"x"}]}, {k:"", n:3, l:[]}, { n: 7 } ], w [ "p", 5 ] */
typedef struct data { struct type_t s, n, m, f, z, e, t, w, item[3], k[2], in[3], l[2], x, xk, p, q; } data;
static data D;
static struct type_t mk(enum type_e t) { struct type_t v; memset(&v, 0, sizeof v); v.type = t; return v; }
static int n_value = 3;
static void values(void) {
    static const int num[] = { 1, 3, 7 }; int i;
    D.s = string_type("str<&>"); D.n = integer_type(n_value); D.m = integer_type(-2147483647 - 1); D.f = float_type(1.5f); D.z = string_type("");
    D.e = mk(LIST_TYPE); create_linked_list(&D.e.value.value_list); D.t = mk(LIST_TYPE); create_linked_list(&D.t.value.value_list); D.w = mk(LIST_TYPE); create_linked_list(&D.w.value.value_list);
    D.k[0] = string_type("K0"); D.k[1] = string_type(""); D.xk = string_type("x"); D.p = string_type("p"); D.q = integer_type(5);
    for(i = 0; i < 3; i++) {
        D.item[i] = mk(MAP_TYPE); create_hash_map(&D.item[i].value.value_map, 0);
        D.in[i] = integer_type(num[i]); set_value_string_hash_map(D.item[i].value.value_map, (u8 *) "n", &D.in[i]);
        if(i < 2) { set_value_string_hash_map(D.item[i].value.value_map, (u8 *) "k", &D.k[i]); D.l[i] = mk(LIST_TYPE); create_linked_list(&D.l[i].value.value_list); set_value_string_hash_map(D.item[i].value.value_map, (u8 *) "l", &D.l[i]); }
        append_value_linked_list(D.t.value.value_list, &D.item[i]);
    }
    D.x = mk(MAP_TYPE); create_hash_map(&D.x.value.value_map, 0); set_value_string_hash_map(D.x.value.value_map, (u8 *) "k", &D.xk); append_value_linked_list(D.l[0].value.value_list, &D.x);
    append_value_linked_list(D.w.value.value_list, &D.p); append_value_linked_list(D.w.value.value_list, &D.q);
}
static void drop(void) {
    int i; for(i = 0; i < 3; i++) delete_hash_map(D.item[i].value.value_map);
    for(i = 0; i < 2; i++) delete_linked_list(D.l[i].value.value_list);
    delete_hash_map(D.x.value.value_map); delete_linked_list(D.e.value.value_list); delete_linked_list(D.t.value.value_list); delete_linked_list(D.w.value.value_list);
}
/* renders, result in out; returns the code of the operation */
static ERROR_CODE render(const char *text, size_t n, char *out, size_t room) {
    struct template_handler_t *h; ERROR_CODE r; size_t base = mc_allocated();
    unset_last_error_message(); base = mc_allocated();
    values(); tpl = text; tpl_n = n; opened = 0;
    create_template_handler(&h);
    assign_string_template_handler(h, (u8 *) "s", D.s.value.value_string); assign_integer_template_handler(h, (u8 *) "n", n_value); assign_template_handler(h, (u8 *) "m", &D.m); assign_template_handler(h, (u8 *) "f", &D.f);
    assign_string_template_handler(h, (u8 *) "z", ""); assign_list_template_handler(h, (u8 *) "e", D.e.value.value_list); assign_list_template_handler(h, (u8 *) "t", D.t.value.value_list); assign_list_template_handler(h, (u8 *) "w", D.w.value.value_list);
    r = process_template_handler(h, (u8 *) "template");
    mc_check(opened == 1, "internal: the template was read %d times", opened);
    mc_check(h->string_value && strlen((char *) h->string_value) < room, "no result, or one that is too long");
    strcpy(out, (char *) h->string_value);
    delete_template_handler(h); drop(); unset_last_error_message();
    mc_check(mc_allocated() == base, "'%.*s': %zd bytes are left allocated", (int) (n > 300 ? 300 : n), text, (ssize_t) (mc_allocated() - base));
    mc_step(); return r;
}
/* the reference: tokens evaluated directly */
enum { T_TEXT, T_OUT, T_LOOP, T_IF, T_END, T_NONE };
typedef struct token { const char *src; int kind; const char *a, *b; int num; } token;
static const token toks[] = {
    { "a", T_TEXT, "a" }, { "$", T_TEXT, "$" }, { "}", T_TEXT, "}" }, { "\"/ {=\n", T_TEXT, "\"/ {=\n" },
    { "${out value=s /}", T_OUT, "s" }, { "${out value=n/}", T_OUT, "n" }, { "${out value=\"b /}$\" /}", T_TEXT, "b /}$" }, { "${out  value=12  /}", T_TEXT, "12" }, { "${out value=none /}", T_TEXT, "" },
    { "${out value=i.k /}", T_OUT, "i.k" }, { "${out value=j.k/}", T_OUT, "j.k" }, { "${foreach item=i from=t}", T_LOOP, "i", "t" }, { "${foreach from=i.l item=j}", T_LOOP, "j", "i.l" }, { "${foreach item=i from=e}", T_LOOP, "i", "e" },
    { "${if item=n value=3}", T_IF, "n", NULL, 3 }, { "${if item=i.n value=3}", T_IF, "i.n", NULL, 3 }, { "${end}", T_END }, { "${other value=1 /}", T_NONE },
    /* only in the second set */
    { "${out value=m /}", T_OUT, "m" }, { "${out value=f /}", T_OUT, "f" }, { "${out value=z /}", T_OUT, "z" }, { "${out value=i /}", T_OUT, "i" }, { "${foreach item=i from=w}", T_LOOP, "i", "w" }, { "${out value=s.k /}", T_TEXT, "" }, { "${out value=\"\"/}", T_TEXT, "" }, { "${if item=n value=4}", T_IF, "n", NULL, 4 }, { "${if item=s value=3}", T_IF, "s", NULL, 3 }, { "${foreach item=j from=n}", T_LOOP, "j", "n" }, { "${other/}", T_NONE }, { "${out value=t.k /}", T_TEXT, "" } };
#define N1 18
static struct type_t *env_i, *env_j; static int stale;    /* loop variables; used after their loop: not judged */
static struct type_t *look(const char *n) {
    struct type_t *v = NULL, *r = NULL;
    if(n[0] == 'i' && (!n[1] || n[1] == '.')) { v = env_i; if(!v && stale & 1) stale |= 4; } else if(n[0] == 'j' && (!n[1] || n[1] == '.')) { v = env_j; if(!v && stale & 2) stale |= 4; }
    else return !strcmp(n, "s") ? &D.s : !strcmp(n, "n") ? &D.n : !strcmp(n, "m") ? &D.m : !strcmp(n, "f") ? &D.f : !strcmp(n, "z") ? &D.z : !strcmp(n, "e") ? &D.e : !strcmp(n, "t") ? &D.t : !strcmp(n, "w") ? &D.w : NULL;
    if(!n[1] || !v) return v;
    if(v->type != MAP_TYPE) return NULL;
    get_value_string_hash_map(v->value.value_map, (u8 *) n + 2, (void **) &r); return r;
}
static int seq[16], len; static char ref[1 << 14]; static size_t ref_n; static int odd;
static void put(const char *f, ...) { va_list a; va_start(a, f); ref_n += vsnprintf(ref + ref_n, sizeof ref - ref_n, f, a); va_end(a); mc_check(ref_n < sizeof ref, "internal: too long"); }
static int eval(int at, int on) {      /* up to the matching end; returns the place after it */
    const token *t; struct type_t *v; int end;
    while(at < len) {
        t = &toks[seq[at++]];
        switch(t->kind) {
            case T_TEXT: if(on) put("%s", t->a); break;
            case T_OUT: if(on && (v = look(t->a)) != NULL) { if(v->type == STRING_TYPE) put("%s", v->value.value_string); else if(v->type == INTEGER_TYPE) put("%d", v->value.value_int); else if(v->type == FLOAT_TYPE) put("%f", v->value.value_float); else odd = 1; } break;
            case T_LOOP: {
                struct iterator_t *it; struct type_t *item, **var = t->a[0] == 'i' ? &env_i : &env_j, *save = *var; int any = 0; end = eval(at, 0);
                v = on ? look(t->b) : NULL;
                if(v && v->type == LIST_TYPE) {
                    create_iterator_linked_list(v->value.value_list, &it);
                    for(;;) { get_next_iterator(it, (void **) &item); if(!item) break; *var = item; any = 1; eval(at, 1); }
                    delete_iterator_linked_list(v->value.value_list, it);
                    /* the same name is in use outside of the loop: what it is afterwards is not judged */
                    *var = NULL; if(any || save) stale |= t->a[0] == 'i' ? 1 : 2;
                    if(!any) *var = save;
                }
                at = end; break;
            }
            case T_IF: v = on ? look(t->a) : NULL; at = eval(at, v && v->type == INTEGER_TYPE && v->value.value_int == t->num); break;
            case T_END: return at;
        }
    }
    return at;
}
static void templates(int ntok) {
    static char src[4096], out[1 << 14]; int n, i, depth = 0, kind[16]; ERROR_CODE r; size_t o = 0;
    n = mc_choose(mc_bound + 1); len = 0;
    for(i = 0; i < n; i++) {
        int c = mc_choose(ntok); const token *t;
        if(ntok != N1 && c < 3) c = c == 0 ? 0 : c == 1 ? 16 : 11;
        else if(ntok != N1) c = N1 + c - 3;
        t = &toks[c];
        if(t->kind == T_LOOP || t->kind == T_IF) kind[depth++] = t->kind;
        if(t->kind == T_END) { if(!depth) mc_skip(); depth--; o += sprintf(src + o, kind[depth] == T_LOOP ? "${/foreach}" : "${/if}"); }
        else o += sprintf(src + o, "%s", t->src);
        seq[len++] = c;
        if(n - i - 1 < depth) mc_skip();        /* can not be closed any more */
    }
    if(depth) mc_skip();
    r = render(src, o, out, sizeof out);
    values(); env_i = env_j = NULL; stale = odd = 0; ref_n = 0; ref[0] = 0; eval(0, 1); drop();
    mc_log("%s -> %s", src, out);
    mc_check(!IS_ERROR_CODE(r), "'%s' is an error", src);
    if(odd || stale & 4) mc_trivial(); else mc_check(!strcmp(out, ref), "'%s' gives '%s', expected '%s'", src, out, ref);
    mc_state(mc_hash(src, o, 0)); mc_outcome(mc_hash_s(out, 1));
}
static void d07_nested(void) { templates(N1); }
static void d07_values(void) { templates(3 + (int) (sizeof toks / sizeof *toks) - N1); }
/* numbers: given, compared with one another, written in the template */
static int number(int i) {   /* 0, 1, -1, then powers of two and their neighbours, of both signs */
    int64_t v; if(i < 3) return i == 2 ? -1 : i; i -= 3;
    v = (int64_t) 1 << (i / 6 + 1); v += i % 3 - 1; if(i / 3 % 2) v = -v;
    return v > 2147483647 ? 2147483647 : v < -2147483647 - 1 ? -2147483647 - 1 : (int) v;
}
static void d07_numbers(void) {
    char s[200], out[400], want_out[400]; int a = number(mc_choose(3 + 31 * 6)), i, b; ERROR_CODE r;
    n_value = a;
    for(i = 0; i < 3 + 31 * 6; i++) {
        b = number(i); if(b < 0) continue;
        snprintf(s, sizeof s, "${out value=n /}|${out value=%d /}|${if item=n value=%d}same${/if}|", b, b);
        snprintf(want_out, sizeof want_out, "%d|%d|%s|", a, b, a == b ? "same" : "");
        r = render(s, strlen(s), out, sizeof out);
        mc_check(!IS_ERROR_CODE(r) && !strcmp(out, want_out), "'%s' with n = %d gives '%s', expected '%s'", s, a, out, want_out);
    }
    n_value = 3; mc_state(a);
}
/* anything at all: memory only, and a text with no tag is the text itself */
static void d07_any(void) {
    static const char *start[] = { "", "${", "${out ", "${out value=", "${foreach item=i from=t}", "${out value=\"" }, alpha[] = "${}/ =\"ai.1"; char s[64], out[8192]; int n, i; size_t o; u8 *x; ERROR_CODE r;
    strcpy(s, start[mc_choose(6)]); o = strlen(s); n = mc_choose(mc_bound + 1);
    for(i = 0; i < n; i++) s[o++] = alpha[mc_choose(11)];
    s[o] = 0; x = exact(s, o); r = render((char *) x, o, out, sizeof out); free(x);
    if(!strstr(s, "${")) mc_check(!IS_ERROR_CODE(r) && !strcmp(out, s), "the text '%s' is given as '%s'", s, out); else mc_trivial();
    mc_state(mc_hash(s, o, 0)); mc_outcome(mc_hash_s(out, 1));
}
/* any tags in any order, closed or not, every truncation of them */
static void d07_broken(void) {
    static const char *t[] = { "a", "${out value=i.k /}", "${foreach item=i from=t}", "${foreach item=t from=t}", "${foreach item=i from=i.l}", "${if item=n value=3}", "${/foreach}", "${/if}", "${/}", "${/x value=1}", "${out value=e /}", "${foreach}", "${out}", "${out value /}", "${out value=1 value=\"}\" /}", "${ /}", "${out value=s}" };
    static char s[512], out[1 << 15]; int n = mc_choose(mc_bound + 1), i; size_t o = 0; u8 *x;
    for(i = 0; i < n; i++) o += sprintf(s + o, "%s", t[mc_choose(17)]);
    if(n) { size_t last = strlen(s), cutn = mc_choose(4); s[last] = 0; o -= cutn < o ? cutn : 0; }
    x = exact(s, o); render((char *) x, o, out, sizeof out); free(x);
    mc_state(mc_hash(s, o, 0)); mc_outcome(mc_hash_s(out, 1));
}
/* texts, literals and names of every length, tags at every place of the buffer used for reading */
static void d07_sizes(void) {
    static char s[20000], out[20000], want_out[20000]; int kind = mc_choose(4), n = mc_choose(mc_bound), pre; size_t o = 0, w = 0; ERROR_CODE r;
    if(kind == 0) { pre = 4096 - 40 + n; if(pre > 4110) mc_skip(); memset(s, 'x', pre); memcpy(want_out, s, pre); o = w = pre; o += sprintf(s + o, "${out value=\"lit\" /}"); w += sprintf(want_out + w, "lit"); }
    if(kind == 1) { if(n > 125) mc_skip(); o = sprintf(s, "${out value=\""); memset(s + o, 'y', n); o += n; o += sprintf(s + o, "\" /}"); memset(want_out, 'y', n); w = n; }
    if(kind == 2) { o = n * 67; memset(s, 'z', o); memcpy(want_out, s, o); w = o; }
    if(kind == 3) { if(n > 63 || n < 2) mc_skip(); o = sprintf(s, "${out value="); memset(s + o, 'q', n); o += n; o += sprintf(s + o, " /}.${other "); memset(s + o, 'q', n); o += n; o += sprintf(s + o, "=1 /}"); w = sprintf(want_out, "."); }
    s[o] = 0; want_out[w] = 0;
    r = render(s, o, out, sizeof out);
    mc_check(!IS_ERROR_CODE(r) && !strcmp(out, want_out), "%.60s (%zu bytes, kind %d, %d) gives %zu bytes, expected %zu", s, o, kind, n, strlen(out), w);
    mc_state(kind * 10000 + n);
}
/* longer literals and names than there is space for: memory only */
static void d07_long(void) {
    static char s[20000], out[20000]; int kind = mc_choose(4), n = 56 + mc_choose(mc_bound); size_t o = 0; u8 *x;
    static const char *head[] = { "${out value=\"", "${out value=", "${out ", "${" }, *tail[] = { "\" /}", " /}", "=1 /}", " value=1 /}" };
    o = sprintf(s, "%s", head[kind]); memset(s + o, 'y', n); o += n; o += sprintf(s + o, "%s", tail[kind]);
    x = exact(s, o); render((char *) x, o, out, sizeof out); free(x); mc_state(kind * 10000 + n);
}
static void d07_missing(void) {
    struct template_handler_t *h; ERROR_CODE r; size_t base; int again = mc_choose(2); unset_last_error_message(); base = mc_allocated();
    fail_open = 1; create_template_handler(&h); assign_integer_template_handler(h, (u8 *) "n", n_value);
    r = process_template_handler(h, (u8 *) "template"); fail_open = 0;
    mc_check(IS_ERROR_CODE(r), "a template that can not be opened is not an error"); (void) again;
    delete_template_handler(h); unset_last_error_message(); mc_check(mc_allocated() == base, "bytes are left allocated");
    mc_state(1); mc_step();
}
static const mc_scenario list[] = {
    { "D06.tokens", d06_tokens, 5, 7, 0, 0, 3, 0, "7 beginnings and every sequence of tokens over 12, split against the generic syntax" },
    { "D06.sizes", d06_sizes, 2, 2, 0, 0, 2, 0, "each part at every length around the space for it" },
    { "D06.port", d06_port, 300, 300, 0, 0, 1, 0, "ports of every number of digits" },
    { "D07.nested", d07_nested, 5, 6, 0, 0, 3, 0, "every well nested sequence over 18 pieces of text and tags, against a reference evaluation" },
    { "D07.values", d07_values, 5, 6, 0, 0, 3, 0, "the same over 15 other ones: every kind of value, wrong kinds, lists of plain values" },
    { "D07.numbers", d07_numbers, 1, 1, 0, 0, 1, 0, "every pair of 189 numbers around the powers of two: written, given and compared" },
    { "D07.any", d07_any, 5, 6, 0, 0, 3, 0, "6 beginnings and every string over 11 characters: memory, and texts with no tag" },
    { "D07.broken", d07_broken, 4, 5, 0, 0, 3, 0, "every sequence over 17 tags, closed or not, and cut: memory" },
    { "D07.sizes", d07_sizes, 200, 250, 0, 0, 2, 0, "texts, literals and names of every length, tags across the end of the reading buffer" },
    { "D07.long", d07_long, 200, 400, 0, 0, 2, 0, "names and literals longer than the space for them: memory" },
    { "D07.missing", d07_missing, 1, 1, 0, 0, 1, 0, "a template that can not be opened" },
};
MC_MAIN(list)
