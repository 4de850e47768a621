/* files.c - what is served: F01 fidelity, F02 ranges, F03 revalidation,
 * F04 containment, F05 protection, F06 directories, R01 routing */
#include "srv.h"
#include <regex.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/time.h>
#include <unistd.h>
#include <dirent.h>
#include <ctype.h>
#include <limits.h>

/* one request sent whole on its own connection, not cached */
static vsock *ask(const char *ini, const char *req, size_t len) {
    actor *a;
    fresh_run(ini);
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', req, len, 0);
    sim_run();
    return done(0);
}
static resp answered(const char *ini, const char *req, int head) {
    vsock *s = ask(ini, req, strlen(req)); return parsed(req, s->out, s->outlen, head);
}
static void body_is(const char *what, const resp *r, const char *want, size_t n) { same(what, r->body, r->bodylen, want, n); }
static void header_is(const char *what, const resp *r, const char *name, const char *want) {
    char v[600] = ""; int k = sim_header(r, name, v, sizeof v);
    if(want) mc_check(k && strcmp(v, want) == 0, "%s: header %s is '%s', expected '%s'", what, name, k ? v : "(absent)", want);
    else mc_check(!k, "%s: unexpected header %s: %s", what, name, v);
}
static char *pattern(size_t n, int seed) {
    static char *p; static size_t cap; size_t i;
    if(n + 1 > cap) { cap = n + 1; p = realloc(p, cap); }
    for(i = 0; i < n; i++) p[i] = (char) ((i * 31 + i / 251 + i / 65537 + (size_t) seed * 77) & 0xff);
    return p;
}

/* --- F01 ------------------------------------------------------------- */
static const size_t sizes[] = { 0, 1, 2, 127, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 16385, 65535, 65536, 65537,
    262143, 262144, 262145, 300007, 524287, 524288, 524289, 786432, 1048575, 1048576, 1048577, 2097152, 3000001 };
static void f01_size(void) {
    int i = mc_choose(COUNT(sizes)), m = mc_choose(3); char *p, t[100]; size_t n; resp r; vsock *s;
    static const char q[] = "GET /f.dat HTTP/1.1" CRLF KA CRLF, hd[] = "HEAD /f.dat HTTP/1.1" CRLF KA CRLF, last[] = "GET /f.dat HTTP/1.1" CRLF CRLF;
    actor *a;
    sim_site(); n = sizes[i]; p = pattern(n, i); sim_file("www/f.dat", p, n);
    fresh_run(BASE); a = sim_actor(); sim_add(a, 'c', 0, 0, 0);
    if(m == 0) { sim_add(a, 's', last, sizeof last - 1, 0); }
    if(m == 1) { sim_add(a, 's', q, sizeof q - 1, 0); sim_add(a, 's', hd, sizeof hd - 1, 0); sim_add(a, 's', last, sizeof last - 1, 0); }
    if(m == 2) { sim_add(a, 's', hd, sizeof hd - 1, 0); sim_add(a, 's', last, sizeof last - 1, 0); sim_add(a, 'c', 0, 0, 0); a->n--; }
    sim_run(); s = done(0);
    snprintf(t, sizeof t, "a file of %zu bytes", n);
    {   size_t at = 0; int k, count = m == 0 ? 1 : m == 1 ? 3 : 2;
        for(k = 0; k < count; k++) {
            int head = (m == 1 && k == 1) || (m == 2 && k == 0);
            mc_check(sim_parse(s->out + at, s->outlen - at, head, &r) == 1, "%s: response %d is not complete", t, k);
            mc_check(r.status == 200, "%s: status %d", t, r.status);
            mc_check(r.clen == (long) n, "%s: announced length %ld", t, r.clen);
            if(!head) body_is(t, &r, p, n);
            at += r.total;
        }
        mc_check(at == s->outlen, "%s: %zu bytes after the last response", t, s->outlen - at);
        mc_check(!was_open(0), "%s: the connection is left open", t);
    }
}
static const struct { const char *ext, *type; } types[] = {
    { ".*", "application/octet-stream" }, { ".323", "text/h323" }, { ".acx", "application/internet-property-stream" }, { ".ai", "application/postscript" },
    { ".aif", "audio/x-aiff" }, { ".aifc", "audio/x-aiff" }, { ".aiff", "audio/x-aiff" }, { ".asf", "video/x-ms-asf" }, { ".asr", "video/x-ms-asf" },
    { ".asx", "video/x-ms-asf" }, { ".au", "audio/basic" }, { ".avi", "video/x-msvideo" }, { ".axs", "application/olescript" }, { ".bas", "text/plain" },
    { ".bcpio", "application/x-bcpio" }, { ".bin", "application/octet-stream" }, { ".bmp", "image/bmp" }, { ".c", "text/plain" },
    { ".cat", "application/vnd.ms-pkiseccat" }, { ".cbx", "application/colony-bundle" }, { ".ccx", "application/colony-container" }, { ".cdf", "application/x-netcdf" },
    { ".cer", "application/x-x509-ca-cert" }, { ".class", "application/octet-stream" }, { ".clp", "application/x-msclip" }, { ".cmx", "image/x-cmx" },
    { ".cod", "image/cis-cod" }, { ".cpio", "application/x-cpio" }, { ".cpx", "application/colony-plugin" }, { ".crd", "application/x-mscardfile" },
    { ".crl", "application/pkix-crl" }, { ".crt", "application/x-x509-ca-cert" }, { ".csh", "application/x-csh" }, { ".css", "text/css" },
    { ".dcr", "application/x-director" }, { ".der", "application/x-x509-ca-cert" }, { ".dir", "application/x-director" }, { ".dll", "application/x-msdownload" },
    { ".dms", "application/octet-stream" }, { ".doc", "application/msword" }, { ".dot", "application/msword" }, { ".dvi", "application/x-dvi" },
    { ".dxr", "application/x-director" }, { ".eps", "application/postscript" }, { ".etx", "text/x-setext" }, { ".evy", "application/envoy" },
    { ".exe", "application/octet-stream" }, { ".fif", "application/fractals" }, { ".flac", "audio/x-flac" }, { ".flr", "x-world/x-vrml" }, { ".gif", "image/gif" },
    { ".gtar", "application/x-gtar" }, { ".gz", "application/x-gzip" }, { ".h", "text/plain" }, { ".hdf", "application/x-hdf" }, { ".hlp", "application/winhlp" },
    { ".hqx", "application/mac-binhex40" }, { ".hta", "application/hta" }, { ".htc", "text/x-component" }, { ".htm", "text/html" }, { ".html", "text/html" },
    { ".htt", "text/webviewhtml" }, { ".ico", "image/x-icon" }, { ".ief", "image/ief" }, { ".iii", "application/x-iphone" }, { ".ins", "application/x-internet-signup" },
    { ".isp", "application/x-internet-signup" }, { ".jfif", "image/pipeg" }, { ".jpe", "image/jpeg" }, { ".jpeg", "image/jpeg" }, { ".jpg", "image/jpeg" },
    { ".js", "application/x-javascript" }, { ".json", "application/json" }, { ".latex", "application/x-latex" }, { ".lha", "application/octet-stream" },
    { ".lsf", "video/x-la-asf" }, { ".lsx", "video/x-la-asf" }, { ".lzh", "application/octet-stream" }, { ".m13", "application/x-msmediaview" },
    { ".m14", "application/x-msmediaview" }, { ".m3u", "audio/x-mpegurl" }, { ".m4a", "audio/mp4" }, { ".man", "application/x-troff-man" },
    { ".mdb", "application/x-msaccess" }, { ".me", "application/x-troff-me" }, { ".mht", "message/rfc822" }, { ".mhtml", "message/rfc822" }, { ".mid", "audio/mid" },
    { ".mka", "audio/x-matroska" }, { ".mkv", "video/x-matroska" }, { ".mny", "application/x-msmoney" }, { ".mov", "video/quicktime" }, { ".movie", "video/x-sgi-movie" },
    { ".mp2", "video/mpeg" }, { ".mp3", "audio/mpeg" }, { ".mp4", "video/mp4" }, { ".mpa", "video/mpeg" }, { ".mpe", "video/mpeg" }, { ".mpeg", "video/mpeg" },
    { ".mpg", "video/mpeg" }, { ".mpp", "application/vnd.ms-project" }, { ".mpv2", "video/mpeg" }, { ".ms", "application/x-troff-ms" },
    { ".msg", "application/vnd.ms-outlook" }, { ".mvb", "application/x-msmediaview" }, { ".nc", "application/x-netcdf" }, { ".nws", "message/rfc822" },
    { ".oda", "application/oda" }, { ".odf", "font/opentype" }, { ".ogg", "audio/ogg" }, { ".p10", "application/pkcs10" }, { ".p12", "application/x-pkcs12" },
    { ".p7b", "application/x-pkcs7-certificates" }, { ".p7c", "application/x-pkcs7-mime" }, { ".p7m", "application/x-pkcs7-mime" },
    { ".p7r", "application/x-pkcs7-certreqresp" }, { ".p7s", "application/x-pkcs7-signature" }, { ".pbm", "image/x-portable-bitmap" }, { ".pdf", "application/pdf" },
    { ".pfx", "application/x-pkcs12" }, { ".pgm", "image/x-portable-graymap" }, { ".pko", "application/ynd.ms-pkipko" }, { ".pma", "application/x-perfmon" },
    { ".pmc", "application/x-perfmon" }, { ".pml", "application/x-perfmon" }, { ".pmr", "application/x-perfmon" }, { ".pmw", "application/x-perfmon" },
    { ".png", "image/png" }, { ".pnm", "image/x-portable-anymap" }, { ".pot", "application/vnd.ms-powerpoint" }, { ".ppm", "image/x-portable-pixmap" },
    { ".pps", "application/vnd.ms-powerpoint" }, { ".ppt", "application/vnd.ms-powerpoint" }, { ".prf", "application/pics-rules" }, { ".ps", "application/postscript" },
    { ".pub", "application/x-mspublisher" }, { ".qt", "video/quicktime" }, { ".ra", "audio/x-pn-realaudio" }, { ".ram", "audio/x-pn-realaudio" },
    { ".ras", "image/x-cmu-raster" }, { ".rgb", "image/x-rgb" }, { ".rmi", "audio/mid" }, { ".roff", "application/x-troff" }, { ".rtf", "application/rtf" },
    { ".rtx", "text/richtext" }, { ".scd", "application/x-msschedule" }, { ".sct", "text/scriptlet" }, { ".setpay", "application/set-payment-initiation" },
    { ".setreg", "application/set-registration-initiation" }, { ".sh", "application/x-sh" }, { ".shar", "application/x-shar" }, { ".sit", "application/x-stuffit" },
    { ".snd", "audio/basic" }, { ".spc", "application/x-pkcs7-certificates" }, { ".spl", "application/futuresplash" }, { ".src", "application/x-wais-source" },
    { ".sst", "application/vnd.ms-pkicertstore" }, { ".stl", "application/vnd.ms-pkistl" }, { ".stm", "text/html" }, { ".sv4cpio", "application/x-sv4cpio" },
    { ".sv4crc", "application/x-sv4crc" }, { ".svg", "image/svg+xml" }, { ".swf", "application/x-shockwave-flash" }, { ".t", "application/x-troff" },
    { ".tar", "application/x-tar" }, { ".tcl", "application/x-tcl" }, { ".tex", "application/x-tex" }, { ".texi", "application/x-texinfo" },
    { ".texinfo", "application/x-texinfo" }, { ".tgz", "application/x-compressed" }, { ".tif", "image/tiff" }, { ".tiff", "image/tiff" },
    { ".tr", "application/x-troff" }, { ".trm", "application/x-msterminal" }, { ".tsv", "text/tab-separated-values" }, { ".ttf", "application/x-font-ttf" },
    { ".txt", "text/plain" }, { ".uls", "text/iuls" }, { ".ustar", "application/x-ustar" }, { ".vcf", "text/x-vcard" }, { ".vrml", "x-world/x-vrml" },
    { ".wav", "audio/x-wav" }, { ".wcm", "application/vnd.ms-works" }, { ".wdb", "application/vnd.ms-works" }, { ".weba", "audio/webm" }, { ".webm", "video/webm" },
    { ".wks", "application/vnd.ms-works" }, { ".wmf", "application/x-msmetafile" }, { ".wps", "application/vnd.ms-works" }, { ".wri", "application/x-mswrite" },
    { ".wrl", "x-world/x-vrml" }, { ".wrz", "x-world/x-vrml" }, { ".xaf", "x-world/x-vrml" }, { ".xbm", "image/x-xbitmap" }, { ".xla", "application/vnd.ms-excel" },
    { ".xlc", "application/vnd.ms-excel" }, { ".xlm", "application/vnd.ms-excel" }, { ".xls", "application/vnd.ms-excel" }, { ".xlt", "application/vnd.ms-excel" },
    { ".xlw", "application/vnd.ms-excel" }, { ".xml", "application/xml" }, { ".xof", "x-world/x-vrml" }, { ".xpm", "image/x-xpixmap" }, { ".xwd", "image/x-xwindowdump" },
    { ".z", "application/x-compress" }, { ".zip", "application/zip" },
};
/* every known extension, in every case, behind every shape of name */
static void f01_type(void) {
    static const char *stems[] = { "f", "a.b", "dir.d/f", ".hidden", "x%20y", "f.txt" };
    int i = mc_choose(COUNT(types)), cs = mc_choose(3), st = mc_choose(COUNT(stems)), k; char ext[16], path[200], file[200], req[300]; resp r; size_t j;
    snprintf(ext, sizeof ext, "%s", types[i].ext);
    for(j = 0; ext[j]; j++) if(cs == 1 || (cs == 2 && j % 2)) ext[j] = toupper((unsigned char) ext[j]);
    sim_site(); mkdir("www/dir.d", 0755);
    snprintf(path, sizeof path, "%s%s", stems[st], ext);
    snprintf(file, sizeof file, "www/%s", path);
    { char *q = strstr(file, "%20"); if(q) { *q = ' '; memmove(q + 1, q + 3, strlen(q + 3) + 1); } }
    sim_file(file, ext, strlen(ext));
    snprintf(req, sizeof req, "GET /%s HTTP/1.1" CRLF CRLF, path);
    r = answered(BASE, req, 0);
    mc_check(r.status == 200, "%s: status %d", path, r.status); body_is(path, &r, ext, strlen(ext));
    k = strcmp(types[i].ext, ".flac") == 0;
    header_is(path, &r, "Content-Type", k ? "audio/x-flac" : types[i].type);
    unlink(file);
}
/* names without a known extension have no type, whatever they look like */
static void f01_untyped(void) {
    static const char *names[] = { "txt", "f.", "f.tx", "f.txtt", "f.txt.", "f.txt.zzz", "f.zzz", "f..", "fhtml", "f.htm.l", "f.TX", "f.t%20xt", "f.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "f.txt-1", "dir.txt/f", "dir.txt/f.zzz" };
    int i = mc_choose(COUNT(names)), head = mc_choose(2); char file[200], req[300], *q; resp r;
    sim_site(); mkdir("www/dir.txt", 0755);
    snprintf(file, sizeof file, "www/%s", names[i]);
    q = strstr(file, "%20"); if(q) { *q = ' '; memmove(q + 1, q + 3, strlen(q + 3) + 1); }
    sim_file(file, "some", 4);
    snprintf(req, sizeof req, "%s /%s HTTP/1.1" CRLF CRLF, head ? "HEAD" : "GET", names[i]);
    r = answered(BASE, req, head);
    unlink(file); rmdir("www/dir.txt");
    mc_check(r.status == 200, "%s: status %d", names[i], r.status);
    if(!head) body_is(names[i], &r, "some", 4);
    header_is(names[i], &r, "Content-Type", NULL);
}
/* names of every byte: the file asked for is the one given */
static void f01_name(void) {
    int c = 1 + mc_choose(255), where = mc_choose(4), esc = mc_choose(2); char name[40], file[60], req[200], e[4]; resp r; const char *body = "this one";
    static const char plain[] = "!$&'()*,-.0123456789:;=@ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz~";
    if(c == '/') { mc_trivial(); return; }
    if(!esc && !strchr(plain, c)) { mc_trivial(); return; }
    sim_site(); mkdir("www/n", 0755);
    if(esc) snprintf(e, sizeof e, "%%%02X", c); else { e[0] = (char) c; e[1] = 0; }
    snprintf(name, sizeof name, where == 0 ? "%cqz" : where == 1 ? "q%cz" : where == 2 ? "qz%c" : "q%c41z", c);
    snprintf(file, sizeof file, "www/n/%s", name); sim_file(file, body, strlen(body)); sim_file("www/n/qz", "other", 5); if(where == 3) { sim_file("www/n/qAz", "other", 5); if(c == '%') { sim_file("www/n/q%z", "other", 5); } }
    snprintf(req, sizeof req, where == 0 ? "GET /n/%sqz HTTP/1.1" CRLF CRLF : where == 1 ? "GET /n/q%sz HTTP/1.1" CRLF CRLF : where == 3 ? "GET /n/q%s41z HTTP/1.1" CRLF CRLF : "GET /n/qz%s HTTP/1.1" CRLF CRLF, e);
    r = answered(BASE, req, 0);
    unlink(file);
    mc_check(r.status == 200, "a file with the byte 0x%02x in its name: status %d", c, r.status); body_is(req, &r, body, strlen(body));
}
/* the file is replaced between two requests of a persistent connection */
static int f01_stage; static size_t f01_n[4]; static int f01_k;
static const size_t few[] = { 0, 1, 5, 4096, 262144, 300007 };
static int next_version(void) {
    static const char q[] = "GET /v.dat HTTP/1.1" CRLF KA CRLF;
    if(f01_stage >= f01_k) return 0;
    sim_file("www/v.dat", pattern(f01_n[f01_stage], f01_stage), f01_n[f01_stage]);
    sim_put(sim_client(0), q, sizeof q - 1); f01_stage++;
    return 1;
}
static void f01_versions(void) {
    static const char q[] = "GET /v.dat HTTP/1.1" CRLF KA CRLF; actor *a; vsock *s; size_t at = 0; int i; resp r;
    f01_k = mc_bound; sim_site();
    for(i = 0; i < f01_k; i++) f01_n[i] = few[mc_choose(COUNT(few))];
    sim_file("www/v.dat", pattern(f01_n[0], 0), f01_n[0]); f01_stage = 1;
    fresh_run(BASE); sim_idle_hook = next_version;
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', q, sizeof q - 1, 0);
    sim_run(); s = done(0);
    for(i = 0; i < f01_k; i++) {
        mc_check(sim_parse(s->out + at, s->outlen - at, 0, &r) == 1, "response %d is not complete", i);
        body_is("the contents at the time of the request", &r, pattern(f01_n[i], i), f01_n[i]); at += r.total;
    }
    mc_check(at == s->outlen && was_open(0), "the connection is not left open and quiet");
}
/* the file changes while it is being sent */
static int ch_at, ch_how, ch_did; static size_t ch_to;
static int changing(vsock *s, const char *b, size_t len) {
    (void) b;
    if(s != sim_client(0)) return (int) len;
    if(s->sends == ch_at + 1 && !ch_did) {
        ch_did = 1;
        if(ch_how == 0) { if(truncate("www/v.dat", (off_t) ch_to)) mc_fail("internal: truncate"); }
        else if(ch_how == 1) unlink("www/v.dat");
        else if(ch_how == 2) { sim_file("www/v2.dat", pattern(ch_to, 9), ch_to); rename("www/v2.dat", "www/v.dat"); }
        else sim_file("www/v.dat", pattern(ch_to, 9), ch_to);
    }
    return (int) len;
}
static void f01_changing(void) {
    static const char two[] = "GET /v.dat HTTP/1.1" CRLF KA CRLF "GET /hello.txt HTTP/1.1" CRLF CRLF; size_t n, i, room; resp r; vsock *s; actor *a; int k;
    static const size_t to[] = { 0, 1, 100, 262143, 262144, 262145, 300007, 600000, 900000 }; static char *p0, *p1;
    n = 1 + mc_choose(3); n = n == 1 ? 100 : n == 2 ? 300007 : 600000;
    ch_at = mc_choose(5); ch_how = mc_choose(4); ch_to = ch_how == 1 ? 0 : to[mc_choose(COUNT(to))]; ch_did = 0;
    sim_site(); sim_file("www/v.dat", pattern(n, 1), n); free(p0); p0 = copy(pattern(n, 1), n);
    free(p1); p1 = copy(pattern(ch_to, 9), ch_to);
    fresh_run(BASE); sim_send_hook = changing;
    a = sim_actor(); sim_add(a, 'c', 0, 0, 0); sim_add(a, 's', two, sizeof two - 1, 0);
    good_client();
    sim_run(); s = done(0); good_check(1);
    k = sim_parse(s->out, s->outlen, 0, &r);
    mc_check(k >= 0, "the response is malformed");
    if(k == 0) { /* cut short: only by closing */
        const char *h = memmem(s->out, s->outlen, CRLF CRLF, 4);
        mc_check(!was_open(0), "the response is incomplete and the connection is left open");
        mc_check(h != NULL, "not even the header was sent"); r.body = h + 4; room = s->outlen - (size_t) (r.body - s->out);
        mc_check(strncmp(s->out, "HTTP/1.1 200", 12) == 0, "an incomplete response that is not the file");
    } else {
        resp r2; room = r.bodylen;
        mc_check(r.status == 200 || r.status == 404, "status %d", r.status);
        mc_check(sim_parse(s->out + r.total, s->outlen - r.total, 0, &r2) == 1 && r2.status == 200 && r2.bodylen == 12, "the next request is not answered");
        if(r.status == 404) return;
        mc_check(r.clen == (long) n, "announced length %ld of a file of %zu bytes", r.clen, n);
    }
    for(i = 0; i < room; i++) {
        int ok = (i < n && r.body[i] == p0[i]) || (i < ch_to && ch_how != 0 && r.body[i] == p1[i]);
        mc_check(ok, "byte %zu of the body comes from neither version of the file", i);
    }
}

/* --- F02 ------------------------------------------------------------- */
static int number(const char **p, unsigned long long *v) {
    const char *q = *p; *v = 0;
    while(isdigit((unsigned char) *q)) { if(*v > 100000000000000ULL) *v = 100000000000000ULL; *v = *v * 10 + (*q - '0'); q++; }
    if(q == *p) return 0;
    *p = q; return 1;
}
/* what a range designates: 1 and the limits, or 0 when it is to be ignored */
static int range_ref(const char *v, size_t n, size_t *from, size_t *to) {
    unsigned long long a, b;
    if(strncmp(v, "bytes=", 6) || n == 0) return 0;
    v += 6;
    if(*v == '-') { v++; if(!number(&v, &b) || b == 0) return 0; a = b >= n ? 0 : n - b; b = n - 1; }
    else {
        if(!number(&v, &a) || *v++ != '-') return 0;
        if(isdigit((unsigned char) *v)) { number(&v, &b); if(b < a) return 0; } else b = n - 1;
        if(b >= n) b = n - 1;
    }
    while(*v == ' ' || *v == '\t') v++;
    if(*v || a >= n) return 0;
    *from = a; *to = b; return 1;
}
static void range_check(const char *value, const char *file, const char *body, size_t n, const char *path, int head) {
    char req[400], cr[100]; size_t a, b; resp r;
    (void) file;
    snprintf(req, sizeof req, "%s %s HTTP/1.1" CRLF "Range: %s" CRLF CRLF, head ? "HEAD" : "GET", path, value);
    r = answered(BASE, req, head);
    if(range_ref(value, n, &a, &b)) {
        mc_check(r.status == 206, "'%s' of %zu bytes: status %d, expected 206", value, n, r.status);
        snprintf(cr, sizeof cr, "bytes %zu-%zu/%zu", a, b, n);
        header_is(req, &r, "Content-Range", cr);
        mc_check(r.clen == (long) (b - a + 1), "'%s' of %zu bytes: announced length %ld", value, n, r.clen);
        if(!head) body_is(req, &r, body + a, b - a + 1);
        mc_outcome(mc_hash(&a, sizeof a, b));
    } else {
        mc_check(r.status == 200, "'%s' of %zu bytes: status %d, expected the whole contents (200)", value, n, r.status);
        mc_check(r.clen == (long) n, "'%s' of %zu bytes: announced length %ld", value, n, r.clen);
        if(!head) body_is(req, &r, body, n);
        header_is(req, &r, "Content-Range", NULL);
    }
}
static void f02_small(void) {
    int a = mc_choose(mc_bound + 1), b = mc_choose(mc_bound + 1), shape = mc_choose(3), head = mc_choose(2), n = mc_choose(4); char v[60];
    static const struct { const char *path, *body; size_t n; } f[] = { { "/hello.txt", "hello world\n", 12 }, { "/empty.txt", "", 0 }, { "/one.bin", "\0", 1 }, { "/noext", "plain", 5 } };
    if(shape && b) { mc_trivial(); return; }
    snprintf(v, sizeof v, shape == 0 ? "bytes=%d-%d" : shape == 1 ? "bytes=%d-" : "bytes=-%d", a, b);
    range_check(v, "", f[n].body, f[n].n, f[n].path, head);
}
static void f02_big(void) {
    static const size_t edge[] = { 0, 1, 4095, 4096, 262143, 262144, 262145, 299999, 300000, 300005, 300006, 300007, 300008, 524288, 4294967295UL, 4294967296UL, 4294967297UL };
    size_t a = edge[mc_choose(COUNT(edge))], b = edge[mc_choose(COUNT(edge))]; int shape = mc_choose(3); char v[60];
    snprintf(v, sizeof v, shape == 0 ? "bytes=%zu-%zu" : shape == 1 ? "bytes=%zu-" : "bytes=-%zu", a, b);
    if(shape && b) { mc_trivial(); return; }
    sim_site();
    range_check(v, "", sim_big(), SIM_BIG, "/big.bin", 0);
}
static void f02_odd(void) {             /* every string of up to k symbols after the unit */
    static const char *sym[] = { "0", "3", "11", "12", "-", ",", " ", "=", "x", "bytes=", "+", "18446744073709551616", "\t" };
    int k = mc_choose(mc_bound + 1), i, unit = mc_choose(4); char v[200] = ""; static const char *units[] = { "bytes=", "", "Bytes=", "bytes" };
    strcat(v, units[unit]);
    for(i = 0; i < k; i++) strcat(v, sym[mc_choose(COUNT(sym))]);
    if(v[0] == ' ' || v[0] == '\t') { mc_trivial(); return; }   /* the protocol strips it */
    range_check(v, "", "hello world\n", 12, "/hello.txt", 0);
}

/* --- F03 ------------------------------------------------------------- */
static void stamp(const char *f, time_t t) { struct timespec ts[2] = { { t, 0 }, { t, 0 } }; utimensat(AT_FDCWD, f, ts, 0); }
static void etag_of(const char *path, char *out) {
    char req[200], v[100]; resp r;
    snprintf(req, sizeof req, "GET %s HTTP/1.1" CRLF CRLF, path);
    r = answered(BASE, req, 0);
    mc_check(r.status == 200, "%s: status %d", path, r.status);
    mc_check(sim_header(&r, "ETag", v, sizeof v), "%s: no entity tag", path);
    mc_check(strlen(v) == 10 && v[0] == '"' && v[9] == '"', "%s: entity tag %s", path, v);
    strcpy(out, v);
}
/* a tag is current until the file changes; the time of the change differs by d seconds */
static void f03_change(void) {
    static const long ds[] = { 0, 1, -1, 2, 10, 59, 60, 61, 600, 3600, 7200, 43200, 86400, 31536000, -31536000, 100000000, 256, 65536 };
    static const time_t base[] = { 1000000000, 951782399, 1583020799, 1, 1709251199 };
    long d = ds[mc_choose(COUNT(ds))]; time_t t = base[mc_choose(COUNT(base))]; char e1[100], e2[100], req[300]; resp r; int how = mc_choose(4);
    if(t + d < 0) { mc_trivial(); return; }
    sim_site(); sim_file("www/e.txt", d ? "one" : "three", d ? 3 : 5); stamp("www/e.txt", t); etag_of("/e.txt", e1);
    sim_file("www/e.txt", "three", 5); stamp("www/e.txt", t + d); etag_of("/e.txt", e2);
    mc_check((strcmp(e1, e2) == 0) == (d == 0), "written %ld seconds later the entity tag is %s, was %s", d, e2, e1);
    snprintf(req, sizeof req, "%s /e.txt HTTP/1.1" CRLF "%sIf-None-Match: %s" CRLF "%s" CRLF, how & 1 ? "HEAD" : "GET", how & 2 ? KA : "", e1, how & 2 ? "Range: bytes=1-2" CRLF : "");
    r = answered(BASE, req, how & 1);
    if(d == 0) { mc_check(r.status == 304 && r.bodylen == 0, "the tag is current, status %d", r.status); }
    else {
        mc_check(r.status == (how & 2 ? 206 : 200), "the tag is old, status %d", r.status);
        if(!(how & 1)) body_is(req, &r, how & 2 ? "hr" : "three", how & 2 ? 2 : 5);
    }
}
/* any other value of the header gives the contents */
static void f03_other(void) {
    static const char hex[] = "0123456789abcdef\"x "; char e[100], v[120], req[300]; int pos, c, k; resp r;
    sim_site(); sim_file("www/e.txt", "one", 3); stamp("www/e.txt", 1000000000); etag_of("/e.txt", e);
    k = mc_choose(4); strcpy(v, e);
    if(k == 0) { pos = mc_choose(10); c = hex[mc_choose((int) sizeof hex - 1)]; if(v[pos] == c || (pos == 0 && c == ' ') || (pos == 9 && c == ' ')) { mc_trivial(); return; } v[pos] = (char) c; }
    else if(k == 1) { pos = mc_choose(10); v[pos] = 0; }
    else if(k == 2) { pos = mc_choose(9); memmove(v, v + pos + 1, strlen(v + pos + 1) + 1); }
    else { char t[3] = { hex[mc_choose(16)], 0, 0 }; sprintf(v, "\"%s%s", t, e + 1); }
    snprintf(req, sizeof req, "GET /e.txt HTTP/1.1" CRLF "If-None-Match: %s" CRLF CRLF, v);
    r = answered(BASE, req, 0);
    mc_check(r.status == 200, "'%s' is not the current tag %s, status %d", v, e, r.status); body_is(req, &r, "one", 3);
}
/* the conditions of one request do not carry over to the next ones */
static void f03_carry(void) {
    static const char *hs[] = { "", "Range: bytes=0-0" CRLF, "If-None-Match: CURRENT" CRLF, "If-None-Match: \"00000000\"" CRLF, "Range: bytes=9-" CRLF, "Range: x" CRLF };
    static char reqs[1500]; char e[100]; int k = mc_bound, i, h[4], head[4]; vsock *s; size_t at = 0; resp r;
    sim_site(); sim_file("www/e.txt", "three", 5); stamp("www/e.txt", 1000000000); etag_of("/e.txt", e); reqs[0] = 0;
    for(i = 0; i < k; i++) {
        char one[200], *c; h[i] = mc_choose(COUNT(hs)); head[i] = mc_choose(2);
        snprintf(one, sizeof one, "%s /e.txt HTTP/1.1" CRLF KA "%s" CRLF, head[i] ? "HEAD" : "GET", hs[h[i]]);
        if((c = strstr(one, "CURRENT"))) { memmove(c + strlen(e), c + 7, strlen(c + 7) + 1); memcpy(c, e, strlen(e)); }
        strcat(reqs, one);
    }
    s = ask(BASE, reqs, strlen(reqs));
    for(i = 0; i < k; i++) {
        int want = h[i] == 1 ? 206 : h[i] == 2 ? 304 : 200;
        mc_check(sim_parse(s->out + at, s->outlen - at, head[i], &r) == 1, "response %d is not complete", i);
        mc_check(r.status == want, "request %d (%s): status %d, expected %d", i, hs[h[i]], r.status, want);
        mc_check(r.clen == (want == 206 ? 1 : want == 304 ? r.clen : 5), "request %d: announced length %ld", i, r.clen);
        if(!head[i] && want != 304) body_is("the contents", &r, "three", want == 206 ? 1 : 5);
        at += r.total;
    }
    mc_check(at == s->outlen && was_open(0), "the connection is not left open and quiet");
}

/* --- F04/F05/R01: where a path leads -------------------------------- */
/* reads a regular file completely, NULL when there is none */
static char *slurp(const char *p, size_t *n) {
    struct stat st; FILE *f; char *d;
    if(stat(p, &st) || !S_ISREG(st.st_mode)) return NULL;
    f = fopen(p, "rb"); if(!f) return NULL;
    d = malloc(st.st_size + 1); *n = fread(d, 1, st.st_size, f); d[*n] = 0; fclose(f);
    return d;
}
static int hexval(int c) { return isdigit(c) ? c - '0' : isxdigit(c) ? tolower(c) - 'a' + 10 : -1; }
/* percent decoding, '+' is a space; 0 when the result holds a zero byte */
static int decode(const char *s, size_t n, char *out) {
    size_t i, k = 0; int ok = 1;
    for(i = 0; i < n; i++) {
        if(s[i] == '%' && i + 2 < n + 0 && hexval((unsigned char) s[i + 1]) >= 0 && hexval((unsigned char) s[i + 2]) >= 0) { out[k++] = (char) (hexval((unsigned char) s[i + 1]) * 16 + hexval((unsigned char) s[i + 2])); i += 2; }
        else out[k++] = s[i] == '+' ? ' ' : s[i];
        if(out[k - 1] == 0) { ok = 0; out[k - 1] = 1; } /* no file has such a name */
    }
    out[k] = 0;
    return ok;
}
/* removes the dot segments of a decoded path, never above the root; 0: it went above */
static int resolve(const char *s, char *out) {
    char buf[9000], *seg[4500], *p; int n = 0, i, inside = 1, dir; size_t l = strlen(s);
    snprintf(buf, sizeof buf, "%s", s);
    dir = l == 0 || s[l - 1] == '/' || (l >= 2 && strcmp(s + l - 2, "/.") == 0) || (l >= 3 && strcmp(s + l - 3, "/..") == 0);
    for(p = strtok(buf, "/"); p; p = strtok(NULL, "/")) {
        if(!strcmp(p, ".")) continue;
        if(!strcmp(p, "..")) { if(n) n--; else inside = 0; continue; }
        seg[n++] = p;
    }
    out[0] = 0;
    for(i = 0; i < n; i++) { strcat(out, "/"); strcat(out, seg[i]); }
    if(dir || n == 0) strcat(out, "/");
    return inside;
}
typedef struct where { int status; char *body; size_t n; } where;
/* what serving the (decoded, resolved) path under the base gives */
static where lookup(const char *base, const char *path) {
    where w; char f[9000]; struct stat st; size_t l = strlen(path);
    memset(&w, 0, sizeof w); w.status = 404;
    snprintf(f, sizeof f, "%s%s", base, path);
    if(stat(f, &st)) return w;
    if(S_ISDIR(st.st_mode)) {
        if(l == 0 || path[l - 1] != '/') { w.status = 307; return w; }
        w.status = 200; return w;       /* the listing, or the index file */
    }
    w.body = slurp(f, &w.n); w.status = w.body ? 200 : 404;
    return w;
}
/* nothing outside what the configuration names was opened while serving */
static void contained(const char *what, int alt) {
    int i; char real[PATH_MAX], root[PATH_MAX]; size_t k;
    if(!realpath(".", root)) mc_fail("internal: realpath");
    k = strlen(root);
    for(i = 0; i < sim_nopened; i++) {
        const char *p;
        if(!realpath(sim_opened[i], real)) continue;    /* nothing there */
        mc_check(strncmp(real, root, k) == 0 && real[k] == '/', "%s: the server opened %s", what, sim_opened[i]);
        p = real + k + 1;
        mc_check(strncmp(p, "www", 3) == 0 || strncmp(p, "cfg", 3) == 0 || strncmp(p, "mods", 4) == 0 || (alt && strncmp(p, "alt", 3) == 0), "%s: the server opened %s", what, sim_opened[i]);
    }
}
static const char *segs[] = { "dir", "sub", "hello.txt", "a.txt", "..", ".", "", "%2e%2e", ".%2e", "%2E", "%2f", "..%2f", "%2e%2e%2f", "..\\", "%5c..", "%00", "%252e%252e", "secret", "outside.txt", "a%20b", "a+b", "c.txt", "www", "..%00", "...", "hello.txt%00.html", "x.txt" };
static void spell(char *out, int depth) {
    int i, n = 1 + mc_choose(depth);
    out[0] = 0;
    for(i = 0; i < n; i++) { strcat(out, "/"); strcat(out, segs[mc_choose(n == 4 ? 15 : COUNT(segs))]); }
    if(mc_choose(2)) strcat(out, "/");
}
#define F04_FILE "[general]\nhandler=file\nuse_template=0\n"
#ifdef MC_MINIMAL                       /* there are no locations without regular expressions */
#define F04_CFGS 2
#else
#define F04_CFGS 3
#endif
#define F04_ALT BASE "[location:alt]\npath=^/alt\nhandler=file\nbase_path=alt\n"
static void f04_check(const char *ini, int cfg, const char *path) {
    static char d[9000], rs[9000], req[9000], what[9000]; where w; vsock *s; resp r; int ok, inside, alt = 0; const char *base = "www", *rest;
    snprintf(req, sizeof req, "GET %s HTTP/1.1" CRLF CRLF, path);
    s = ask(ini, req, strlen(req));
    if(strlen(path) > 300) snprintf(what, sizeof what, "%.20s...%s (%zu bytes, configuration %d)", path, path + strlen(path) - 40, strlen(path), cfg);
    else snprintf(what, sizeof what, "%s (configuration %d)", path, cfg);
    r = parsed(what, s->out, s->outlen, 0);
    contained(what, cfg == 2);
    mc_check(r.bodylen < 7 || !memmem(r.body, r.bodylen, "OUTSIDE", 7), "%s: a file outside the site is served", what);
    /* refused: a path longer than the names that the server can hold */
    if((r.status == 404 && strlen(path) >= 1000) || (r.status == 500 && strlen(path) >= 3900)) { mc_outcome(r.status); return; }
    ok = decode(path, strlen(path), d); inside = resolve(d, rs);
    if(cfg == 2 && strncmp(rs, "/alt", 4) == 0 && (rs[4] == '/' || rs[4] == 0)) alt = 1;
    rest = rs;
    if(alt) { base = "alt"; rest = rs + 4; }
    if((!ok && (cfg == 1 || strchr(rs, 1))) || (!inside && cfg == 1)) { mc_check(r.status == 404, "%s: status %d, expected 404", what, r.status); return; }
    /* a path that goes above the root is refused, or stays at the root */
    if(!inside && r.status == 404) return;
    if(cfg == 1) rest = d;              /* walked by the file system as it is written */
    w = lookup(base, rest);
    /* text that only after a second decoding would matter is left alone */
    if(w.body) {
        mc_check(r.status == 200, "%s: status %d, expected the file %.100s", what, r.status, rest); body_is(what, &r, w.body, w.n); free(w.body);
    } else if(w.status == 307 || w.status == 200) {
        mc_check(r.status == 200 || r.status == 307, "%s: status %d, expected the directory %.100s", what, r.status, rest);
    } else {
        mc_check(r.status == 404, "%s: status %d although there is no %.100s", what, r.status, rest);
    }
    mc_outcome(mc_hash(r.body, r.bodylen, r.status));
}
static void f04(void) {
    static const char *inis[] = { BASE, F04_FILE, F04_ALT }; int cfg = mc_choose(F04_CFGS); char path[400];
    sim_site();
    strcpy(path, cfg == 2 && mc_choose(2) ? "/alt" : "");
    spell(path + strlen(path), mc_bound);
    f04_check(inis[cfg], cfg, path);
}

/* the same at the lengths of the buffers: a path is never served as a shorter one */
static void f04_long(void) {
    static const char *inis[] = { BASE, F04_FILE, F04_ALT }, *fills[] = { "./", "/", "%2e/", "dir/../", "dir/..//", "a" }, *tails[] = { "hello.txt", "hello.txtX", "hello.txt%58", "hello.txt.", "hello.txt/", "dir/a.txt%20", "x.txtX", "..", "../outside.txt", "../../outside.txt%00" };
    static const int lens[] = { 1024, 4096 }; int cfg = mc_choose(F04_CFGS), f = mc_choose(COUNT(fills)), t = mc_choose(COUNT(tails)), k = mc_choose(2), raw = k || mc_choose(2), n = lens[k] - (k ? 8 : 16) + mc_choose(k ? 14 : 24), alt; static char path[9000], fill_[60]; size_t l, m, i, tl = strlen(tails[t]), g = 0;
    sim_site();
    for(i = 0; i < strlen(fills[f]); i++) g += 1;
    alt = cfg == 2 && mc_choose(2); strcpy(path, alt ? "/alt/" : "/"); l = strlen(path);
    /* as written, or after decoding, the path has n bytes */
    m = raw ? tl : (size_t) decode(tails[t], tl, fill_) * 0 + strlen(fill_);
    if(!raw) g = strcmp(fills[f], "%2e/") == 0 ? 2 : g;
    i = l;
    while(i + g + m <= (size_t) n) { strcpy(path + l, fills[f]); l += strlen(fills[f]); i += g; }
    while(i + m < (size_t) n) { path[l++] = '/'; i++; }
    strcpy(path + l, tails[t]);
    f04_check(inis[cfg], cfg, path);
}

/* --- F05 ------------------------------------------------------------- */
#define SECRET BASE "[location:s]\npath=^/secret\nhandler=file\nauth_basic=realm\nauth_file=cfg/passwd\n"
static const char b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static void encode(const char *s, size_t n, char *out) {
    size_t i;
    for(i = 0; i < n; i += 3) {
        unsigned v = (unsigned char) s[i] << 16 | (i + 1 < n ? (unsigned char) s[i + 1] << 8 : 0) | (i + 2 < n ? (unsigned char) s[i + 2] : 0);
        *out++ = b64[v >> 18]; *out++ = b64[v >> 12 & 63]; *out++ = i + 1 < n ? b64[v >> 6 & 63] : '='; *out++ = i + 2 < n ? b64[v & 63] : '=';
    }
    *out = 0;
}
/* the most generous decoding: whatever is not in the alphabet is skipped */
static size_t generous(const char *s, char *out) {
    unsigned v = 0; int bits = 0; size_t n = 0;
    for(; *s; s++) { const char *k = strchr(b64, *s); if(!k) continue; v = v << 6 | (unsigned) (k - b64); bits += 6; if(bits >= 8) { bits -= 8; out[n++] = (char) (v >> bits & 255); } }
    out[n] = 0; return n;
}
/* the password that a file gives to a user: the second field of the last line of the user */
static int password_of(const char *file, const char *user, size_t n, char *pw) {
    int found = 0;
    while(*file) {
        const char *e = strchr(file, '\n'), *c; if(!e) e = file + strlen(file);
        c = memchr(file, ':', e - file);
        if(c && (size_t) (c - file) == n && memcmp(file, user, n) == 0) {
            const char *d = memchr(c + 1, ':', e - c - 1); if(!d) d = e;
            memcpy(pw, c + 1, d - c - 1); pw[d - c - 1] = 0; found = 1;
        }
        file = *e ? e + 1 : e;
    }
    return found;
}
static int valid_pair(const char *file, const char *text, size_t n) {
    char pw[300]; const char *c = memchr(text, ':', n);
    if(!c || n >= 256) return 0;
    return password_of(file, text, c - text, pw) && strlen(pw) == n - (c - text) - 1 && memcmp(pw, c + 1, strlen(pw)) == 0;
}
#define PASSWD "user:pass\nroot:toor\n"
/* 1 must be served, 0 must not, -1 not specified */
static int granted(const char *file, const char *value) {
    char text[700]; const char *sp = value; size_t n; char again[1000];
    if(strncmp(value, "Basic ", 6) == 0 && strlen(value) < 120) {
        n = generous(value + 6, text); encode(text, n, again);
        if(strcmp(again, value + 6) == 0) { if(memchr(text, 0, n)) return -1; return valid_pair(file, text, n); }
    }
    /* no reading of any part of the value gives a valid pair */
    for(sp = value; sp; sp = strchr(sp, ' ')) { size_t i; if(*sp == ' ') sp++; n = generous(sp, text); for(i = n; i > 0; i--) if(valid_pair(file, text, i)) return -1; if(!*sp) break; }
    return 0;
}
static void auth_check(const char *ini, const char *file, const char *value, int kind) {
    static const char *methods[] = { "GET", "HEAD", "POST", "PUT" }; char req[1200]; resp r; int g;
    snprintf(req, sizeof req, "%s /secret/s.txt HTTP/1.1" CRLF "%s%s%s" CRLF, methods[kind], value ? "Authorization: " : "", value ? value : "", value ? CRLF : "");
    r = answered(ini, req, kind == 1);
    contained(req, 0);
    g = value == NULL ? 0 : granted(file, value);
    if(r.status == 200) {
        mc_check(g != 0, "served although the credentials are not valid: %s", value ? value : "(none)");
        if(kind != 1) body_is(req, &r, "top secret", 10);
    } else {
        char v[200];
        mc_check(r.status == 401, "status %d", r.status);
        mc_check(g != 1, "refused although the credentials are valid: %s", value);
        mc_check(sim_header(&r, "WWW-Authenticate", v, sizeof v) && strncmp(v, "Basic realm", 11) == 0, "no challenge");
        mc_check(!memmem(r.body, r.bodylen, "top secret", 10), "the contents are in the refusal");
    }
    mc_outcome(mc_hash(&r.status, sizeof r.status, kind));
}
static void f05_pairs(void) {
    static const char *users[] = { "user", "root", "", "use", "userr", "User", "user ", "toor", "$default", "nobody" }, *pws[] = { "pass", "toor", "", "pas", "passs", "Pass", "pass:", "pass\n", " pass", "root" };
    static const char *schemes[] = { "Basic ", "basic ", "Digest ", "", "Basic", "Basic  ", "Bearer x " };
    char t[100], e[300], v[400]; int u = mc_choose(COUNT(users) + 1), p = mc_choose(COUNT(pws)), sc = mc_choose(COUNT(schemes));
    if(u == COUNT(users)) snprintf(t, sizeof t, "%s", pws[p]); else snprintf(t, sizeof t, "%s:%s", users[u], pws[p]);
    encode(t, strlen(t), e); snprintf(v, sizeof v, "%s%s", schemes[sc], e);
    sim_site(); sim_file("cfg/passwd", PASSWD, strlen(PASSWD));
    auth_check(SECRET, PASSWD, v, mc_choose(4));
}
static void f05_corrupt(void) {
    static const char alphabet[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/= -_:\x80"; char v[200]; int op = mc_choose(4), at, which = mc_choose(2); size_t n;
    strcpy(v, "Basic "); if(which) encode("root:toor", 9, v + 6); else encode("user:pass", 9, v + 6);
    n = strlen(v); at = mc_choose((int) n + (op == 1));
    if(op == 0) v[at] = alphabet[mc_choose(COUNT(alphabet) - 1)];
    else if(op == 1) { memmove(v + at + 1, v + at, n - at + 1); v[at] = alphabet[mc_choose(COUNT(alphabet) - 1)]; }
    else if(op == 2) memmove(v + at, v + at + 1, n - at);
    else v[at] = 0;
    if(v[0] == 0) { auth_check(SECRET, PASSWD, NULL, 0); return; }
    sim_site(); sim_file("cfg/passwd", PASSWD, strlen(PASSWD));
    auth_check(SECRET, PASSWD, v, 0);
}
static void f05_lengths(void) {         /* names and passwords of every length around the limits of the code */
    int un = 1 + mc_choose(mc_bound), off = mc_choose(5); static char file[2000], t[1000], e[2000], v[2100]; int pn = mc_choose(2) ? 200 : 0, i, n;
    /* user of un characters; the password brings the value to lengths around 128 */
    if(pn == 0) pn = (94 - 2 + off) > un ? 94 - 2 + off - un : 1; 
    for(i = 0; i < un; i++) t[i] = 'u'; t[un] = ':'; for(i = 0; i < pn; i++) t[un + 1 + i] = 'p'; n = un + 1 + pn; t[n] = 0;
    snprintf(file, sizeof file, "%s\n", t); encode(t, n, e); snprintf(v, sizeof v, "Basic %s", e);
    sim_site(); sim_file("cfg/passwd", file, strlen(file));
    {   char req[2400]; resp r; snprintf(req, sizeof req, "GET /secret/s.txt HTTP/1.1" CRLF "Authorization: %s" CRLF CRLF, v); r = answered(SECRET, req, 0);
        mc_check(r.status == 200 || r.status == 401, "status %d", r.status);
        if(strlen(v) < 120) mc_check(r.status == 200, "refused although the credentials are valid (%d characters)", n);
        /* one character less, or more, is not the password */
        encode(t, n - 1, e); snprintf(v, sizeof v, "Basic %s", e);
        snprintf(req, sizeof req, "GET /secret/s.txt HTTP/1.1" CRLF "Authorization: %s" CRLF CRLF, v); r = answered(SECRET, req, 0);
        mc_check(r.status == 401, "a part of the password is accepted (%d characters)", n); }
    sim_file("cfg/passwd", PASSWD, strlen(PASSWD));
}
static void f05_files(void) {           /* every password file of up to k lines */
    static const char *lines[] = { "user:pass", "user:", ":pass", "user", "", "root:toor", "user:other", "user:pass:comment:x", "#user:pass", "user:passpass", "userx:pass", " user:pass" };
    static const char *creds[] = { "user:pass", "user:", ":pass", ":", "user:other", "root:toor", "user:passpass", "user:pass:comment:x" };
    char file[400] = "", v[200]; int n = mc_choose(mc_bound + 1), i, nl = mc_choose(2); const char *c;
    for(i = 0; i < n; i++) { strcat(file, lines[mc_choose(COUNT(lines))]); if(i < n - 1 || nl) strcat(file, "\n"); }
    c = creds[mc_choose(COUNT(creds))]; strcpy(v, "Basic "); encode(c, strlen(c), v + 6);
    sim_site(); sim_file("cfg/passwd", file, strlen(file));
    auth_check(SECRET, file, v, 0);
    sim_file("cfg/passwd", PASSWD, strlen(PASSWD));
}
static void f05_missing(void) {         /* a protected location whose passwords cannot be read */
    static const char *extra[] = { "", "auth_file=\n", "auth_file=cfg/none\n", "auth_file=cfg\n", "auth_file=cfg/empty\n" }; char ini[500]; const char *v = NULL;
    static const char *vals[] = { NULL, "Basic dXNlcjpwYXNz", "Basic Og==", "Basic ", "x", "Basic dXNlcg==" };
    sim_site(); sim_file("cfg/empty", "", 0);
    snprintf(ini, sizeof ini, BASE "[location:s]\npath=^/secret\nhandler=file\nauth_basic=realm\n%s", extra[mc_choose(COUNT(extra))]);
    v = vals[mc_choose(COUNT(vals))];
    auth_check(ini, "", v, mc_choose(4));
}
static const char *psegs[] = { "secret", "s.txt", "..", ".", "", "%2e%2e", "%73ecret", "%2fsecret", "secret%2f", "s%2etxt", "s.txt?", "dir", "secret%2fs.txt", "SECRET", "secre%74", "%2e", "s.txt%00", "secret%00", "..%2fsecret", "secret?x", "secret;x", "se+cret" };
static void f05_paths(void) {
    static const char *methods[] = { "GET", "HEAD", "POST" }; char path[400], req[600]; int m = mc_choose(3), i, n = 1 + mc_choose(mc_bound), abs = mc_choose(2); vsock *s;
    strcpy(path, abs ? "http://h.x" : "");
    for(i = 0; i < n; i++) { strcat(path, "/"); strcat(path, psegs[mc_choose(COUNT(psegs))]); }
    snprintf(req, sizeof req, "%s %s HTTP/1.1" CRLF CRLF, methods[m], path);
    s = ask(SECRET, req, strlen(req));
    contained(req, 0);
    mc_check(!memmem(s->out ? s->out : "", s->outlen, "top secret", 10), "%s %s: the protected file is served without credentials", methods[m], path);
    if(m == 1 && s->outlen) { char *l = memmem(s->out, s->outlen, "Content-Length: 10\r", 19); mc_check(!l, "HEAD %s: the length of the protected file is given without credentials", path); }
    mc_outcome(mc_hash(s->out, s->outlen, m));
}
static void f05_sequence(void) {        /* credentials count for the request that carries them only */
    static const char *q[] = { "GET /secret/s.txt HTTP/1.1" CRLF KA "Authorization: Basic dXNlcjpwYXNz" CRLF CRLF, "GET /secret/s.txt HTTP/1.1" CRLF KA CRLF,
        "GET /secret/s.txt HTTP/1.1" CRLF KA "Authorization: Basic dXNlcjpwYXNT" CRLF CRLF, "GET /hello.txt HTTP/1.1" CRLF KA "Authorization: Basic dXNlcjpwYXNz" CRLF CRLF,
        "GET /secret/s.txt HTTP/1.1" CRLF KA "Authorization:" CRLF CRLF, "GET /secret/none HTTP/1.1" CRLF KA "Authorization: Basic dXNlcjpwYXNz" CRLF CRLF, "GET /secret HTTP/1.1" CRLF KA CRLF };
    static const int want[] = { 200, 401, 401, 200, 401, 404, 401 }; int n = mc_bound, i, k[5], split = mc_choose(2); vsock *s; actor *a; size_t at = 0; resp r;
    sim_site(); sim_file("cfg/passwd", PASSWD, strlen(PASSWD));
    fresh_run(SECRET); a = sim_actor(); sim_add(a, 'c', 0, 0, 0);
    for(i = 0; i < n; i++) { k[i] = mc_choose(COUNT(q)); sim_add(a, 's', q[k[i]], strlen(q[k[i]]), 0); if(split) sim_add(a, 'w', 0, 0, i + 1); }
    sim_run(); s = done(0);
    for(i = 0; i < n; i++) {
        mc_check(sim_parse(s->out + at, s->outlen - at, 0, &r) == 1, "response %d is not complete", i);
        mc_check(r.status == want[k[i]], "request %d: status %d, expected %d", i, r.status, want[k[i]]);
        mc_check((k[i] == 0) == (memmem(r.body, r.bodylen, "top secret", 10) != NULL), "request %d: the body is not the expected one", i);
        at += r.total;
    }
    mc_check(at == s->outlen && was_open(0), "the connection is not left open and quiet");
}

/* --- F06 ------------------------------------------------------------- */
static int by_name(const void *a, const void *b) { return strcmp(*(char **) a, *(char **) b); }
static void f06_listing(void) {
    /* every subset of a set of entries, listed by name */
    static const char *names[] = { "b.txt", "a.txt", "Z", "d1/", "c d", "x&y", "a/", ".hid", "empty" }; char file[100], want[900], *got; int mask = mc_choose(1 << 8), i, n = 0, ka = mc_choose(2); char *have[32], req[200], *p; resp r; size_t used;
    sim_site(); mkdir("www/l", 0755);
    for(i = 0; i < 8; i++) {
        size_t l = strlen(names[i]); snprintf(file, sizeof file, "www/l/%s", names[i]);
        if(file[6 + l - 1 + 0] == '/' || names[i][l - 1] == '/') { file[strlen(file) - 1] = 0; if(i == 6) strcat(file, "dir"); if(mask >> i & 1) mkdir(file, 0755); else rmdir(file); }
        else { if(mask >> i & 1) sim_file(file, "x", 1); else unlink(file); }
    }
    snprintf(req, sizeof req, "GET /l/ HTTP/1.1" CRLF "%s" CRLF, ka ? KA : "");
    r = answered(BASE, req, 0);
    mc_check(r.status == 200, "status %d", r.status);
    mc_check(r.bodylen >= 3 && memcmp(r.body, "[l]", 3) == 0, "the listing does not name the directory: %.*s", (int) r.bodylen, r.body);
    got = copy(r.body + 3, r.bodylen - 3);
    for(p = strtok(got, ";"); p && n < 32; p = strtok(NULL, ";")) if(strcmp(p, ".") && strcmp(p, "..")) have[n++] = p;
    qsort(have, n, sizeof *have, by_name);
    {   char *exp[32]; int m = 0; struct dirent *e; DIR *d = opendir("www/l"); char gotl[900] = "";
        while((e = readdir(d))) if(strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) exp[m++] = strdup(e->d_name);
        closedir(d); qsort(exp, m, sizeof *exp, by_name); want[0] = 0; used = 0;
        for(i = 0; i < m; i++) { used += snprintf(want + used, sizeof want - used, "%s;", exp[i]); free(exp[i]); }
        for(i = 0, used = 0; i < n; i++) used += snprintf(gotl + used, sizeof gotl - used, "%s;", have[i]);
        same("the entries of the listing", gotl, strlen(gotl), want, strlen(want)); }
    free(got);
}
static void f06_kinds(void) {           /* what a path to a directory gives, with and without an index */
    static const char *paths[] = { "/", "/dir", "/dir/", "/sub", "/sub/", "/sub/index.html", "/sub?x=1", "/sub/?x=1", "/a%20b", "/a%20b/", "/dir/none", "/dir/none/", "/hello.txt/", "/sub/index.html/", "/dir/a.txt/x" };
    static const char *inis[] = { BASE, "[general]\nhandler=dispatch\nuse_template=0\n", "[general]\nhandler=dispatch\nuse_template=0\nindex=none.html a.txt index.html\n", "[general]\nhandler=file\nuse_template=0\n", "[general]\nhandler=dispatch\nuse_template=1\nindex=index.html\n" };
    int c = mc_choose(COUNT(inis)), p = mc_choose(COUNT(paths)), head = mc_choose(2), ka = mc_choose(2); char req[300], loc[300], *q; resp r; const char *path = paths[p]; char pure[100]; size_t l;
    snprintf(req, sizeof req, "%s %s HTTP/1.1" CRLF "%s" CRLF, head ? "HEAD" : "GET", path, ka ? KA : "");
    r = answered(inis[c], req, head);
    snprintf(pure, sizeof pure, "%s", path); if((q = strchr(pure, '?'))) *q = 0; l = strlen(pure);
    if(!strcmp(pure, "/dir") || !strcmp(pure, "/sub") || !strcmp(pure, "/a%20b")) {
        mc_check(r.status == 307 && r.bodylen == 0, "%s: status %d, expected a redirection", path, r.status);
        snprintf(loc, sizeof loc, "%s/", pure); header_is(req, &r, "Location", loc); return;
    }
    if(p >= 10) { mc_check(r.status == 404, "%s: status %d, expected 404", path, r.status); 
        if(!head && c == 4) mc_check(r.bodylen > 5 && memcmp(r.body, "<404|", 5) == 0, "the error page is not made from the template: %.*s", (int) r.bodylen, r.body);
        else if(!head) mc_check(r.bodylen > 6 && memcmp(r.body, "404 - ", 6) == 0, "the error page: %.*s", (int) r.bodylen, r.body);
        return; }
    mc_check(r.status == 200, "%s: status %d, expected 200", path, r.status);
    mc_check(l > 0, "internal");
    if(head) return;
    if(!strcmp(pure, "/sub/index.html") || (!strcmp(pure, "/sub/") && (c == 0 || c == 2 || c == 4))) { body_is(req, &r, "<sub index>", 11); header_is(req, &r, "Content-Type", "text/html"); }
    else if(!strcmp(pure, "/dir/") && c == 2) body_is(req, &r, "file a", 6);
    else mc_check(r.bodylen > 0 && r.body[0] == '[', "%s: not a listing", path);
}

static void f06_beside(void) {          /* files with a name that begins like another path and ends like the index file are what they are */
    static const char *beside[] = { "www/subindex.html", "www/hello.txtindex.html", "www/missingindex.html", "www/index.html", "www/sub/indexindex.html", "www/dir/index.html" };
    static const char *paths[] = { "/sub", "/hello.txt", "/missing", "/", "/sub/", "/sub/index", "/dir", "/dir/", "/subindex.html", "/missing/" };
    int mask = mc_choose(1 << COUNT(beside)), p = mc_choose(COUNT(paths)), i, want; char req[200]; const char *body = NULL; resp r;
    sim_site();
    for(i = 0; i < COUNT(beside); i++) if(mask >> i & 1) sim_file(beside[i], beside[i], strlen(beside[i])); else unlink(beside[i]);
    snprintf(req, sizeof req, "GET %s HTTP/1.1" CRLF CRLF, paths[p]);
    r = answered("[general]\nhandler=dispatch\nuse_template=0\nindex=index.html\n", req, 0);
    want = p == 0 || p == 6 ? 307 : p == 2 || p == 5 || p == 9 || (p == 8 && !(mask & 1)) ? 404 : 200;
    if(p == 1) body = "Hello, World!\n"; if(p == 3 && mask & 8) body = beside[3]; if(p == 4) body = "<sub index>"; if(p == 7 && mask & 32) body = beside[5]; if(p == 8) body = beside[0];
    mc_check(r.status == want, "%s: status %d, expected %d", req, r.status, want);
    if(want == 200 && body) { if(p == 1) { size_t n; char *d = slurp("www/hello.txt", &n); body_is(req, &r, d, n); free(d); } else body_is(req, &r, body, strlen(body)); }
    if(want == 200 && !body) mc_check(r.bodylen > 0 && r.body[0] == '[', "%s: not a listing", req);
    for(i = 0; i < COUNT(beside); i++) unlink(beside[i]);
}

/* --- R01 ------------------------------------------------------------- */
static const char *rpat[] = { "^/alt", "^/dir/", "\\.txt$", "^/$", "/in/", "^/sub", "^/(dir|sub)/", "^/alt/in/", "index" };
static const char rh[] = "FBADX";
static const char *rreq[] = { "/", "/hello.txt", "/dir/a.txt", "/dir/", "/dir", "/sub/", "/alt/x.txt", "/alt/in/y.txt", "/sub/index.html", "/missing", "/in/y.txt", "/noext?x=.txt", "/alt/idx/", "/alternate", "/alt", "/dir/../alt/x.txt" };
static const char *r_body(const char *base, const char *path, size_t *n) { static char *d; char f[500]; free(d); snprintf(f, sizeof f, "%s%s", base, path); d = slurp(f, n); return d; }
static void r01(void) {
    char ini[2000], path[300], canon[300], req[400], f[600]; int n = mc_choose(mc_bound + 1), i, p[4], h[4], q, hit, pass, e[4], ends[4]; resp r; const char *base, *rest, *b; size_t bn; struct stat st; where w; char *query;
    static regex_t re[COUNT(rpat)]; static int compiled;
    if(!compiled) for(i = 0, compiled = 1; i < COUNT(rpat); i++) if(regcomp(&re[i], rpat[i], REG_EXTENDED)) mc_fail("internal: regcomp");
    strcpy(ini, BASE);
    for(i = 0; i < n; i++) {
        p[i] = mc_choose(COUNT(rpat)); h[i] = mc_choose(5);
        if(rh[h[i]] == 'B' && rpat[p[i]][0] != '^') { mc_trivial(); return; }
        snprintf(ini + strlen(ini), sizeof ini - strlen(ini), "[location:%c%d]\npath=%s\n%s", 'z' - i, i, rpat[p[i]],
            rh[h[i]] == 'F' ? "handler=file\n" : rh[h[i]] == 'B' ? "handler=file\nbase_path=alt\n" : rh[h[i]] == 'A' ? "handler=file\nauth_basic=r\nauth_file=cfg/passwd\n" : rh[h[i]] == 'D' ? "handler=default\n" : "handler=nothing\n");
    }
    q = mc_choose(COUNT(rreq));
    sim_site(); mkdir("alt/idx", 0755); sim_file("alt/idx/index.html", "<alt index>", 11);
    snprintf(req, sizeof req, "GET %s HTTP/1.1" CRLF CRLF, rreq[q]);
    r = answered(ini, req, 0);
    snprintf(path, sizeof path, "%s", rreq[q]); if((query = strchr(path, '?'))) *query = 0;
    resolve(path, canon);
    for(pass = 0; ; pass++) {
        hit = -1;
        for(i = 0; i < n && hit < 0; i++) { regmatch_t m; if(regexec(&re[p[i]], canon, 1, &m, 0) == 0) { hit = i; ends[i] = (int) m.rm_eo; } }
        if(pass == 1) break;
        if(hit >= 0 && (rh[h[hit]] == 'D' || rh[h[hit]] == 'X')) break;
        if(canon[strlen(canon) - 1] != '/') break;
        base = hit >= 0 && rh[h[hit]] == 'B' ? "alt" : "www"; rest = hit >= 0 && rh[h[hit]] == 'B' ? canon + ends[hit] : canon;
        snprintf(f, sizeof f, "%s/%s/index.html", base, rest);
        if(stat(f, &st)) break;
        strcat(canon, "index.html");
    }
    (void) e;
    snprintf(f, sizeof f, "%s with the locations", rreq[q]);
    for(i = 0; i < n; i++) snprintf(f + strlen(f), sizeof f - strlen(f), " %s:%c", rpat[p[i]], rh[h[i]]);
    contained(f, 1);
    mc_outcome(mc_hash(r.body, r.bodylen, r.status));
    if(hit >= 0 && rh[h[hit]] == 'X') { mc_check(r.status == 500, "%s: status %d, expected 500 (there is no such handler)", f, r.status); return; }
    if(hit >= 0 && rh[h[hit]] == 'D') { mc_check(r.status == 200, "%s: status %d, expected the default handler", f, r.status); body_is(f, &r, "Hello Viriatum", 14); return; }
    base = "www"; rest = canon;
    if(hit >= 0 && rh[h[hit]] == 'B') { base = "alt"; rest = canon + ends[hit]; if(ends[hit] > 0 && canon[ends[hit] - 1] == '/') rest--; }
    { char full[400]; snprintf(full, sizeof full, "%s%s", rest[0] == '/' ? "" : "/", rest); w = lookup(base, full);
      if(w.status == 307 || (w.status == 200 && !w.body)) w.status = canon[strlen(canon) - 1] == '/' ? 200 : 307;   /* it is the path of the client that counts */
      b = r_body(base, full, &bn); }
    if(hit >= 0 && rh[h[hit]] == 'A' && w.status != 404) { mc_check(r.status == 401, "%s: status %d, expected 401", f, r.status); free(w.body); return; }
    mc_check(r.status == w.status, "%s: status %d, expected %d (%s under %s)", f, r.status, w.status, rest, base);
    if(b && w.status == 200) body_is(f, &r, b, bn);
    free(w.body);
}

static const mc_scenario list[] = {
    { "F01.size", f01_size, 1, 1, 0, 0, 2, 0, "35 sizes around every internal buffer, x 3 request sequences" },
    { "F01.type", f01_type, 1, 1, 0, 0, 2, 0, "206 extensions x 3 cases x 6 shapes of name" },
    { "F01.untyped", f01_untyped, 1, 1, 0, 0, 0, 0, "16 names without a known extension x 2 methods" },
    { "F01.name", f01_name, 1, 1, 0, 0, 2, 0, "every byte at 4 places of a name (also with two digits behind it), escaped and not" },
    { "F01.versions", f01_versions, 2, 3, 0, 0, 2, 0, "the file replaced between the requests of a connection, 6 sizes each" },
    { "F01.changing", f01_changing, 1, 1, 0, 0, 2, 0, "3 sizes x changed at every send x 4 ways x 9 sizes" },
    { "F02.small", f02_small, 14, 40, 0, 0, 2, 0, "every first and last byte up to a bound x 3 forms x 4 files x 2 methods" },
    { "F02.big", f02_big, 1, 1, 0, 0, 2, 0, "17 edges squared x 3 forms over a file of several chunks" },
    { "F02.odd", f02_odd, 3, 4, 0, 0, 2, 0, "every value of up to k symbols out of 13 behind 4 units" },
    { "F03.change", f03_change, 1, 1, 0, 0, 2, 0, "18 time differences x 5 dates x 4 request forms" },
    { "F03.other", f03_other, 1, 1, 0, 0, 0, 0, "every tag one character away from the current one" },
    { "F03.carry", f03_carry, 2, 3, 0, 0, 0, 0, "sequences of conditional requests on one connection" },
    { "F04.spell", f04, 3, 4, 0, 0, 2, 0, "every path of up to k segments out of 27, x 3 configurations" },
    { "F04.long", f04_long, 0, 0, 0, 0, 2, 0, "paths of lengths around the sizes of the buffers, 6 fillings x 10 endings x 3 configurations" },
    { "F05.pairs", f05_pairs, 1, 1, 0, 0, 2, 0, "11 users x 10 passwords x 7 schemes x 4 methods" },
    { "F05.corrupt", f05_corrupt, 1, 1, 0, 0, 2, 0, "every one character corruption of two valid values" },
    { "F05.lengths", f05_lengths, 140, 300, 0, 0, 2, 0, "names and passwords of every length around the limits" },
    { "F05.files", f05_files, 2, 3, 0, 0, 2, 0, "every password file of up to k lines out of 12 x 8 credentials" },
    { "F05.missing", f05_missing, 1, 1, 0, 0, 0, 0, "password files that are not there x 6 values x 4 methods" },
    { "F05.paths", f05_paths, 3, 4, 0, 0, 2, 0, "every spelling of up to k segments out of 22 x 3 methods x 2 forms, without credentials" },
    { "F05.sequence", f05_sequence, 3, 4, 0, 0, 1, 0, "every sequence of k requests on one connection" },
    { "F06.listing", f06_listing, 1, 1, 0, 0, 2, 0, "every subset of 8 entries" },
    { "F06.kinds", f06_kinds, 1, 1, 0, 0, 2, 0, "15 paths x 5 configurations x 2 methods x 2 connection headers" },
    { "F06.beside", f06_beside, 1, 1, 0, 0, 2, 0, "every subset of 6 files named like a path and the index file together x 10 paths" },
    { "R01.locations", r01, 2, 3, 0, 0, 2, 0, "every list of up to k locations (9 patterns x 5 handlers) x 16 paths" },
};
MC_MAIN(list)
