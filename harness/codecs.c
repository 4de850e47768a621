/* D01 digests, checksum and stream cipher; D02 base 64 and percent encodings:
 * every input within bounds, every cut, against references written here. */
#include "viriatum_commons/viriatum_commons.h"
#include "mc.h"
#include <ctype.h>

typedef unsigned char u8;
/* the references, kept as close to the published definitions as possible */
static uint32_t rol(uint32_t v, int n) { return v << n | v >> (32 - n); }
static size_t pad(const u8 *p, size_t n, u8 *m, int big) {
    size_t t = (n + 9 + 63) / 64 * 64; int i; uint64_t bits = (uint64_t) n * 8;
    memset(m, 0, t); memcpy(m, p, n); m[n] = 0x80;
    for(i = 0; i < 8; i++) m[t - 8 + i] = big ? bits >> (56 - 8 * i) : bits >> (8 * i);
    return t;
}
static const uint32_t md5k[64] = {
    0xd76aa478, 0xe8c7b756, 0x242070db, 0xc1bdceee, 0xf57c0faf, 0x4787c62a, 0xa8304613, 0xfd469501, 0x698098d8, 0x8b44f7af, 0xffff5bb1, 0x895cd7be, 0x6b901122, 0xfd987193, 0xa679438e, 0x49b40821,
    0xf61e2562, 0xc040b340, 0x265e5a51, 0xe9b6c7aa, 0xd62f105d, 0x02441453, 0xd8a1e681, 0xe7d3fbc8, 0x21e1cde6, 0xc33707d6, 0xf4d50d87, 0x455a14ed, 0xa9e3e905, 0xfcefa3f8, 0x676f02d9, 0x8d2a4c8a,
    0xfffa3942, 0x8771f681, 0x6d9d6122, 0xfde5380c, 0xa4beea44, 0x4bdecfa9, 0xf6bb4b60, 0xbebfbc70, 0x289b7ec6, 0xeaa127fa, 0xd4ef3085, 0x04881d05, 0xd9d4d039, 0xe6db99e5, 0x1fa27cf8, 0xc4ac5665,
    0xf4292244, 0x432aff97, 0xab9423a7, 0xfc93a039, 0x655b59c3, 0x8f0ccc92, 0xffeff47d, 0x85845dd1, 0x6fa87e4f, 0xfe2ce6e0, 0xa3014314, 0x4e0811a1, 0xf7537e82, 0xbd3af235, 0x2ad7d2bb, 0xeb86d391 };
static void ref_md5(const u8 *p, size_t n, u8 *out) {
    static u8 m[8192]; static const int s[4][4] = { { 7, 12, 17, 22 }, { 5, 9, 14, 20 }, { 4, 11, 16, 23 }, { 6, 10, 15, 21 } };
    uint32_t h[4] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476 }; size_t t = pad(p, n, m, 0), o; int i;
    for(o = 0; o < t; o += 64) {
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], f, x, w; int g;
        for(i = 0; i < 64; i++) {
            if(i < 16) { f = (b & c) | (~b & d); g = i; } else if(i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; }
            else if(i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; } else { f = c ^ (b | ~d); g = 7 * i % 16; }
            w = m[o + 4 * g] | m[o + 4 * g + 1] << 8 | m[o + 4 * g + 2] << 16 | (uint32_t) m[o + 4 * g + 3] << 24;
            x = a + f + md5k[i] + w; a = d; d = c; c = b; b += rol(x, s[i / 16][i % 4]);
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d;
    }
    for(i = 0; i < 16; i++) out[i] = h[i / 4] >> (8 * (i % 4));
}
static void ref_sha1(const u8 *p, size_t n, u8 *out) {
    static u8 m[8192]; uint32_t h[5] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0 }, w[80]; size_t t = pad(p, n, m, 1), o; int i;
    for(o = 0; o < t; o += 64) {
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f, k, x;
        for(i = 0; i < 16; i++) w[i] = (uint32_t) m[o + 4 * i] << 24 | m[o + 4 * i + 1] << 16 | m[o + 4 * i + 2] << 8 | m[o + 4 * i + 3];
        for(; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        for(i = 0; i < 80; i++) {
            if(i < 20) { f = (b & c) | (~b & d); k = 0x5a827999; } else if(i < 40) { f = b ^ c ^ d; k = 0x6ed9eba1; }
            else if(i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8f1bbcdc; } else { f = b ^ c ^ d; k = 0xca62c1d6; }
            x = rol(a, 5) + f + e + k + w[i]; e = d; d = c; c = rol(b, 30); b = a; a = x;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    for(i = 0; i < 20; i++) out[i] = h[i / 4] >> (24 - 8 * (i % 4));
}
static uint32_t ref_crc(const u8 *p, size_t n) {
    uint32_t c = 0xffffffff; int b;
    while(n--) { c ^= *p++; for(b = 0; b < 8; b++) c = c & 1 ? c >> 1 ^ 0xedb88320 : c >> 1; }
    return ~c;
}
static void ref_rc4(const u8 *key, size_t kn, const u8 *in, size_t n, u8 *out) {
    u8 s[256], t; int i, j = 0; size_t k;
    for(i = 0; i < 256; i++) s[i] = i;
    for(i = 0; i < 256; i++) { j = (j + s[i] + key[i % kn]) & 255; t = s[i]; s[i] = s[j]; s[j] = t; }
    for(i = j = 0, k = 0; k < n; k++) { i = (i + 1) & 255; j = (j + s[i]) & 255; t = s[i]; s[i] = s[j]; s[j] = t; out[k] = in[k] ^ s[(s[i] + s[j]) & 255]; }
}
static void hexs(char *o, const u8 *p, int n) { while(n--) { sprintf(o, "%02x", *p++); o += 2; } }
/* the references against the vectors of their definitions */
static void self(void) {
    static int done; u8 d[20]; char h[64]; static u8 long_[1000];
    if(done) return;
    done = 1;
    ref_md5((u8 *) "", 0, d); hexs(h, d, 16); mc_check(!strcmp(h, "d41d8cd98f00b204e9800998ecf8427e"), "internal: md5 reference");
    ref_md5((u8 *) "abc", 3, d); hexs(h, d, 16); mc_check(!strcmp(h, "900150983cd24fb0d6963f7d28e17f72"), "internal: md5 reference");
    ref_md5((u8 *) "12345678901234567890123456789012345678901234567890123456789012345678901234567890", 80, d); hexs(h, d, 16); mc_check(!strcmp(h, "57edf4a22be3c955ac49da2e2107b67a"), "internal: md5 reference");
    ref_sha1((u8 *) "abc", 3, d); hexs(h, d, 20); mc_check(!strcmp(h, "a9993e364706816aba3e25717850c26c9cd0d89d"), "internal: sha1 reference");
    ref_sha1((u8 *) "abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq", 56, d); hexs(h, d, 20); mc_check(!strcmp(h, "84983e441c3bd26ebaae4aa1f95129e5e54670f1"), "internal: sha1 reference");
    ref_sha1(long_, 0, d); hexs(h, d, 20); mc_check(!strcmp(h, "da39a3ee5e6b4b0d3255bfef95601890afd80709"), "internal: sha1 reference");
    mc_check(ref_crc((u8 *) "123456789", 9) == 0xcbf43926, "internal: crc reference");
    ref_rc4((u8 *) "Key", 3, (u8 *) "Plaintext", 9, d); hexs(h, d, 9); mc_check(!strcmp(h, "bbf316e8d940af0ad3"), "internal: rc4 reference");
}
static void pattern(u8 *p, size_t n, int kind) {
    size_t i; uint32_t x = 12345;
    for(i = 0; i < n; i++) { x = x * 1664525 + 1013904223; p[i] = kind == 0 ? 0 : kind == 1 ? 0xff : kind == 2 ? i : x >> 24; }
}
/* an exact copy, so that nothing can be read past it */
static u8 *exact(const u8 *p, size_t n) { u8 *r = malloc(n ? n : 1); memcpy(r, p, n); return n ? r : (r = realloc(r, 1)); }

static void feed_md5(const u8 *in, size_t n, const size_t *cuts, int k, u8 *out) {
    struct md5_context_t c; size_t at = 0; int i;
    init_md5(&c);
    for(i = 0; i <= k; i++) { size_t e = i == k ? n : cuts[i]; u8 *x = exact(in + at, e - at); update_md5(&c, x, e - at); mc_check(!memcmp(x, in + at, e - at), "the digest changes the data"); free(x); at = e; }
    final_md5(&c, out);
}
static void feed_sha1(const u8 *in, size_t n, const size_t *cuts, int k, u8 *out) {
    struct sha1_context_t c; size_t at = 0; int i;
    init_sha1(&c);
    for(i = 0; i <= k; i++) { size_t e = i == k ? n : cuts[i]; u8 *x = exact(in + at, e - at); update_sha1(&c, x, e - at); mc_check(!memcmp(x, in + at, e - at), "sha1 of %zu bytes (piece of %zu) changes the data it is given", n, e - at); free(x); at = e; }
    final_sha1(&c, out);
}
static void digests(int what, size_t n, const u8 *in, const size_t *cuts, int k) {
    u8 want[20], got[20]; int size = what ? 20 : 16; char a[64], b[64];
    if(what) ref_sha1(in, n, want); else ref_md5(in, n, want);
    if(k < 0) { u8 *x = exact(in, n); if(what) sha1(x, n, got); else md5(x, n, got); mc_check(!memcmp(x, in, n), "%s of %zu bytes changes the data it is given", what ? "sha1" : "md5", n); free(x); k = 0; }
    else if(what) feed_sha1(in, n, cuts, k, got); else feed_md5(in, n, cuts, k, got);
    hexs(a, got, size); hexs(b, want, size);
    mc_check(!memcmp(got, want, size), "the %s of %zu bytes given in %d pieces (first %zu) is %s, expected %s", what ? "sha1" : "md5", n, k + 1, k ? cuts[0] : n, a, b);
    mc_step();
}
static void d01_cuts(void) {
    int what = mc_choose(2), n = mc_choose(mc_bound), kind = mc_thorough ? mc_choose(4) : 3; static u8 in[4096]; size_t c[2], i, j;
    self(); pattern(in, n, kind);
    digests(what, n, in, c, -1);
    c[0] = i = mc_choose(n + 1);
    digests(what, n, in, c, 1);
    for(j = i; j <= (size_t) n; j++) { c[1] = j; digests(what, n, in, c, 2); }
    mc_state(mc_hash(in, n, i));
}
static void d01_sizes(void) {
    int what = mc_choose(2), n = mc_choose(mc_bound), kind = mc_choose(4), p; static u8 in[4096]; static size_t c[4096];
    self(); pattern(in, n, kind);
    digests(what, n, in, c, -1);
    for(p = 1; p <= 130; p++) { int k = 0; size_t at; for(at = p; at < (size_t) n; at += p) c[k++] = at; digests(what, n, in, c, k); }
    mc_state(mc_hash(in, n, kind));
}
/* messages of which the length in bits needs more than 32 bits */
#include <sys/mman.h>
static void d01_long(void) {
    static const struct { size_t n; const char *md5, *sha1; } z[] = {
        { 536870911, "c6c4834a7b0928878ad48c867a1e24d6", "7d32aa572655d797397393e83c8204082f7e71e5" },
        { 536870912, "aa559b4e3523a6c931f08f4df52d58f2", "5b088492c9f4778f409b7ae61477dec124c99033" },
        { 536871012, "2fd298086ae19f076b408e275af7598c", "c5215538017064a4d9ab0eb3108f0bd32a89bfaa" },
        { 536870913, "ea3b62c6b93cb3625a1fd76777985f5a", "3e1bb536d18494c32e66ef9f479d65bbe0d863de" },
        { 1073741831, "34fb3d56d2a9e3311642a92e270b4a3e", "a303ceb17bc54a3607cdd0d5afd9553e3ac024e8" } };
    int w = mc_choose(mc_bound), how = mc_choose(3), alg = mc_choose(2), i; size_t n = z[w].n, at, step = how == 0 ? n : how == 1 ? n / 2 + 1 : 10000001; u8 out[20]; char h[41];
    u8 *p = mmap(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mc_check(p != MAP_FAILED, "internal: no address space");
    if(alg == 0) { struct md5_context_t c; init_md5(&c); for(at = 0; at < n; at += step) update_md5(&c, p + at, n - at < step ? n - at : step); final_md5(&c, out); }
    else { struct sha1_context_t c; init_sha1(&c); for(at = 0; at < n; at += step) update_sha1(&c, p + at, n - at < step ? n - at : step); final_sha1(&c, out); }
    munmap(p, n); mc_step();
    for(i = 0; i < (alg ? 20 : 16); i++) sprintf(h + 2 * i, "%02x", out[i]);
    mc_check(!strcmp(h, alg ? z[w].sha1 : z[w].md5), "the %s of %zu zeros in pieces of %zu is %s", alg ? "sha1" : "md5", n, step, h);
}
static void d01_crc(void) {
    int n = mc_choose(mc_bound + 1), k; static u8 in[4096]; u8 *x; unsigned a, b, c;
    self();
    if(n == 0) {        /* every string of up to two bytes, three in the thorough run */
        a = mc_choose(256);
        in[0] = a; x = exact(in, 1); mc_check(crc_32(x, 1) == ref_crc(in, 1), "the crc of %02x is wrong", a); free(x);
        for(b = 0; b < 256; b++) {
            in[1] = b; x = exact(in, 2); mc_check(crc_32(x, 2) == ref_crc(in, 2), "the crc of %02x%02x is wrong", a, b); mc_step();
            free(x);
            if(mc_thorough) for(c = 0; c < 256; c++) { in[2] = c; mc_check(crc_32(in, 3) == ref_crc(in, 3), "the crc of %02x%02x%02x is wrong", a, b, c); }
        }
    }
    else { k = mc_choose(4); n--; pattern(in, n, k); x = exact(in, n); mc_check(crc_32(x, n) == ref_crc(in, n), "the crc of %d bytes (pattern %d) is wrong", n, k); mc_check(!memcmp(x, in, n), "the crc changes the data"); free(x); mc_step(); }
    mc_state(mc_hash(in, n, n));
}
static void d01_cipher(void) {
    static const int keys[] = { 1, 2, 3, 5, 8, 16, 31, 64, 128, 255, 256, 257, 300 };
    int kl = keys[mc_choose(sizeof keys / sizeof *keys)], kk = mc_choose(3), n = mc_choose(mc_bound), i, j, inplace = mc_choose(2); static u8 in[4096], want[4096]; char *key = malloc(kl + 1); u8 *x, *y; struct rc4_t *r;
    self(); pattern((u8 *) key, kl, kk + 1); for(i = 0; i < kl; i++) if(!key[i]) key[i] = 1;
    key[kl] = 0; pattern(in, n, 3);
    ref_rc4((u8 *) key, kl, in, n, want);
    for(i = 0; i <= n; i++) for(j = i; j <= (mc_thorough ? n : i); j++) {
        size_t a[4] = { 0, i, j, n }; int p;
        create_rc4(key, &r);
        for(p = 0; p < 3; p++) {
            size_t l = a[p + 1] - a[p];
            x = exact(in + a[p], l); y = inplace ? x : malloc(l ? l : 1);
            cipher_rc4(r, (char *) x, l, (char *) y);
            mc_check(!memcmp(y, want + a[p], l), "the cipher of %d bytes cut at %d and %d with a key of %d differs from the whole", n, i, j, kl);
            if(!inplace) { mc_check(!memcmp(x, in + a[p], l), "the cipher changes its input"); free(y); }
            free(x);
        }
        delete_rc4(r);
        create_rc4(key, &r);        /* ciphering again gives the input back */
        x = exact(want, n); cipher_rc4(r, (char *) x, n, (char *) x); mc_check(!memcmp(x, in, n), "ciphering twice is not the identity"); free(x);
        delete_rc4(r); mc_step();
    }
    if(n && !memchr(in, 0, n)) { char *s = malloc(n + 1), *res; memcpy(s, in, n); s[n] = 0; crypt_rc4(s, key, &res); mc_check(!memcmp(res, want, n), "a ciphered message is wrong"); FREE(res); free(s); }
    free(key); mc_state(mc_hash(want, n, kl));
}

/* base 64 */
static const char b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static size_t ref_b64(const u8 *in, size_t n, char *out) {
    size_t i, o = 0; unsigned acc = 0, bits = 0;
    for(i = 0; i < n; i++) { acc = acc << 8 | in[i]; bits += 8; while(bits >= 6) { bits -= 6; out[o++] = b64[acc >> bits & 63]; } }
    if(bits) out[o++] = b64[acc << (6 - bits) & 63];
    while(o % 4) out[o++] = '=';
    return o;
}
static void check_b64(const u8 *in, size_t n) {
    static char want[8192]; size_t w = ref_b64(in, n, want), got = 0, back = 0; u8 *x = exact(in, n), *e = NULL, *d = NULL; char h[200];
    mc_hex(h, sizeof h, in, n);
    encode_base64(x, n, &e, &got);
    mc_check(got == w && !memcmp(e, want, w), "the base 64 of %s is wrong (%zu characters, expected %zu)", h, got, w);
    mc_check(calculate_encoded_buffer_length_base64(n) == w, "the announced length of the base 64 of %zu bytes is wrong", n);
    decode_base64(e, got, &d, &back);
    mc_check(back == n && !memcmp(d, in, n), "decoding the base 64 of %s gives %zu bytes or other contents", h, back);
    mc_check(!memcmp(e, want, w) && !memcmp(x, in, n), "the coding of %s changes its input", h);
    FREE(e); FREE(d); free(x); mc_step();
}
static void d02_base64(void) {
    static u8 in[4096]; int a = mc_choose(256), n, b, c, k;
    check_b64(in, 0); in[0] = a; check_b64(in, 1);
    for(b = 0; b < 256; b++) { in[1] = b; check_b64(in, 2); for(c = mc_thorough ? 0 : b & 7; c < 256; c += mc_thorough ? 1 : 8) { in[2] = c; check_b64(in, 3); } }
    for(k = 0; k < 4; k++) for(n = a; n < mc_bound; n += 256) { pattern(in, n, k); check_b64(in, n); }
    mc_state(a);
}
static void d02_base64_any(void) {
    static const char alpha[] = { 'A', 'z', '9', '/', '=', '-', ' ', (char) 0xff, 0 }; u8 s[16], *d = NULL; int n = mc_choose(mc_bound + 1), i, data = 0, eq = 0, ok = n % 4 == 0; size_t got = 0; u8 *x; char h[80], again[32];
    for(i = 0; i < n; i++) {
        s[i] = alpha[mc_choose(sizeof alpha)];
        if(s[i] == '=') eq++; else { if(eq || !s[i] || !strchr(b64, s[i])) ok = 0; data++; }
    }
    if(eq > 2) ok = 0;
    x = exact(s, n); mc_hex(h, sizeof h, s, n);
    decode_base64(x, n, &d, &got);
    mc_check(got <= (size_t) (n + 3) / 4 * 3, "decoding %s gives %zu bytes", h, got);
    for(i = 0; i < (int) got; i++) ((volatile u8 *) d)[i] ^= 0;     /* all of it is there */
    if(ok) {
        mc_check(got == (size_t) data * 6 / 8, "decoding %s gives %zu bytes, expected %d", h, got, data * 6 / 8);
        i = ref_b64(d, got, again);
        mc_check(i == n && !memcmp(again, s, data - (eq ? 1 : 0)), "decoding %s gives something else", h);
    }
    else mc_trivial();
    FREE(d); free(x);
}
/* percent */
static void check_percent(const u8 *in, size_t n) {
    u8 *x = exact(in, n), *e = NULL, *d = NULL; size_t got = 0, back = 0, i, o = 0; char h[200]; static char want[8192];
    mc_hex(h, sizeof h, in, n);
    for(i = 0; i < n; i++) {
        if((in[i] >= '0' && in[i] <= '9') || ((in[i] | 32) >= 'a' && (in[i] | 32) <= 'z' && in[i] < 128) || (in[i] && strchr("-_.~", in[i]))) want[o++] = in[i];
        else if(in[i] == ' ') want[o++] = '+';
        else o += sprintf(want + o, "%%%02x", in[i]);
    }
    url_encode(x, n, &e, &got);
    mc_check(got == o && e[got] == 0 && !strncasecmp((char *) e, want, o), "the encoding of %s is %s", h, e);
    url_decode(e, got, &d, &back);
    mc_check(back == n && !memcmp(d, in, n) && d[n] == 0, "decoding the encoding of %s gives something else", h);
    FREE(e); FREE(d); free(x); mc_step();
}
/* every length, of one kind of byte, of two in turn, and with one byte that differs at the start or at the end */
static void d02_percent_sizes(void) {
    static u8 in[2600]; static const u8 alpha[] = { 'a', '%', ' ', '/', 0, 0xff, '.' }; int n = mc_choose(mc_bound), a, b;
    if(n > 400) n = 400 + (n - 400) * 7;
    for(a = 0; a < 7; a++) for(b = 0; b < 7; b++) {
        memset(in, alpha[a], n); if(n) in[0] = alpha[b]; check_percent(in, n);
        memset(in, alpha[a], n); if(n) in[n - 1] = alpha[b]; check_percent(in, n);
        { int i; for(i = 0; i < n; i++) in[i] = alpha[i & 1 ? a : b]; } check_percent(in, n);
    }
    mc_state(1000 + n);
}
static void d02_percent(void) {
    static u8 in[64]; static const u8 alpha[] = { 'a', '%', '+', ' ', '/', '2', 0, 0x80, 0xff, '~' }; int a = mc_choose(256), b, n, i;
    check_percent(in, 0); in[0] = a; check_percent(in, 1);
    for(b = 0; b < 256; b++) { in[1] = b; check_percent(in, 2); in[2] = a; check_percent(in, 3); }
    if(a < 10) { n = mc_choose(mc_bound); in[0] = alpha[a]; for(i = 1; i <= n; i++) in[i] = alpha[mc_choose(10)]; check_percent(in, n + 1); }
    mc_state(a);
}
static int hexv(u8 c) { return c >= '0' && c <= '9' ? c - '0' : (c | 32) >= 'a' && (c | 32) <= 'f' ? (c | 32) - 'a' + 10 : -1; }
static void d02_percent_any(void) {
    static const u8 alpha[] = { '%', '2', 'f', 'F', '+', 'g', 'z', 0, 0xff }; u8 s[16], want[16], *d = NULL, *x; int n = mc_choose(mc_bound + 1), i, ok = 1, o = 0; size_t got = 0; ERROR_CODE r; char h[80], g[80];
    for(i = 0; i < n; i++) s[i] = alpha[mc_choose(sizeof alpha)];
    for(i = 0; i < n && ok == 1; i++) {
        if(s[i] == '+') want[o++] = ' ';
        else if(s[i] != '%') want[o++] = s[i];
        else if(n - i <= 2) ok = 0;
        else if(hexv(s[i + 1]) < 0 || hexv(s[i + 2]) < 0) ok = 2;
        else { want[o++] = hexv(s[i + 1]) * 16 + hexv(s[i + 2]); i += 2; }
    }
    x = exact(s, n); mc_hex(h, sizeof h, s, n);
    r = url_decode(x, n, &d, &got);
    mc_hex(g, sizeof g, d, got);
    mc_check(got <= (size_t) n && d[got] == 0, "decoding %s gives %zu bytes", h, got);
    if(ok == 1) mc_check(!IS_ERROR_CODE(r) && got == (size_t) o && !memcmp(d, want, o), "decoding %s gives %s%s", h, g, IS_ERROR_CODE(r) ? " and an error" : "");
    if(ok == 0) mc_check(IS_ERROR_CODE(r), "decoding %s, which ends inside an escape, is not an error", h);
    if(ok == 2) mc_trivial();
    FREE(d); free(x);
}


/* bencoding: a value is compared through a description of its tree */
typedef struct text { char p[4096]; size_t n; } text;
static void say(text *t, const char *f, ...) { va_list a; va_start(a, f); t->n += vsnprintf(t->p + t->n, sizeof t->p - t->n, f, a); va_end(a); mc_check(t->n < sizeof t->p, "internal: description too long"); }
static void say_bytes(text *t, const void *p, size_t n) { const u8 *b = p; say(t, "\"%zu:", n); while(n--) say(t, isalnum(*b) ? "%c" : "\\%02x", *b), b++; say(t, "\""); }
/* descriptions of the keys of the maps being read, one row per level */
static text *row(int *level) { static text rows[24][16]; int i; mc_check(*level < 24, "internal: too deep"); for(i = 0; i < 16; i++) { rows[*level][i].n = 0; rows[*level][i].p[0] = 0; } return rows[(*level)++]; }
static int level;
static void describe(struct type_t *v, text *t) {
    struct iterator_t *it; struct type_t *c; struct hash_map_element_t *e; int first = 1; text *keys; int n = 0, i;
    switch(v->type) {
        case INTEGER_TYPE: say(t, "%d", v->value.value_int); break;
        case STRING_TYPE: say_bytes(t, v->value.value_string, v->size); break;
        case LIST_TYPE:
            say(t, "["); create_iterator_linked_list(v->value.value_list, &it);
            for(;; first = 0) { get_next_iterator(it, (void **) &c); if(!c) break; if(!first) say(t, ","); describe(c, t); }
            delete_iterator_linked_list(v->value.value_list, it); say(t, "]"); break;
        case SORT_MAP_TYPE: case MAP_TYPE:
            keys = row(&level);        /* sorted by key: the order of a map is not part of its value */
            if(v->type == MAP_TYPE) create_element_iterator_hash_map(v->value.value_map, &it); else create_element_iterator_sort_map(v->value.value_sort_map, &it);
            for(;;) { get_next_iterator(it, (void **) &e); if(!e) break; mc_check(n < 16, "internal: too many keys"); say_bytes(&keys[n], e->key_string, strlen((char *) e->key_string)); say(&keys[n], "="); describe(e->value, &keys[n]); n++; }
            if(v->type == MAP_TYPE) delete_iterator_hash_map(v->value.value_map, it); else delete_iterator_sort_map(v->value.value_sort_map, it);
            qsort(keys, n, sizeof(text), (int (*)(const void *, const void *)) strcmp);
            say(t, "{"); for(i = 0; i < n; i++) say(t, "%s%s", i ? "," : "", keys[i].p); say(t, "}"); level--; break;
        default: say(t, "unknown type %d", v->type);
    }
}
/* the reference: 1 valid, 0 not; *may is set when readers may differ */
static int digits(const u8 **p, const u8 *end, long *v, int *may) {
    const u8 *b = *p; *v = 0;
    while(*p < end && **p >= '0' && **p <= '9') { if(*v < 100000000000L) *v = *v * 10 + (**p - '0'); ++*p; }
    if(*p - b > 1 && *b == '0') *may = 1;
    return *p > b;
}
static int ref_ben(const u8 **p, const u8 *end, text *t, int *may) {
    long v; const u8 *b; int neg;
    if(*p == end) return 0;
    if(**p == 'i') {
        ++*p; neg = *p < end && **p == '-'; *p += neg; b = *p;
        if(!digits(p, end, &v, may) || *p == end || **p != 'e') return 0;
        if(neg && *b == '0') *may = 1;
        if(v > 2147483647L + neg) *may = 1;
        ++*p; say(t, "%ld", neg ? -v : v); return 1;
    }
    if(**p >= '0' && **p <= '9') {
        if(!digits(p, end, &v, may) || *p == end || **p != ':') return 0;
        ++*p; if(v > end - *p) return 0;
        say_bytes(t, *p, v); *p += v; return 1;
    }
    if(**p == 'l') {
        ++*p; say(t, "[");
        for(neg = 0; *p < end && **p != 'e'; neg = 1) { if(neg) say(t, ","); if(!ref_ben(p, end, t, may)) return 0; }
        if(*p == end) return 0;
        ++*p; say(t, "]"); return 1;
    }
    if(**p == 'd') {
        text *keys = row(&level); int n = 0, i, ok = 1;
        ++*p;
        while(ok && *p < end && **p != 'e') {
            if(**p < '0' || **p > '9') { ok = 0; break; }
            mc_check(n < 16, "internal: too many keys");
            b = *p; ok = ref_ben(p, end, &keys[n], may);
            if(ok && memchr(b, 0, *p - b)) *may = 1;
            for(i = 0; ok && i < n; i++) if(!strncmp(keys[i].p, keys[n].p, keys[n].n) && keys[i].p[keys[n].n] == '=') *may = 1;
            if(ok) { say(&keys[n], "="); ok = ref_ben(p, end, &keys[n], may); n++; }
        }
        if(*p == end) ok = 0;
        if(ok) { ++*p; qsort(keys, n, sizeof(text), (int (*)(const void *, const void *)) strcmp); say(t, "{"); for(i = 0; i < n; i++) say(t, "%s%s", i ? "," : "", keys[i].p); say(t, "}"); }
        level--; return ok;
    }
    return 0;
}
static void check_ben(const u8 *s, size_t n) {
    static text want, got; const u8 *p = s; int may = memchr(s, ' ', n) != NULL, ok; struct type_t *v = NULL; u8 *x = exact(s, n); ERROR_CODE r; char h[200]; size_t base;
    level = 0; want.n = got.n = 0; want.p[0] = got.p[0] = 0;
    ok = ref_ben(&p, s + n, &want, &may) && p == s + n;
    unset_last_error_message(); base = mc_allocated();
    mc_hex(h, sizeof h, s, n);
    r = decode_bencoding(x, n, &v); mc_step();
    if(may) { if(!IS_ERROR_CODE(r) && v) free_type(v); }
    else if(ok) {
        mc_check(!IS_ERROR_CODE(r) && v, "%s is refused", h);
        describe(v, &got); free_type(v);
        mc_check(!strcmp(got.p, want.p), "%s is decoded as %s, expected %s", h, got.p, want.p);
    }
    else mc_check(IS_ERROR_CODE(r), "%s, which is not a complete value, is accepted", h);
    unset_last_error_message();
    mc_check(mc_allocated() == base, "decoding %s leaves %zu bytes allocated", h, mc_allocated() - base);
    mc_check(!memcmp(x, s, n), "decoding changes the data"); free(x);
    mc_log("%s: %s", h, may ? "either" : ok ? want.p : "an error");
    if(ok) mc_state(mc_hash(s, n, 1));
}
static const char ben_alpha[] = "ilde012:-a ";
static void d05_any(void) {
    u8 s[16]; int n = mc_choose(mc_bound + 1), i, head = n < 3 ? n : 3; long total = 1, k, q;
    for(i = 0; i < head; i++) s[i] = ben_alpha[mc_choose(11)];
    for(i = head; i < n; i++) total *= 11;
    for(k = 0; k < total; k++) { for(q = k, i = head; i < n; i++, q /= 11) s[i] = ben_alpha[q % 11]; check_ben(s, n); }
}
/* sequences of tokens: deeper structures than short strings can have */
static void d05_tokens(void) {
    static const struct { const char *s; int n; } tokens[] = { { "l", 1 }, { "d", 1 }, { "e", 1 }, { "i7e", 3 }, { "1:a", 3 }, { "0:", 2 }, { "1:b", 3 }, { "3:\0e:", 5 }, { "i-12e", 5 }, { "12:abcdefghijkl", 15 } };
    u8 s[400]; int n = mc_choose(mc_bound) + 1, i, open = 0; size_t len = 0;
    for(i = 0; i < n; i++) {
        int t = mc_choose(10);
        memcpy(s + len, tokens[t].s, tokens[t].n); len += tokens[t].n;
        open += t < 2 ? 1 : t == 2 ? -1 : 0;
        if(open <= 0 && i < n - 1 && !mc_thorough) break;       /* a top value ends: what follows is tried once below */
    }
    check_ben(s, len);
    if(i < n) { memcpy(s + len, "i7e", 3); check_ben(s, len + 3); memcpy(s + len, "e", 1); check_ben(s, len + 1); }
    for(i = len - 1; i >= 0; i--) check_ben(s, i);              /* every truncation */
}
/* values built with the library: encoded, compared, decoded and compared */
static struct type_t *build(int depth, int *budget, text *want, text *enc) {
    static const int ints[] = { 0, -1, 10, 2147483647, -2147483647 - 1 }; static const char *strs[] = { "", "a", "e", "4:ab", "a string of some length, with i1e and spaces" }; struct type_t *v, *c; int k = mc_choose(depth > 0 && *budget > 0 ? 13 : 10), n, i, which; char *s;
    if(k < 5) { create_type(&v, INTEGER_TYPE); *v = integer_type(ints[k]); say(want, "%d", ints[k]); say(enc, "i%de", ints[k]); return v; }
    if(k < 10) { s = MALLOC(strlen(strs[k - 5]) + 1); strcpy(s, strs[k - 5]); create_type(&v, STRING_TYPE); *v = string_type(s); say_bytes(want, s, strlen(s)); say(enc, "%zu:%s", strlen(s), s); return v; }
    n = mc_choose(*budget < 3 ? *budget + 1 : 4); *budget -= n;
    if(k == 10) {
        struct linked_list_t *l; create_linked_list(&l); create_type(&v, LIST_TYPE); *v = list_type(l); say(want, "["); say(enc, "l");
        for(i = 0; i < n; i++) { if(i) say(want, ","); c = build(depth - 1, budget, want, enc); append_value_linked_list(l, c); }
        say(want, "]"); say(enc, "e"); return v;
    }
    which = k - 11;
    {
        static const char *keys[] = { "", "a", "key", "zz" }; struct sort_map_t *m = NULL; struct hash_map_t *h = NULL;
        if(which) { create_hash_map(&h, 0); create_type(&v, MAP_TYPE); *v = map_type(h); enc->p[0] = 0; } else { create_sort_map(&m, 0); create_type(&v, SORT_MAP_TYPE); *v = sort_map_type(m); }
        say(want, "{"); say(enc, "d");
        for(i = 0; i < n; i++) {
            if(i) say(want, ","); say_bytes(want, keys[i], strlen(keys[i])); say(want, "="); say(enc, "%zu:%s", strlen(keys[i]), keys[i]);
            c = build(depth - 1, budget, want, enc);
            if(which) set_value_string_hash_map(h, (u8 *) keys[i], c); else set_value_string_sort_map(m, (u8 *) keys[i], c);
        }
        say(want, "}"); say(enc, "e"); if(which) enc->p[0] = 0; return v;
    }
}
static void d05_values(void) {
    static text want, enc, got; int budget = mc_bound; struct type_t *v, *w = NULL; u8 *e; size_t n = 0, base; ERROR_CODE r;
    level = 0; want.n = enc.n = got.n = 0; enc.p[0] = 0;
    unset_last_error_message(); base = mc_allocated();
    v = build(3, &budget, &want, &enc);
    encode_bencoding(v, &e, &n);
    if(enc.p[0]) mc_check(n == enc.n && !memcmp(e, enc.p, n), "%s is encoded as %.*s, expected %s", want.p, (int) n, e, enc.p);
    r = decode_bencoding(e, n, &w);
    mc_check(!IS_ERROR_CODE(r) && w, "%s, encoded as %.*s, can not be decoded", want.p, (int) n, e);
    describe(w, &got);
    mc_check(!strcmp(got.p, want.p), "%s is decoded as %s", want.p, got.p);
    free_type(v); free_type(w); FREE(e);
    mc_check(mc_allocated() == base, "%s: %zu bytes are left allocated", want.p, mc_allocated() - base);
    mc_step(); mc_log("%s", want.p); mc_state(mc_hash(want.p, want.n, n));
}

/* numbers, strings, lists, maps and depths of every size: encoded, compared with what is written here, and decoded */
static struct type_t *int_value(int i) { struct type_t *v; create_type(&v, INTEGER_TYPE); *v = integer_type(i); return v; }
static struct type_t *str_value(size_t n, char c) { struct type_t *v; char *b = MALLOC(n + 1); memset(b, c, n); if(n) b[n - 1] = 'e'; b[n] = 0; create_type(&v, STRING_TYPE); *v = string_type(b); return v; }
static struct type_t *list_value(void) { struct type_t *v; struct linked_list_t *l; create_linked_list(&l); create_type(&v, LIST_TYPE); *v = list_type(l); return v; }
static struct type_t *map_value(void) { struct type_t *v; struct sort_map_t *m; create_sort_map(&m, 0); create_type(&v, SORT_MAP_TYPE); *v = sort_map_type(m); return v; }
static u8 *wrote; static size_t nwrote;
static void w_str(size_t n, char c) { nwrote += sprintf((char *) wrote + nwrote, "%zu:", n); memset(wrote + nwrote, c, n); nwrote += n; if(n) wrote[nwrote - 1] = 'e'; }
static void equal_values(struct type_t *a, struct type_t *b, int depth) {
    mc_check(a->type == b->type || (a->type == SORT_MAP_TYPE && b->type == MAP_TYPE), "a value of type %d is decoded as one of type %d (depth %d)", a->type, b->type, depth);
    if(a->type == INTEGER_TYPE) mc_check(a->value.value_int == b->value.value_int, "%d is decoded as %d", a->value.value_int, b->value.value_int);
    else if(a->type == STRING_TYPE) { size_t n = strlen(a->value.value_string); mc_check(b->size == n && !memcmp(a->value.value_string, b->value.value_string, n + 1), "a string of %zu bytes is decoded as another one of %zu", n, b->size); }
    else if(a->type == LIST_TYPE) {
        struct linked_list_node_t *x = a->value.value_list->first, *y = b->value.value_list->first; size_t i = 0;
        mc_check(a->value.value_list->size == b->value.value_list->size, "a list of %zu values is decoded as one of %zu", a->value.value_list->size, b->value.value_list->size);
        for(; x && y; x = x->next, y = y->next, i++) equal_values(x->value, y->value, depth + 1);
        mc_check(!x && !y, "the lists have different ends");
    } else {
        struct iterator_t *it; struct hash_map_element_t *e; void *v; struct hash_map_t *m = a->value.value_sort_map->hash_map; int sorted = b->type == SORT_MAP_TYPE;
        size_t n = sorted ? b->value.value_sort_map->hash_map->size : b->value.value_map->size;
        mc_check(m->size == n, "a map of %zu keys is decoded as one of %zu", m->size, n);
        create_element_iterator_hash_map(m, &it);
        for(;;) {
            get_next_iterator(it, (void **) &e); if(!e) break;
            if(sorted) get_value_string_sort_map(b->value.value_sort_map, e->key_string, &v); else get_value_string_hash_map(b->value.value_map, e->key_string, &v);
            mc_check(v != NULL, "a key of %zu bytes is lost", strlen((char *) e->key_string));
            equal_values(e->value, v, depth + 1);
        }
        delete_iterator_hash_map(m, it);
    }
}
static void d05_sizes(void) {
    static const size_t edges[] = { 300, 511, 512, 999, 1000, 1001, 1023, 1024, 4095, 4096, 9999, 10000, 16384, 65535, 65536, 99999, 100000, 300000 }; static u8 key[300001];
    int what = mc_choose(8), k = mc_choose(mc_bound), i, n; struct type_t *v, *w = NULL, *t; u8 *e; size_t en = 0, base, len; ERROR_CODE r;
    unset_last_error_message(); base = mc_allocated(); wrote = malloc(2000000); nwrote = 0;
#define W(...) nwrote += sprintf((char *) wrote + nwrote, __VA_ARGS__)
    len = k < 250 ? k : edges[(k - 250) % 18];
    switch(what) {
        case 0: {   long ten = 1, x; for(i = 0; i < k % 10; i++) ten *= 10;     /* around the powers of ten and of two */
            if(k >= 120) { mc_trivial(); free(wrote); return; }
            x = k < 60 ? ten : 1L << (k % 32); x += k / 20 % 3 - 1; if(k & 1) x = -x; if(x > 2147483647L) x = 2147483647L; if(x < -2147483648L) x = -2147483648L;
            v = int_value((int) x); W("i%lde", x); break; }
        case 1: v = str_value(len, 'a'); w_str(len, 'a'); break;
        case 2: v = list_value(); append_value_linked_list(v->value.value_list, int_value(k)); append_value_linked_list(v->value.value_list, str_value(len, ':')); append_value_linked_list(v->value.value_list, int_value(-k));
            W("li%de", k); w_str(len, ':'); W("i%dee", -k); break;
        case 3: v = map_value(); set_value_string_sort_map(v->value.value_sort_map, (u8 *) "k", str_value(len, '1')); W("d1:k"); w_str(len, '1'); W("e"); break;
        case 4: v = map_value(); memset(key, 'k', len); if(len) key[len - 1] = 'e'; key[len] = 0; set_value_string_sort_map(v->value.value_sort_map, key, int_value(5)); set_value_string_sort_map(v->value.value_sort_map, (u8 *) "z", int_value(6));
            W("d"); w_str(len, 'k'); W("i5e1:zi6ee"); break;
        case 5: n = len > 2000 ? 2000 : (int) len; v = list_value(); W("l"); for(i = 0; i < n; i++) { append_value_linked_list(v->value.value_list, i % 3 ? int_value(i) : str_value(i % 12, 'x')); if(i % 3) W("i%de", i); else w_str(i % 12, 'x'); } W("e"); break;
        case 6: n = len > 2000 ? 2000 : (int) len; v = map_value(); W("d"); for(i = 0; i < n; i++) { char b[20]; sprintf(b, "%05d", i * 7 % 2003); set_value_string_sort_map(v->value.value_sort_map, (u8 *) b, int_value(i)); W("5:%si%de", b, i); } W("e"); break;
        default: if(k > 260) { mc_trivial(); free(wrote); return; }             /* a value at the end of k levels */
            v = int_value(3); for(i = 0; i < k; i++) { if((k % 3 == 0 ? 0 : k % 3 == 1 ? 1 : i & 1)) { t = map_value(); set_value_string_sort_map(t->value.value_sort_map, (u8 *) "d", v); } else { t = list_value(); append_value_linked_list(t->value.value_list, v); } v = t; }
            for(i = k - 1; i >= 0; i--) { if((k % 3 == 0 ? 0 : k % 3 == 1 ? 1 : i & 1)) W("d1:d"); else W("l"); }
            W("i3e"); for(i = 0; i < k; i++) W("e");
    }
    encode_bencoding(v, &e, &en);
    mc_check(en == nwrote && !memcmp(e, wrote, en), "kind %d, size %zu: the encoding has %zu bytes, expected %zu, or other ones", what, len, en, nwrote);
    {   u8 *x = exact(e, en); r = decode_bencoding(x, en, &w); free(x); }
    mc_check(!IS_ERROR_CODE(r) && w, "kind %d, size %zu: the encoded value is refused", what, len);
    equal_values(v, w, 0); free_type(w); w = NULL;
    for(i = 0; i < 3; i++) {        /* the same, cut, is refused */
        size_t cut = i == 0 ? en - 1 : i == 1 ? en / 2 : en > 10 ? en - 10 : 1; u8 *x = exact(e, cut);
        r = decode_bencoding(x, cut, &w); mc_check(IS_ERROR_CODE(r), "kind %d, size %zu: the first %zu of %zu bytes are accepted", what, len, cut, en); free(x);
    }
    unset_last_error_message();
    free_type(v); FREE(e); free(wrote); mc_step(); mc_state(what * 1000 + k);
    mc_check(mc_allocated() == base, "kind %d, size %zu: %zu bytes are left allocated", what, len, mc_allocated() - base);
}

static const mc_scenario list[] = {
    { "D01.cuts", d01_cuts, 140, 200, 0, 0, 2, 0, "md5 and sha1 of every length, whole and cut at every pair of positions" },
    { "D01.sizes", d01_sizes, 300, 1100, 0, 0, 2, 0, "md5 and sha1 of every length and 4 patterns, given in pieces of every size up to 130" },
    { "D01.long", d01_long, 3, 5, 0, 0, 3, 0, "md5 and sha1 of messages around half a gigabyte (thorough: up to one), in 3 sizes of pieces" },
    { "D01.crc", d01_crc, 300, 2000, 0, 0, 1, 0, "the checksum of every string of up to 2 (thorough: 3) bytes and 4 patterns of every length" },
    { "D01.cipher", d01_cipher, 40, 70, 0, 0, 2, 0, "the cipher with keys of 13 lengths and 3 patterns over data of every length, cut everywhere, in place or not, and back" },
    { "D02.base64", d02_base64, 700, 3000, 0, 0, 1, 0, "encoding and decoding every string of up to 3 bytes (quick: an eighth of those of 3) and 4 patterns of every length" },
    { "D02.base64.any", d02_base64_any, 5, 7, 0, 0, 2, 0, "decoding every string over 9 characters, canonical or not" },
    { "D02.percent", d02_percent, 5, 6, 0, 0, 2, 0, "encoding and decoding every string of up to 2 bytes, and longer ones over 10 bytes" },
    { "D02.percent.sizes", d02_percent_sizes, 300, 600, 0, 0, 1, 0, "texts of every length in 147 patterns" },
    { "D02.percent.any", d02_percent_any, 5, 7, 0, 0, 2, 0, "decoding every string over 9 bytes, valid or not" },
    { "D05.any", d05_any, 6, 7, 0, 0, 2, 0, "decoding every string over 11 characters against a reference reader" },
    { "D05.tokens", d05_tokens, 6, 7, 0, 0, 2, 0, "decoding every sequence of tokens, and every truncation of it, against a reference reader" },
    { "D05.values", d05_values, 4, 6, 0, 0, 3, 0, "every value of up to 4 (6) nodes below 3 levels, encoded and decoded back" },
    { "D05.sizes", d05_sizes, 268, 268, 0, 0, 2, 0, "numbers around the powers of ten and two, strings, keys, lists and maps of every size to 250 and 18 up to 300000, every depth up to 260" },
};
MC_MAIN(list)
