/* D03 streams: every sequence of operations against a plain array of bytes or
 * bits.  D04 entropy coding: every small input and every shape of tree. */
#include "viriatum_commons/viriatum_commons.h"
#include "mc.h"

typedef unsigned char u8;
#define MAXB 800000
/* a stream owned by the harness: bytes in memory, rewound (in) or emptied (out) when opened */
typedef struct hs { struct stream_t s; u8 *p; size_t n, at; int out, opens, closes, most; } hs;
static void h_open(struct stream_t *s) { hs *h = s->lower; h->at = 0; h->opens++; if(h->out) h->n = 0; }
static void h_close(struct stream_t *s) { hs *h = s->lower; h->closes++; }
static size_t h_read(struct stream_t *s, u8 *b, size_t n) { hs *h = s->lower; if(h->at >= h->n) return 0; if(n > h->n - h->at) n = h->n - h->at; memcpy(b, h->p + h->at, n); h->at += n; return n; }
static size_t h_write(struct stream_t *s, u8 *b, size_t n) { hs *h = s->lower; if(h->at + n > MAXB) mc_fail("internal: too much is written"); memcpy(h->p + h->at, b, n); h->at += n; if(h->at > h->n) h->n = h->at; return n; }
static void h_flush(struct stream_t *s) { (void) s; }
static void h_seek(struct stream_t *s, size_t t) { hs *h = s->lower; mc_check(t <= h->n, "a stream of %zu bytes is positioned at %zu", h->n, t); h->at = t; }
static size_t h_size(struct stream_t *s) { return ((hs *) s->lower)->n; }
static size_t h_tell(struct stream_t *s) { return ((hs *) s->lower)->at; }
static void hs_init(hs *h, u8 *p, size_t n, int out) { memset(h, 0, sizeof *h); h->p = p; h->n = n; h->out = out; h->s.open = h_open; h->s.close = h_close; h->s.read = h_read; h->s.write = h_write; h->s.flush = h_flush; h->s.seek = h_seek; h->s.size = h_size; h->s.tell = h_tell; h->s.lower = h; }

/* memory and file streams */
static u8 ref[MAXB]; static size_t rn, rat;
static const size_t few_sizes[] = { 1, 3, 4096, 5000 }, long_sizes[] = { 2, 4095, 4097, 8191, 8193, 12289, 32768, 65537, 200000 };
static void d03_stream(int file, const size_t *sizes, int count, size_t most) {
    struct memory_stream_t *m = NULL; struct file_stream_t *f = NULL; struct stream_t *s; static u8 buf[MAXB]; int d, last = 0, v = 0, open = 1; size_t n, got, i; char op[100] = "open", path[64]; size_t base = mc_allocated();
    if(file) { snprintf(path, sizeof path, "stream.%d", (int) getpid()); remove(path); create_file_stream(&f, (u8 *) path, (u8 *) "wb+"); s = get_stream_file_stream(f); }
    else { create_memory_stream(&m); s = get_stream_memory_stream(m); }
    s->open(s); rn = rat = 0;
    for(d = 0; d < mc_bound; d++) {
        switch(mc_choose(5)) {
            case 0: n = sizes[mc_choose(count)]; if(rat + n > most) goto out; if(file && last == 2) { s->seek(s, rat); }
                sprintf(op, "writing %zu at %zu of %zu", n, rat, rn);
                for(i = 0; i < n; i++) buf[i] = ref[rat + i] = (u8) (++v * 7 + (i >> 8));
                got = s->write(s, buf, n); mc_check(got == n, "%s: %zu bytes are written", op, got);
                rat += n; if(rat > rn) rn = rat;
                last = 1; break;
            case 1: n = sizes[mc_choose(count)] * 2; if(file && last == 1) { s->flush(s); s->seek(s, rat); }
                sprintf(op, "reading %zu at %zu of %zu", n, rat, rn);
                memset(buf, 0xEE, n + 1);
                got = s->read(s, buf, n);
                mc_check(got == (n < rn - rat ? n : rn - rat), "%s: %zu bytes are read", op, got);
                mc_check(!memcmp(buf, ref + rat, got), "%s: the bytes are not those written", op);
                mc_check(buf[got] == 0xEE, "%s: more is stored than reported", op);
                rat += got; last = 2; break;
            case 2: if(!rn) goto out; n = mc_choose(4); n = n == 0 ? 0 : n == 1 ? 1 : n == 2 ? rn / 2 : rn; sprintf(op, "moving to %zu of %zu", n, rn); s->seek(s, n); rat = n; last = 0; break;
            case 3: if(file || !open) goto out; sprintf(op, "closing and opening"); s->close(s); s->open(s); rn = rat = 0; last = 0; break;
            case 4: if(file) { if(last == 0) goto out; s->flush(s); last = 0; s->seek(s, rat); } else goto out; break;
        }
        mc_step(); mc_log("%s", op);
        mc_check(s->size(s) == rn, "after %s the size is %zu, expected %zu", op, s->size(s), rn);
        mc_check(s->tell(s) == rat, "after %s the position is %zu, expected %zu", op, s->tell(s), rat);
        /* the contents only matter through equality: they are part of the state */
        { uint64_t h = mc_hash(ref, rn, rat * 31 + rn); h = mc_hash(&last, sizeof last, h); h = mc_hash(&v, sizeof v, h + d); if(m) h = mc_hash(&m->buffer_size, sizeof m->buffer_size, h); if(mc_visited(h)) break; }
    }
    /* everything, read back from the start */
    if(file) s->flush(s);
    s->seek(s, 0); got = s->read(s, buf, MAXB); mc_check(got == rn && !memcmp(buf, ref, rn), "after %s the stream holds %zu bytes, expected %zu, or others", op, got, rn);
out:
    s->close(s);
    if(file) { delete_file_stream(f); remove(path); } else { delete_memory_stream(m); mc_check(mc_allocated() == base, "deleting the stream leaves %zu bytes allocated", mc_allocated() - base); }
}
static void d03_memory(void) { d03_stream(0, few_sizes, 4, 16000); }
static void d03_file(void) { d03_stream(1, few_sizes, 4, 16000); }
static void d03_long(void) { d03_stream(mc_choose(2), long_sizes, 9, 600000); }

/* bits: the reference is an array with one bit per element */
static u8 bits[MAXB * 8]; static size_t nb;
static unsigned pat(int kind, int size) { unsigned all = (1u << size) - 1; return kind == 0 ? 0 : kind == 1 ? all : 0xA53C & all; }
static void put_bits(unsigned v, int size) { while(size--) bits[nb++] = v >> size & 1; }
static void d03_write(void) {
    static const int prefixes[] = { 0, 1, 4093, 4094, 4095, 4096, 8191 }; static u8 mem[MAXB]; hs h; struct bit_stream_t *b; int i, pre = prefixes[mc_choose(7)], k; size_t at; size_t base = mc_allocated();
    hs_init(&h, mem, 0, 1); nb = 0;
    create_bit_stream(&b, &h.s); open_bit_stream(b);
    for(i = 0; i < pre; i++) { write_byte_bit_stream(b, i * 37 & 255, 8); put_bits(i * 37 & 255, 8); }
    for(i = 0; i < mc_bound; i++) {
        int size; k = mc_choose(23);
        if(k == 0) break;                       /* no more */
        if(k <= 7) { size = k; } else if(k <= 16) size = k - 1 < 8 ? 8 : k; else size = k - 14;
        if(k == 8) size = 8;
        k = mc_choose(3) | (k > 8 || k == 8 ? 4 : 0);
        if(size <= 8 && !(k & 4)) write_byte_bit_stream(b, pat(k & 3, size), size);
        else write_word_bit_stream(b, pat(k & 3, size), size);
        put_bits(pat(k & 3, size), size); mc_step(); mc_log("writing %d bits: %x", size, pat(k & 3, size));
        mc_check(b->bit_counter_write == nb, "%zu bits are counted after writing %zu", b->bit_counter_write, nb);
    }
    close_bit_stream(b); delete_bit_stream(b);
    mc_check(h.n == (nb + 7) / 8, "%zu bits are stored in %zu bytes", nb, h.n);
    for(at = 0; at < h.n * 8; at++) mc_check((mem[at / 8] >> (7 - at % 8) & 1) == (at < nb ? bits[at] : 0), "bit %zu of %zu is wrong", at, nb);
    mc_check(h.opens == 1 && h.closes == 1, "the stream is opened %d times and closed %d", h.opens, h.closes);
    mc_check(mc_allocated() == base, "deleting the bit stream leaves %zu bytes allocated", mc_allocated() - base);
    mc_state(mc_hash(mem, h.n, nb));
}
static void d03_read(void) {
    static const int starts[] = { 0, 1, 4093, 4094, 4095, 4096, 8190 }; static const int ends[] = { 1, 2, 3, 9 }; static const int sizes[] = { 1, 3, 7, 8, 108, 109, 112, 116 }; static const int backs[] = { 1, 3, 7, 8, 9, 12, 15, 16, 17, 2056 };
    static u8 mem[MAXB]; hs h; struct bit_stream_t *b; int i, d, pre = starts[mc_choose(7)], total = pre + ends[mc_choose(4)]; u8 x; unsigned short w; size_t at, j, base = mc_allocated();
    for(i = 0; i < total; i++) mem[i] = (i * 2654435761u >> 11) ^ i;
    for(at = 0; at < (size_t) total * 8; at++) bits[at] = mem[at / 8] >> (7 - at % 8) & 1;
    nb = (size_t) total * 8;
    hs_init(&h, mem, total, 0);
    create_bit_stream(&b, &h.s); open_bit_stream(b);
    for(i = 0; i < pre; i++) { read_byte_bit_stream(b, &x, 8); mc_check(x == mem[i], "byte %d is read as %02x", i, x); }
    at = (size_t) pre * 8;
    for(d = 0; d < mc_bound; d++) {
        int k = mc_choose(18);
        if(k < 8) {
            int size = sizes[k] % 100; unsigned want = 0, got; int past = at + size > nb;
            if(past && at >= nb + 24) goto out;
            if(sizes[k] > 100) { read_word_bit_stream(b, &w, size); got = w; } else { read_byte_bit_stream(b, &x, size); got = x; }
            for(j = 0; j < (size_t) size; j++) want = want << 1 | (at + j < nb ? bits[at + j] : 0);
            if(past) { int over = at + size - nb; mc_check(got >> over == want >> over, "reading %d bits at %zu of %zu gives %x, expected %x before the end", size, at, nb, got >> over, want >> over); }
            else mc_check(got == want, "reading %d bits at %zu of %zu gives %x, expected %x", size, at, nb, got, want);
            at += size; mc_log("reading %d bits, then at %zu", size, at);
        }
        else {
            size_t back = backs[k - 8];
            if(back > at) goto out;
            seek_bit_stream(b, back); at -= back; mc_log("back to %zu", at);
        }
        mc_step();
        { uint64_t q = mc_hash(&at, sizeof at, total); q = mc_hash(&h.at, sizeof h.at, q); q = mc_hash(&b->current_byte_offset_read, 1, q); q = mc_hash(&b->byte_counter_read, 8, q); q = mc_hash(&b->byte_current_read, 8, q + d); if(mc_visited(q)) break; }
    }
out:
    close_bit_stream(b); delete_bit_stream(b);
    mc_check(mc_allocated() == base, "deleting the bit stream leaves %zu bytes allocated", mc_allocated() - base);
}

/* entropy coding */
static u8 in[MAXB], packed[MAXB], back[MAXB];
static uint64_t optimal(const u8 *p, size_t n) {
    uint64_t f[256] = { 0 }, cost = 0; size_t i; int k = 0, a, b, only = 0;
    for(i = 0; i < n; i++) f[p[i]]++;
    for(i = 0; i < 256; i++) if(f[i]) { uint64_t v = f[i]; f[i] = 0; f[k++] = v; }
    if(k == 1) only = 1;
    while(k > 1) {
        uint64_t s;
        for(a = 0, i = 1; i < (size_t) k; i++) if(f[i] < f[a]) a = i;
        s = f[a]; f[a] = f[--k];
        for(b = 0, i = 1; i < (size_t) k; i++) if(f[i] < f[b]) b = i;
        s += f[b]; f[b] = s; cost += s;
    }
    return only ? n : cost;
}
static void round_trip(size_t n, const char *what) {
    struct huffman_t *h; hs a, b, c; int table; uint64_t best = optimal(in, n); size_t base = mc_allocated();
    create_huffman(&h);
    hs_init(&a, in, n, 0); hs_init(&b, packed, 0, 1);
    generate_table_huffman(h, &a.s);
    encode_huffman(h, &a.s, &b.s);
    mc_check((uint64_t) h->bit_count == best, "%s: %zu bytes are coded in %lld bits, the shortest code takes %llu", what, n, (long long) h->bit_count, (unsigned long long) best);
    mc_check(b.n == (best + 7) / 8, "%s: %lld bits are stored in %zu bytes", what, (long long) h->bit_count, b.n);
    for(table = 0; table < 2; table++) {
        if(table) generate_prefix_huffman(h);
        b.out = 0; hs_init(&b, packed, b.n, 0); hs_init(&c, back, 0, 1); memset(back, 0, n + 1);
        decode_huffman(h, &b.s, &c.s);
        mc_check(c.n == n && !memcmp(in, back, n), "%s: decoding with the %s gives %zu bytes of %zu, or others", what, table ? "table" : "tree", c.n, n);
        mc_check(b.opens == 1 && b.closes == 1 && c.opens == 1 && c.closes == 1, "%s: decoding with the %s opens the input %d times and the output %d, and closes them %d and %d times", what, table ? "table" : "tree", b.opens, c.opens, b.closes, c.closes);
    }
    delete_huffman(h);
    mc_check(mc_allocated() == base, "%s: %zu bytes are left allocated", what, mc_allocated() - base);
    mc_step(); mc_log("%s", what); mc_state(mc_hash(in, n, n));
}
static void d04_strings(void) {
    int n = mc_choose(mc_bound + 1), i; static const u8 alpha[] = { 0, 'a', 0x80, 0xff }; char h[80];
    for(i = 0; i < n; i++) in[i] = alpha[mc_choose(4)];
    mc_hex(h, sizeof h, in, n); round_trip(n, h);
}
/* every multiset of counts: every shape of tree; the order of the symbols varies */
static void d04_shapes(void) {
    static const int counts[] = { 1, 2, 3, 4, 5, 8, 13, 21, 34, 100 }; int k = 1 + mc_choose(mc_bound), i, order = mc_choose(3), low = 0; size_t n = 0, j; char t[80];
    for(i = 0; i < k; i++) { int c; low += mc_choose(10 - low); c = counts[low]; while(c--) in[n++] = i * 29 + 3; }
    if(order) for(j = 0; j < n; j++) { size_t o = order == 1 ? n - 1 - j : j * 7919 % n; u8 x = in[j]; in[j] = in[o]; in[o] = x; }
    sprintf(t, "%d symbols, %zu bytes, order %d", k, n, order); round_trip(n, t);
}
/* the deepest trees: frequencies that follow the Fibonacci numbers */
static void d04_deep(void) {
    int k = 1 + mc_choose(mc_bound), i, order = mc_choose(4), extra = mc_choose(3); size_t a = 1, b = 1, t, n = 0, j; char s[80];
    for(i = 0; i < k; i++) { for(j = 0; j < a && n < MAXB - 300; j++) in[n++] = i; t = a + b; a = b; b = t; }
    for(i = 0; i < extra; i++) { in[n++] = 200 + i; }
    if(order) for(j = 0; j < n; j++) { size_t o = order == 1 ? n - 1 - j : order == 2 ? j * 7919 % n : (j * 31 + 17) % n; u8 x = in[j]; in[j] = in[o]; in[o] = x; }
    sprintf(s, "a tree of depth %d, %zu bytes, order %d", k - 1, n, order); round_trip(n, s);
}
static void d04_long(void) {
    static const size_t lens[] = { 255, 256, 257, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 12289, 20000, 32768 }; static const int syms[] = { 1, 2, 3, 5, 16, 17, 200, 255, 256 };
    size_t n = lens[mc_choose(13)] - 2 + mc_choose(5), j; int k = syms[mc_choose(9)], skew = mc_choose(mc_bound); uint32_t x = 99; char t[80];
    for(j = 0; j < n; j++) { uint32_t r; x = x * 1664525 + 1013904223; r = (x >> 8) % k; if(skew >= 1) { x = x * 1664525 + 1013904223; r = r * ((x >> 8) % 1000) / 1000; } if(skew >= 2) { x = x * 1664525 + 1013904223; r = r * ((x >> 8) % 1000) / 1000; } in[j] = skew == 3 ? 255 - r : r; }
    sprintf(t, "%zu bytes of %d symbols (%d)", n, k, skew); round_trip(n, t);
}
/* large inputs: the weights pass the limits of the small integers */
static void d04_large(void) {
    static const int counts[] = { 1, 2900, 3100, 30000, 36000, 65535, 65537, 140000 }; int k = 1 + mc_choose(mc_bound), i, low = 0, order = mc_choose(2); size_t n = 0, j; char t[80];
    for(i = 0; i < k; i++) { int c; low += mc_choose(8 - low); c = counts[low]; while(c-- && n < MAXB - 300) in[n++] = i * 29 + 3; }
    if(order) for(j = 0; j < n; j++) { size_t o = n - 1 - j; u8 x = in[j]; if(o < j) break; in[j] = in[o]; in[o] = x; }
    sprintf(t, "%d symbols, %zu bytes, order %d", k, n, order); round_trip(n, t);
}

static const mc_scenario list[] = {
    { "D03.memory", d03_memory, 6, 9, 0, 0, 2, 0, "a memory stream: every sequence of writes and reads of 4 sizes, moves and openings" },
    { "D03.file", d03_file, 5, 7, 0, 0, 2, 0, "a file stream: every sequence of writes and reads of 4 sizes, moves and flushes" },
    { "D03.long", d03_long, 3, 4, 0, 0, 3, 0, "a memory or a file stream: every sequence of writes and reads of 9 sizes up to 200000 (400000 for reads), moves, openings and flushes" },
    { "D03.write", d03_write, 2, 3, 0, 0, 2, 0, "writing bits: every sequence of 22 sizes and 3 values, from 7 positions around the buffer limits" },
    { "D03.read", d03_read, 6, 9, 0, 0, 2, 0, "reading bits: every sequence of reads of 8 sizes and steps back of 8 sizes, from 7 positions around the buffer limits to 4 distances of the end" },
    { "D04.strings", d04_strings, 7, 9, 0, 0, 2, 0, "every string over 4 bytes, coded and decoded with the tree and with the table" },
    { "D04.shapes", d04_shapes, 5, 8, 0, 0, 2, 0, "every multiset of frequencies out of 10, in 3 orders" },
    { "D04.deep", d04_deep, 20, 21, 0, 0, 2, 0, "the deepest trees, with codes of up to 20 bits, in 4 orders" },
    { "D04.long", d04_long, 4, 4, 0, 0, 2, 0, "inputs around the limits of the buffers, of 1 to 256 symbols, 4 distributions" },
    { "D04.large", d04_large, 4, 5, 0, 0, 2, 0, "every multiset of frequencies out of 8, up to 140000" },
};
MC_MAIN(list)
