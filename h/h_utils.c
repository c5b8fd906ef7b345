/* C02: contracts on the wire codecs (utils.c). */
#include "vf.h"

/* isspace() of the C locale; the argument must be EOF or an unsigned char. */
static int vf_isspace(int c) {
    ENS(c >= -1 && c <= 255, "isspace argument is in range");
    return c == ' ' || (c >= 9 && c <= 13);
}
#undef isspace
#define isspace vf_isspace

/* ---- RFC 4648 specification ---- */
static int spec_char(unsigned v) { return v < 26 ? 'A' + v : v < 52 ? 'a' + (v - 26) : v < 62 ? '0' + (v - 52) : v == 62 ? '+' : '/'; }
static int spec_val(int c) {
    if(c >= 'A' && c <= 'Z') return c - 'A';
    if(c >= 'a' && c <= 'z') return c - 'a' + 26;
    if(c >= '0' && c <= '9') return c - '0' + 52;
    return c == '+' ? 62 : c == '/' ? 63 : -1;
}
static uint8_t *IN; static size_t INL; static char *OUT; static size_t OUTL; static size_t w;
static uint8_t inb(size_t i) { return i < INL ? IN[i] : 0; }
/* the w-th character of the encoding (without padding) */
static char enc_at(size_t k) { size_t b = k / 4 * 3 + (k % 4 == 0 ? 0 : k % 4 - 1);
    switch(k % 4) {
    case 0: return spec_char(inb(b) >> 2);
    case 1: return spec_char(((inb(b) & 3) << 4) | (inb(b + 1) >> 4));
    case 2: return spec_char(((inb(b) & 15) << 2) | (inb(b + 1) >> 6));
    default: return spec_char(inb(b) & 63);
    } }

#ifdef VF_UNB
#define VF_INV_be_OK (ii <= INL && rem == (8 * (ii % 3)) % 6 && io == ii / 3 * 4 + ii % 3 && io <= OUTL && \
    (rem == 0 || (v & ((1u << rem) - 1)) == (IN[ii - 1] & ((1u << rem) - 1))) && (w >= io || OUT[w] == enc_at(w)))
#define VF_INV_be_ENTER ({ ENS(VF_INV_be_OK, "INV base64 encode base"); ii = NDR(0, 1 << 28); io = ND(); rem = ND(); v = ND(); ch = ND(); \
    REQ(ii <= INL); __CPROVER_havoc_object(OUT); REQ(VF_INV_be_OK); })
#define VF_INV_be_STEP ({ ENS(VF_INV_be_OK, "INV base64 encode step"); })
/* decode: gs characters of the alphabet so far; S0,S1 the two the witness byte is made of */
static size_t gs, K; static unsigned S0, S1, gl; static size_t gii, gio;
#define VF_INV_bd_OK (ii <= INL && rem == (6 * (gs % 4)) % 8 && io == gs / 4 * 3 + (gs % 4 ? gs % 4 - 1 : 0) && io <= OUTL && gs <= ii && gl < 64 && \
    (rem == 0 || (v & ((1u << rem) - 1)) == (gl & ((1u << rem) - 1))) && S0 < 64 && S1 < 64 && (gs != K + 1 || gl == S0) && (gs != K + 2 || gl == S1) && \
    (w >= io || (uint8_t)OUT[w] == dec_at()))
static uint8_t dec_at(void) { switch(w % 3) { case 0: return (S0 << 2) | (S1 >> 4); case 1: return (S0 << 4) | (S1 >> 2); default: return (S0 << 6) | S1; } }
#define VF_INV_bd_ENTER ({ gs = 0; gl = 0; S0 = 0; S1 = 0; ENS(VF_INV_bd_OK, "INV base64 decode base"); ii = NDR(0, 1 << 28); io = ND(); rem = ND(); v = ND(); ch = ND(); \
    gs = NDR(0, 1 << 28); gl = NDR(0, 63); S0 = NDR(0, 63); S1 = NDR(0, 63); REQ(ii <= INL); __CPROVER_havoc_object(OUT); REQ(VF_INV_bd_OK); gii = ii; gio = io; })
#define VF_INV_bd_STEP ({ int c_ = IN[ii - 1]; int s_ = spec_val(c_); if(s_ < 0) ENS(c_ == ' ' || (c_ >= 9 && c_ <= 13), "decoding goes on only past white space"); \
    else { if(gs == K) S0 = s_; if(gs == K + 1) S1 = s_; gl = s_; gs++; } ENS(VF_INV_bd_OK, "INV base64 decode step"); })
/* SHA-1: 80 rounds against FIPS 180-4 */
static uint32_t H0, H1, H2, H3, H4, W[16]; static uint32_t F0, F1, F2, F3, F4;
static uint32_t rotl(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
static void spec_round(unsigned t_) {
    uint32_t wt;
    if(t_ < 16) wt = W[t_];
    else { wt = rotl(W[(t_ - 3) % 16] ^ W[(t_ - 8) % 16] ^ W[(t_ - 14) % 16] ^ W[(t_ - 16) % 16], 1); W[t_ % 16] = wt; }
    uint32_t f, k;
    if(t_ < 20) { f = (H1 & H2) | (~H1 & H3); k = 0x5a827999; }
    else if(t_ < 40) { f = H1 ^ H2 ^ H3; k = 0x6ed9eba1; }
    else if(t_ < 60) { f = (H1 & H2) | (H1 & H3) | (H2 & H3); k = 0x8f1bbcdc; }
    else { f = H1 ^ H2 ^ H3; k = 0xca62c1d6; }
    uint32_t T = (f + k) + (rotl(H0, 5) + H4 + wt);
    H4 = H3; H3 = H2; H2 = rotl(H1, 30); H1 = H0; H0 = T;
}
static int wsame(uint32_t *b) { int r = 1; for(int k_ = 0; k_ < 16; ++k_) r &= b[k_] == W[k_]; return r; }
#define VF_INV_sha_OK (i <= 80 && a == H0 && b == H1 && c == H2 && d == H3 && e == H4 && wsame(self->buffer))
static unsigned gt;
#define VF_INV_sha_ENTER ({ ENS(i == 0 && VF_INV_sha_OK, "INV sha1 rounds base"); i = NDR(0, 80); a = ND(); b = ND(); c = ND(); d = ND(); e = ND(); t = ND(); \
    for(int k_ = 0; k_ < 16; ++k_) self->buffer[k_] = W[k_] = (uint32_t)ND(); H0 = a; H1 = b; H2 = c; H3 = d; H4 = e; gt = i; })
#define VF_INV_sha_STEP ({ spec_round(gt); ENS(i == gt + 1 && VF_INV_sha_OK, "INV sha1 rounds step"); })
#endif

#include "utils.c"
#undef isspace

void ints(void) {
    uint8_t m[24], c[24]; for(int i = 0; i < 24; ++i) c[i] = m[i] = (uint8_t)ND();
    size_t at = NDR(0, 8); uint64_t x = ND(); int k = (int)NDR(0, 2), n = 2 << k;
    uint64_t back, before = k == 0 ? dill_gets(m + at) : k == 1 ? dill_getl(m + at) : dill_getll(m + at);
    for(int i = 0; i < 24; ++i) ENS(m[i] == c[i], "reading changes nothing");
    uint64_t spec = 0; for(int i = 0; i < n; ++i) spec = (spec << 8) | c[at + i];
    ENS(before == spec, "read most significant byte first");
    if(k == 0) { dill_puts(m + at, (uint16_t)x); x = (uint16_t)x; back = dill_gets(m + at); }
    else if(k == 1) { dill_putl(m + at, (uint32_t)x); x = (uint32_t)x; back = dill_getl(m + at); }
    else { dill_putll(m + at, x); back = dill_getll(m + at); }
    for(int i = 0; i < n; ++i) ENS(m[at + i] == (uint8_t)(x >> (8 * (n - 1 - i))), "written most significant byte first");
    for(size_t i = 0; i < 24; ++i) if(i < at || i >= at + n) ENS(m[i] == c[i], "no neighbouring byte is touched");
    ENS(back == x, "read back as the same value");
    REACH("ints");
}
#ifdef VF_UNB
void b64enc(void) {
    INL = NDR(0, 1 << 28); OUTL = NDR(0, 1 << 30);
    IN = malloc(INL); OUT = malloc(OUTL); REQ(IN && OUT);
    w = NDR(0, 1 << 30);
    int rc = dill_base64_encode(IN, INL, OUT, OUTL);
    size_t need = (INL + 2) / 3 * 4;
    ENS(rc == (OUTL > need ? (int)need : -1), "succeeds exactly if the encoding and its terminator fit");
    if(rc >= 0) {
        size_t data = INL / 3 * 4 + (INL % 3 ? INL % 3 + 1 : 0);
        if(w < need) ENS(OUT[w] == (w < data ? enc_at(w) : '='), "every character is the one RFC 4648 gives");
        ENS(OUT[need] == 0, "the encoding is terminated");
        REACH("b64enc");
    } else REACH("b64enc short");
}
void b64dec(void) {
    INL = NDR(0, 1 << 28); OUTL = NDR(0, 1 << 30);
    IN = malloc(INL); OUT = malloc(OUTL); REQ(IN && OUT);
    w = NDR(0, 1 << 30); K = w / 3 * 4 + w % 3;
    int rc = dill_base64_decode((char*)IN, INL, (uint8_t*)OUT, OUTL);
    size_t full = gs / 4 * 3 + (gs % 4 ? gs % 4 - 1 : 0);
    if(rc >= 0) {
        ENS(gii == INL || (spec_val(IN[gii]) < 0 && !(IN[gii] == ' ' || (IN[gii] >= 9 && IN[gii] <= 13))), "decoding stops only at the end or at a foreign character");
        ENS((size_t)rc == full, "as many bytes as there are complete groups of bits");
        if(w < full) ENS((uint8_t)OUT[w] == dec_at(), "every byte is the one RFC 4648 gives");
        REACH("b64dec");
    } else {
        ENS(rc == -1 && gii < INL && spec_val(IN[gii]) >= 0 && (gs + 1) / 4 * 3 + ((gs + 1) % 4 ? (gs + 1) % 4 - 1 : 0) > OUTL, "refused exactly if the result does not fit");
        REACH("b64dec short");
    }
}
/* One step of dill_sha1_add from any state. */
void sha_add(void) {
    struct dill_sha1 s, o; VF_HAVOC(&s, sizeof(s)); s.buffer_offset = NDR(0, 63); s.is_little_endian = 1; o = s;
    uint8_t data = (uint8_t)ND();
    for(int k = 0; k < 16; ++k) W[k] = o.buffer[k];
    int p = o.buffer_offset; W[p / 4] = (W[p / 4] & ~(0xffu << (24 - 8 * (p % 4)))) | ((uint32_t)data << (24 - 8 * (p % 4)));
    H0 = o.state[0]; H1 = o.state[1]; H2 = o.state[2]; H3 = o.state[3]; H4 = o.state[4];
    dill_sha1_add(&s, data);
    ENS(s.bytes_hashed == o.bytes_hashed && s.is_little_endian == 1, "the rest of the state is kept");
    if(p < 63) {
        ENS(wsame(s.buffer) && s.buffer_offset == p + 1, "the byte goes to its big-endian place in the block");
        for(int k = 0; k < 5; ++k) ENS(s.state[k] == o.state[k], "an incomplete block is not hashed");
        REACH("sha_add partial");
    } else {
        ENS(gt == 80, "80 rounds");
        ENS(s.state[0] == o.state[0] + H0 && s.state[1] == o.state[1] + H1 && s.state[2] == o.state[2] + H2 && s.state[3] == o.state[3] + H3 && s.state[4] == o.state[4] + H4, "the rounds are added to the state");
        ENS(s.buffer_offset == 0, "a new block begins");
        REACH("sha_add block");
    }
}
#endif
/* Padding and framing, over the contract of dill_sha1_add (a byte is appended). */
static uint64_t nadd; static uint32_t posn; static uint8_t LOG[96];
void vf_sha_add(struct dill_sha1 *self, uint8_t data) {
    ENS(nadd < 96, "padding is finite");
    LOG[nadd++] = data; self->buffer_offset = (self->buffer_offset + 1) % 64;
}
void sha_frame(void) {
    struct dill_sha1 s; VF_HAVOC(&s, sizeof(s));
    dill_sha1_init(&s);
    ENS(s.state[0] == 0x67452301 && s.state[1] == 0xefcdab89 && s.state[2] == 0x98badcfe && s.state[3] == 0x10325476 && s.state[4] == 0xc3d2e1f0, "initial hash value of FIPS 180-4");
    ENS(s.bytes_hashed == 0 && s.buffer_offset == 0 && s.is_little_endian == 1, "empty message");
    /* any message so far */
    VF_HAVOC(&s, sizeof(s)); s.is_little_endian = 1; REQ(s.buffer_offset == s.bytes_hashed % 64);
    uint32_t n = s.bytes_hashed; nadd = 0;
    if(VF_BOOL()) {
        uint8_t x = (uint8_t)ND(); REQ(n < UINT32_MAX);
        dill_sha1_hashbyte(&s, x);
        ENS(nadd == 1 && LOG[0] == x && s.bytes_hashed == n + 1 && s.buffer_offset == s.bytes_hashed % 64, "every byte is appended and counted once");
        REACH("hashbyte");
    } else {
        uint32_t o[5]; memcpy(o, s.state, sizeof(o));
        uint8_t *r = dill_sha1_result(&s);
        uint64_t bits = (uint64_t)n * 8;
        ENS((n + nadd) % 64 == 0 && nadd >= 9 && nadd < 64 + 9, "padded to whole blocks by the shortest padding");
        ENS(LOG[0] == 0x80, "padding starts with a one bit");
        for(uint64_t k = 1; k < 96; ++k) if(k + 8 < nadd) ENS(LOG[k] == 0, "zeros in between");
        for(int k = 0; k < 8; ++k) ENS(LOG[nadd - 8 + k] == (uint8_t)(bits >> (56 - 8 * k)), "the length in bits ends the padding");
        for(int k = 0; k < 20; ++k) ENS(r[k] == (uint8_t)(o[k / 4] >> (24 - 8 * (k % 4))), "the digest is the big-endian state");
        REACH("result");
    }
}
/* ---- stand-ins ---- */
#ifndef VF_UNB
void b64enc_b(void) {
    uint8_t in[7]; size_t n = NDR(0, 6), cap = NDR(0, 10); IN = in; INL = n;
    char *o = malloc(VF_NATIVE ? (cap ? cap : 1) : 11), guard = 0; REQ(o);
    uint8_t *src = malloc(VF_NATIVE ? (n ? n : 1) : 7); REQ(src);
    for(int i = 0; i < 7; ++i) in[i] = (uint8_t)ND();
    for(size_t i = 0; i < 7; ++i) if(i < n || !VF_NATIVE) src[i] = in[i];
    for(size_t i = 0; i < 11; ++i) if(!VF_NATIVE) o[i] = 0x5a;
    int rc = dill_base64_encode(src, n, o, cap);
    size_t need = (n + 2) / 3 * 4, data = n / 3 * 4 + (n % 3 ? n % 3 + 1 : 0);
    ENS(rc == (cap > need ? (int)need : -1), "succeeds exactly if the encoding and its terminator fit");
    for(size_t i = 0; i < 11; ++i) if(!VF_NATIVE && i >= cap) ENS(o[i] == 0x5a, "nothing beyond the capacity");
    if(rc >= 0) { for(size_t i = 0; i < 10; ++i) if(i < need) ENS(o[i] == (i < data ? enc_at(i) : '='), "every character is the one RFC 4648 gives");
        ENS(o[need] == 0, "the encoding is terminated"); }
    REACH("b64enc_b"); (void)guard;
}
void b64dec_b(void) {
    uint8_t in[7]; size_t n = NDR(0, 6), cap = NDR(0, 5);
    uint8_t *src = malloc(VF_NATIVE ? (n ? n : 1) : 7), *o = malloc(VF_NATIVE ? (cap ? cap : 1) : 6); REQ(o && src);
    for(int i = 0; i < 7; ++i) { in[i] = (uint8_t)ND(); if(VF_NATIVE && !vf_vals && in[i] & 3) in[i] = spec_char(in[i] >> 2); }
    for(size_t i = 0; i < 7; ++i) if(i < n || !VF_NATIVE) src[i] = in[i];
    for(size_t i = 0; i < 6; ++i) if(!VF_NATIVE) o[i] = 0x5a;
    int rc = dill_base64_decode((char*)src, n, o, cap);
    uint8_t exp[6]; size_t s = 0; uint64_t acc = 0; int stop = 0;
    for(size_t i = 0; i < 7; ++i) if(i < n && !stop) { int c = in[i]; if(c == ' ' || (c >= 9 && c <= 13)) continue; if(spec_val(c) < 0) { stop = 1; continue; } acc = (acc << 6) | spec_val(c); s++; }
    size_t full = s * 6 / 8; acc <<= (48 - 6 * s);
    ENS(rc == (full <= cap ? (int)full : -1), "refused exactly if the result does not fit");
    for(size_t i = 0; i < 6; ++i) { if(!VF_NATIVE && i >= cap) ENS(o[i] == 0x5a, "nothing beyond the capacity"); if(rc >= 0 && i < full) ENS(o[i] == (uint8_t)(acc >> (40 - 8 * i)), "every byte is the one RFC 4648 gives"); }
    REACH("b64dec_b"); (void)exp;
}
/* complete hash of a message of up to 140 bytes (native search only) */
static uint32_t rl(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
void sha_b(void) {
    static uint8_t msg[256]; size_t n = NDR(0, 140);
    struct dill_sha1 s; dill_sha1_init(&s);
    for(size_t i = 0; i < n; ++i) { msg[i] = (uint8_t)ND(); dill_sha1_hashbyte(&s, msg[i]); }
    uint8_t *r = dill_sha1_result(&s);
    uint32_t h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
    size_t t = n; msg[t++] = 0x80; while(t % 64 != 56) msg[t++] = 0;
    for(int k = 0; k < 8; ++k) msg[t++] = (uint8_t)((uint64_t)n * 8 >> (56 - 8 * k));
    for(size_t b = 0; b < t; b += 64) {
        uint32_t w_[80];
        for(int k = 0; k < 16; ++k) w_[k] = msg[b + 4 * k] << 24 | msg[b + 4 * k + 1] << 16 | msg[b + 4 * k + 2] << 8 | msg[b + 4 * k + 3];
        for(int k = 16; k < 80; ++k) w_[k] = rl(w_[k - 3] ^ w_[k - 8] ^ w_[k - 14] ^ w_[k - 16], 1);
        uint32_t A = h[0], B = h[1], C = h[2], D = h[3], E = h[4];
        for(int k = 0; k < 80; ++k) {
            uint32_t f = k < 20 ? (B & C) | (~B & D) : k < 40 || k >= 60 ? B ^ C ^ D : (B & C) | (B & D) | (C & D);
            uint32_t T = rl(A, 5) + f + E + w_[k] + (k < 20 ? 0x5a827999 : k < 40 ? 0x6ed9eba1 : k < 60 ? 0x8f1bbcdc : 0xca62c1d6);
            E = D; D = C; C = rl(B, 30); B = A; A = T;
        }
        h[0] += A; h[1] += B; h[2] += C; h[3] += D; h[4] += E;
    }
    for(int k = 0; k < 20; ++k) ENS(r[k] == (uint8_t)(h[k / 4] >> (24 - 8 * (k % 4))), "the digest is SHA-1 of the message");
    REACH("sha_b");
}
#endif
#include "vf_native.h"
