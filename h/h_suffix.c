/* C06: contracts on suffix.c over the byte-stream contract of the underlying
   socket.  S is the (arbitrary) incoming stream; user buffers are consecutive
   pieces of the arena A (the code never compares addresses of buffers).

   VF_UNB: streams, lists and messages of any length (to 2^30).
   Otherwise: streams of SL bytes, delimiters of at most DM bytes, lists of at
   most NE elements. */
#include "vf.h"
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
#ifndef NE
#define NE 2
#endif
#ifndef SL
#define SL 8
#endif
static int64_t DL; static int gerr, gfail;
static int any_errno(void) { switch(NDR(0, 3)) { case 0: return EPIPE; case 1: return ECONNRESET; case 2: return ETIMEDOUT; default: return ECANCELED; } }
static int failing(void) { if(VF_BOOL()) { gfail++; errno = gerr = any_errno(); return 1; } return 0; }
static uint8_t D[32]; static size_t DN;       /* the delimiter */
static uint8_t *S; static size_t pos;         /* incoming stream */
static uint8_t *A;                            /* arena of user buffers */
static struct dill_iolist *L, *FIRST, *LAST; static size_t N, TOTAL; static int nolist;
static struct dill_bsock_vfs UV;
static size_t osuf, obody; static size_t wd;      /* delimiter bytes sent; witness */
static size_t m, q;                           /* witnesses: earlier match, byte of the arena */
static uint8_t Q0; static int reads;
#ifdef VF_UNB
#define MAXN ((size_t)1 << 30)
static size_t *LN, *PS, w, eq; static uint8_t *NUL;
#define BASE(i) (NUL[i] ? NULL : (void*)(A + PS[i]))
static int node_is(size_t i) { return L[i].iol_next == (i + 1 < N ? &L[i + 1] : NULL) && L[i].iol_len == LN[i] && L[i].iol_base == BASE(i) && L[i].iol_rsvd == 0; }
#define FACT(i) do { if((i) < N) { REQ(PS[(i) + 1] == PS[i] + LN[i] && PS[i + 1] >= PS[i] && PS[(i) + 1] <= TOTAL); REQ(node_is(i)); } } while(0)
static size_t gi, go;
#else
static struct dill_iolist LL[NE]; static size_t LN[NE]; static void *BS[NE]; static size_t PS[NE + 1];
static int node_is(size_t i) { return L[i].iol_next == (i + 1 < N ? &L[i + 1] : NULL) && L[i].iol_len == LN[i] && L[i].iol_base == BS[i] && L[i].iol_rsvd == 0; }
static size_t ik, io;
#endif
#ifdef VF_UNB
/* The stream is arbitrary; what the argument needs of it is the window
   W = S[K..K+32], whether there is a delimiter at m, and byte q. */
static size_t K; static uint8_t W[33], SQ; static int MM;
static int wmatch(void) { for(int j = 0; j < 32; ++j) if(j < DN && W[j] != D[j]) return 0; return 1; }
static void tie(void) { if(m == K) REQ(MM == wmatch()); if(q == K) REQ(SQ == W[0]); }
static void slide(void) { for(int j = 0; j < 32; ++j) W[j] = W[j + 1]; W[32] = (uint8_t)ND(); K++; tie(); }
static int match(size_t k) { ENS(k == K, "the stream is read up to here"); return wmatch(); }
#define SAT(x) SQ
#else
#define SAT(x) S[x]
static int match(size_t k) { for(int j = 0; j < 32; ++j) if(j < DN && S[k + j] != D[j]) return 0; return 1; }
#endif
/* what byte x of the arena must be after k bytes were delivered */
static int isnul(size_t x) {
    if(nolist) return 1;
#ifdef VF_UNB
    return NUL[eq];
#else
    for(size_t i = 0; i < NE; ++i) if(i < N && x >= PS[i] && x < PS[i] + LN[i]) return BS[i] == NULL;
    return 1;
#endif
}
static int arena_ok(size_t k) { return A[q] == (q < k && q < TOTAL && !isnul(q) ? SAT(q) : Q0); }

#ifdef VF_UNB
static int vf_memcmp(const void *a, const void *b, size_t n) { ENS(n <= 32, "compare within the buffers"); for(int j = 0; j < 32; ++j) if(j < n && ((uint8_t*)a)[j] != ((uint8_t*)b)[j]) return 1; return 0; }
static void *vf_memmove(void *d, const void *s, size_t n) { uint8_t t[32]; ENS(n <= 32, "move within the buffers"); for(int j = 0; j < 32; ++j) if(j < n) t[j] = ((uint8_t*)s)[j]; for(int j = 0; j < 32; ++j) if(j < n) ((uint8_t*)d)[j] = t[j]; return d; }
static int it_is(struct dill_iolist *it, size_t k) {
    if(nolist) return it->iol_base == NULL && it->iol_len == SIZE_MAX - k && it->iol_next == NULL;
    return gi < N && go <= LN[gi] && PS[gi] + go == k && it->iol_next == (gi + 1 < N ? &L[gi + 1] : NULL) && it->iol_len == LN[gi] - go && it->iol_base == (NUL[gi] ? NULL : (void*)(A + PS[gi] + go));
}
static void it_any(struct dill_iolist *it, size_t k) {
    it->iol_rsvd = 0;
    if(nolist) { it->iol_base = NULL; it->iol_len = SIZE_MAX - k; it->iol_next = NULL; return; }
    gi = NDR(0, MAXN); REQ(gi < N); FACT(gi); FACT(gi + 1); REQ(PS[gi] <= k); go = k - PS[gi]; REQ(go <= LN[gi]);
    if(eq < N) FACT(eq); if(gi > eq) REQ(PS[gi] >= PS[eq + 1]); if(gi < eq) REQ(PS[gi + 1] <= PS[eq]);
    it->iol_next = gi + 1 < N ? &L[gi + 1] : NULL; it->iol_len = LN[gi] - go; it->iol_base = NUL[gi] ? NULL : (void*)(A + PS[gi] + go);
}
static int bufis(const uint8_t *b) { for(int j = 0; j < 32; ++j) if(j < DN && b[j] != W[j]) return 0; return 1; }
static int nomatch(size_t k) { return !(m < k) || !MM; }
#define IOLOK (iol.iol_base == self->buf + (DN - 1) && iol.iol_len == 1 && !iol.iol_next && iol.iol_rsvd == 0)
#define VF_INV_main_ENTER ({ gi = go = 0; ENS(IOLOK && sz == 0 && pos == DN && bufis(self->buf) && it_is(&it, 0) && arena_ok(0), "INV suffix base"); \
    K = NDR(0, MAXN); REQ(nolist || K <= TOTAL); sz = K; pos = K + DN; VF_HAVOC(self->buf, 32); VF_HAVOC(W, 33); tie(); REQ(bufis(self->buf)); it_any(&it, K); __CPROVER_havoc_object(A); REQ(arena_ok(K)); REQ(nomatch(K)); reads = 0; })
#define VF_INV_main_STEP ({ slide(); if(!nolist) go = K - PS[gi]; ENS(IOLOK && sz == K && pos == K + DN && bufis(self->buf) && it_is(&it, K) && arena_ok(K) && nomatch(K), "INV suffix step"); })
#define VF_INV_skip_ENTER ({ ENS(it_is(&it, K), "INV suffix skip base"); it_any(&it, K); })
#define VF_INV_skip_STEP ({ gi++; FACT(gi); go = 0; ENS(it_is(&it, K), "INV suffix skip step"); })
#endif

static int u_bsendl(struct dill_bsock_vfs *v, struct dill_iolist *f, struct dill_iolist *l, int64_t dl) {
    ENS(v == &UV && dl == DL, "underlying socket, deadline passed on");
    ENS(f && l && !l->iol_next && l->iol_rsvd == 0, "well-formed list");
#ifdef VF_UNB
    ENS(f == (nolist ? l : L), "message goes first");
    if(!nolist) { ENS(l != LAST && LAST->iol_next == l && LAST->iol_len == LN[N - 1] && LAST->iol_base == BASE(N - 1) && LAST->iol_rsvd == 0, "followed by the delimiter"); ENS(w == N - 1 || node_is(w), "message is the supplied list"); }
    ENS(l->iol_len == DN && ((uint8_t*)l->iol_base)[wd] == D[wd], "delimiter is sent"); osuf = DN; obody = TOTAL;
#else
    int c = 0;
    for(; f && c < NE + 2; f = f->iol_next, ++c) {
        ENS(f->iol_next || f == l, "well-formed list");
        size_t n = f->iol_len; uint8_t *b = f->iol_base;
        for(int j = 0; j < NE + 1; ++j) {
            while(ik < N && io == LN[ik]) { ik++; io = 0; }
            if(n == 0 || ik >= N) break;
            ENS(b == (uint8_t*)BS[ik] + io, "bytes of the message in order");
            size_t x = n < LN[ik] - io ? n : LN[ik] - io;
            io += x; n -= x; b += x; obody += x;
        }
        if(n) { ENS(obody == TOTAL && n <= DN - osuf, "delimiter follows the message"); if(wd >= osuf && wd < osuf + n) ENS(b[wd - osuf] == D[wd], "delimiter is sent"); osuf += n; }
    }
#endif
    return failing() ? -1 : 0;
}
static int u_brecvl(struct dill_bsock_vfs *v, struct dill_iolist *f, struct dill_iolist *l, int64_t dl) {
    ENS(v == &UV && dl == DL, "underlying socket, deadline passed on");
    ENS(f && f == l && !l->iol_next && l->iol_rsvd == 0 && f->iol_base, "well-formed list");
    size_t n = f->iol_len; uint8_t *b = f->iol_base;
#ifdef VF_UNB
    ENS(reads == 0 && n <= 32, "one read at a time"); reads++;
    ENS(pos == K || (pos == K + DN && n == 1), "the stream is read sequentially");
    if(pos == K) { for(int j = 0; j < 32; ++j) if(j < n) b[j] = W[j]; }
    else b[0] = W[DN];
    pos += n;
#else
    /* reading on is only right while no delimiter was seen */
    for(size_t j = 0; j < 32; ++j) if(j < n) {
        if(pos >= DN) ENS(!match(pos - DN), "nothing is read past the delimiter");
        if(pos == SL) { gfail++; errno = gerr = EPIPE; return -1; }
        b[j] = S[pos++];
    }
#endif
    return failing() ? -1 : 0;
}
int dill_hown(int h) { ENS(0, "not used by this contract"); return -1; }
int dill_hclose(int h) { ENS(0, "not used by this contract"); return -1; }
int dill_hmake(struct dill_hvfs *v) { ENS(0, "not used by this contract"); return -1; }
void *dill_hquery(int h, const void *t) { ENS(0, "not used by this contract"); return NULL; }
int dill_bsendl(int s, struct dill_iolist *f, struct dill_iolist *l, int64_t dl) { ENS(s == 7, "underlying socket"); return u_bsendl(&UV, f, l, dl); }
int dill_bsend(int s, const void *b, size_t n, int64_t dl) { struct dill_iolist x = {(void*)b, n, NULL, 0}; return dill_bsendl(s, &x, &x, dl); }
int dill_brecvl(int s, struct dill_iolist *f, struct dill_iolist *l, int64_t dl) { ENS(s == 7, "underlying socket"); return u_brecvl(&UV, f, l, dl); }
int dill_brecv(int s, void *b, size_t n, int64_t dl) { struct dill_iolist x = {b, n, NULL, 0}; return dill_brecvl(s, &x, &x, dl); }

#ifdef VF_UNB
#define memcmp vf_memcmp
#define memmove vf_memmove
#endif
#include "suffix.c"
#undef memcmp
#undef memmove

static struct dill_suffix_sock self; static int IN0, OUT0;
static void setup(size_t dn, size_t n) {
    DL = ND(); UV.bsendl = u_bsendl; UV.brecvl = u_brecvl;
    DN = dn; for(int i = 0; i < 32; ++i) if(i < DN) D[i] = (uint8_t)NDR(0, 255);
    wd = NDR(0, 31); REQ(wd < DN);
#ifdef VF_UNB
    size_t cap = NDR(MAXN + 64, MAXN + 128); A = malloc(cap); K = 0; VF_HAVOC(W, 33); SQ = (uint8_t)ND(); MM = VF_BOOL();
    N = NDR(1, MAXN); w = NDR(0, MAXN); eq = NDR(0, MAXN); REQ(w < N && eq < N);
    L = malloc(N * sizeof(*L)); LN = malloc(N * sizeof(size_t)); PS = malloc((N + 1) * sizeof(size_t)); NUL = malloc(N);
    REQ(A && L && LN && PS && NUL);
    TOTAL = PS[N]; REQ(PS[0] == 0 && TOTAL <= MAXN); FACT(0); FACT(1); FACT(w); FACT(N - 1); FACT(eq);
    LAST = &L[N - 1]; FIRST = L;
    q = NDR(0, MAXN); m = NDR(0, MAXN);
    tie();
    REQ(q >= TOTAL || (PS[eq] <= q && q < PS[eq + 1]));
#else
    static uint8_t s[SL + 32], a[SL + 8]; S = s; A = a; for(int i = 0; i < SL; ++i) s[i] = VF_NATIVE && !vf_vals && NDR(0, 3) ? D[NDR(0, DN - 1)] : (uint8_t)NDR(0, 255);
    L = LL; N = n; TOTAL = 0;
    for(size_t i = 0; i < NE; ++i) if(i < N) { LN[i] = NDR(0, 4); BS[i] = VF_BOOL() ? A + TOTAL : NULL; PS[i] = TOTAL; TOTAL += LN[i]; L[i].iol_base = BS[i]; L[i].iol_len = LN[i]; L[i].iol_next = i + 1 < N ? &L[i + 1] : NULL; L[i].iol_rsvd = 0; }
    FIRST = N ? L : NULL; LAST = N ? &L[N - 1] : NULL;
    q = NDR(0, SL + 7);
    for(int i = 0; i < SL + 8; ++i) a[i] = 0xee;
#endif
    if(nolist) { FIRST = LAST = NULL; TOTAL = 0; }
    Q0 = A[q];
    self.u = 7; self.uvfs = &UV; memcpy(self.suffix, D, 32); self.suffixlen = DN; self.mem = VF_BOOL();
    IN0 = self.inerr = VF_BOOL(); OUT0 = self.outerr = VF_BOOL();
    self.mvfs.msendl = dill_suffix_msendl; self.mvfs.mrecvl = dill_suffix_mrecvl;
}
static void intact(void) {
    if(!nolist) {
#ifdef VF_UNB
    ENS(node_is(w), "the caller's list is left as it was");
#else
    for(size_t i = 0; i < NE; ++i) if(i < N) ENS(node_is(i), "the caller's list is left as it was");
#endif
    }
    ENS(self.u == 7 && self.uvfs == &UV && self.suffixlen == DN && self.suffix[wd] == D[wd], "nothing else changes");
}
static void send_case(size_t dn, size_t n) {
    setup(dn, n);
#ifndef VF_UNB
    for(size_t i = 0; i < NE; ++i) if(i < N) REQ(BS[i]);
#endif
    errno = 0;
    int rc = self.mvfs.msendl(&self.mvfs, FIRST, LAST, DL);
    intact(); ENS(self.inerr == IN0, "the other direction is not affected");
    if(OUT0) { ENS(rc == -1 && errno == ECONNRESET && osuf == 0 && obody == 0 && self.outerr, "a broken direction stays broken"); REACH("send broken"); return; }
    if(gfail) { ENS(rc == -1 && errno == gerr && self.outerr, "a failed send is reported and final"); REACH("send failed"); return; }
    ENS(rc == 0 && !self.outerr, "send succeeds");
    ENS(obody == TOTAL && osuf == DN, "the message and the delimiter are sent");
    REACH("send done");
}
static void recv_case(size_t dn, size_t n) {
    setup(dn, n);
    errno = 0;
    ssize_t rc = self.mvfs.mrecvl(&self.mvfs, FIRST, LAST, DL);
    intact(); ENS(self.outerr == OUT0, "the other direction is not affected");
    if(IN0) { ENS(rc == -1 && errno == ECONNRESET && pos == 0 && self.inerr, "a broken direction stays broken"); REACH("recv broken"); return; }
    if(gfail) { ENS(rc == -1 && errno == gerr && self.inerr, "a failed receive is reported and final"); REACH("recv failed"); return; }
    size_t k = pos - DN;
    if(rc < 0) {
        ENS(rc == -1 && errno == EMSGSIZE && self.inerr, "failure is reported and final");
        ENS(pos >= DN && !nolist && k == TOTAL && !match(k), "only a message that doesn't fit is refused");
        ENS(arena_ok(k), "nothing outside the buffers is written");
        REACH("recv too big"); return;
    }
    ENS(pos >= DN && match(k), "reads up to the end of a delimiter");
#ifdef VF_UNB
    ENS(nomatch(k), "the first delimiter");
#else
    for(int j = 0; j < SL; ++j) if(j < k) ENS(!match(j), "the first delimiter");
#endif
    ENS((size_t)rc == k, "returns the length of the message");
    ENS(arena_ok(k), "delivers exactly the bytes of the message and writes nothing else");
    ENS(!self.inerr, "receive succeeds");
    REACH("recv done");
}
#ifdef VF_UNB
static size_t anyd(void) { return NDR(1, 32); }
void send_u(void) { nolist = VF_BOOL(); send_case(anyd(), 0); }
void recv_u(void) { nolist = 0; recv_case(anyd(), 0); }
void recv_skip_u(void) { nolist = 1; recv_case(anyd(), 0); }
#else
#ifndef DM
#define DM 3
#endif
#define CASES(f) do { size_t n_ = NDR(0, NE); int d_ = (int)NDR(1, DM); \
    for(int n = 0; n <= NE; ++n) for(int d = 1; d <= DM; ++d) if(n_ == n && d_ == d) { nolist = n == 0; f(d, n); return; } } while(0)
void send_b(void) { CASES(send_case); }
void recv_b(void) { CASES(recv_case); }
#endif
#include "vf_native.h"
