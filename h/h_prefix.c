/* C05: contracts on prefix.c over the byte-stream contract of the underlying
   socket (dill_bsend/dill_bsendl/dill_brecv/dill_brecvl).

   Message bodies are never materialised: they are lists of (address, length)
   segments, and "the right bytes" is "the right segments in the right order".
   Header bytes are real.

   VF_UNB: lists and headers of any length.  Otherwise: at most NE list
   elements, headers of at most HM bytes, elements of any size. */
#include "vf.h"
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
#undef errno
extern int errno;
#undef errno
#define errno (*__errno_location())
#ifndef NE
#define NE 2
#endif
#ifndef HM
#define HM 9
#endif
static int U; static int64_t DL; static int gerr, gfail; static size_t HL; static int BE;
static int any_errno(void) { switch(NDR(0, 3)) { case 0: return EPIPE; case 1: return ECONNRESET; case 2: return ETIMEDOUT; default: return ECANCELED; } }
static int failing(void) { if(VF_BOOL()) { gfail++; errno = gerr = any_errno(); return 1; } return 0; }

/* The list under test: N elements, lengths LN, bases BS. */
static struct dill_iolist *L; static size_t N; static int nolist;
static struct dill_iolist *FIRST, *LAST;
static size_t TOTAL;          /* sum of lengths */
static size_t opos;           /* header bytes sent */
static uint8_t hb; static size_t wh;   /* witness header byte (counted from the least significant one) */
static int obody, hbad;
static size_t ipos;           /* header bytes received */
static uint8_t *IH;           /* header bytes of the incoming message */
static uint64_t VAL; static int OVF;   /* value of the incoming header: Horner */
static size_t got; static int ibody;

#ifdef VF_UNB
static size_t *LN, *BS, w; static char *POOL;
#define BASE(i) (BS[i] ? (void*)(POOL + BS[i]) : NULL)
static struct dill_iolist *nxt(size_t i) { return i + 1 < N ? &L[i + 1] : NULL; }
static int node_is(size_t i) { return L[i].iol_next == nxt(i) && L[i].iol_len == LN[i] && L[i].iol_base == BASE(i) && L[i].iol_rsvd == 0; }
static size_t gi, gS, *PS;
#define FACT(i) do { if((i) < N) { REQ(PS[(i) + 1] == PS[i] + LN[i] && PS[i + 1] >= PS[i] && PS[(i) + 1] <= TOTAL); REQ(node_is(i)); } } while(0)
#define AT(i) ((i) < N ? &L[i] : NULL)
static size_t hi; 
#define BYTE(v, k) ((k) < 8 ? (uint8_t)((v) >> (8 * ((k) & 7))) : 0)
#define SHR(v, k) ((k) < 8 ? (v) >> (8 * ((k) & 7)) : 0)
#define IDX(k) (BE ? HL - 1 - (k) : (k))
#define VF_INV_sum_ENTER ({ ENS(it == FIRST && sz == 0, "INV prefix sum base"); gi = NDR(0, 1 << 24); if(nolist) { REQ(gi == 0); } else { REQ(gi <= N); it = AT(gi); sz = PS[gi]; FACT(gi); } })
#define VF_INV_sum_STEP ({ gi++; ENS(gi <= N && it == AT(gi) && sz == PS[gi], "INV prefix sum step"); })
#define VF_INV_hdr_ENTER ({ ENS(i == 0 && sz == TOTAL, "INV prefix header base"); __CPROVER_havoc_object(szbuf); hi = NDR(0, 1 << 24); REQ(hi <= HL); i = (int)hi; sz = SHR(TOTAL, hi); REQ(!(wh < hi) || szbuf[IDX(wh)] == BYTE(TOTAL, wh)); })
#define VF_INV_hdr_STEP ({ hi++; ENS(hi <= HL && i == (int)hi && sz == SHR(TOTAL, hi) && (!(wh < hi) || szbuf[IDX(wh)] == BYTE(TOTAL, wh)), "INV prefix header step"); })
#define IB(k) IH[BE ? (k) : HL - 1 - (k)]
#define VF_INV_rh_ENTER ({ ENS(i == 0 && sz == 0 && ipos == HL, "INV prefix receive header base"); hi = NDR(0, 1 << 24); REQ(hi <= HL); i = (int)hi; VAL = hi ? ND() : 0; OVF = 0; sz = VAL; if(hi < HL) { size_t x_ = BE ? hi : HL - 1 - hi; REQ(szbuf[x_] == IH[x_]); } })
#define VF_INV_rh_STEP ({ OVF = VAL >> 56 != 0; VAL = (VAL << 8) | IB(hi); hi++; ENS(hi <= HL && i == (int)hi && sz == VAL && !OVF, "INV prefix receive header step"); })
#define VF_INV_tr_ENTER ({ ENS(it == FIRST && rmn == VAL, "INV prefix trim base"); gi = NDR(0, 1 << 24); REQ(gi < N); it = AT(gi); FACT(gi); FACT(0); if(w != gi) FACT(w); REQ(gi == 0 ? PS[gi] == 0 : PS[gi] < VAL); REQ(!(w < gi) || PS[w + 1] <= PS[gi]); rmn = VAL - PS[gi]; })
#define VF_INV_tr_STEP ({ gi++; ENS(gi < N && it == AT(gi) && PS[gi] < VAL && rmn == VAL - PS[gi], "INV prefix trim step"); })
#else
static struct dill_iolist LL[NE]; static size_t LN[NE]; static void *BS[NE];
static size_t ik, io;         /* element and offset where the next byte of the body belongs */
static int node_is(size_t i) { return L[i].iol_next == (i + 1 < N ? &L[i + 1] : NULL) && L[i].iol_len == LN[i] && L[i].iol_base == BS[i] && L[i].iol_rsvd == 0; }
#endif

static void out_hdr(const uint8_t *b, size_t len) {
    ENS(len <= HL - opos, "header has exactly the configured size");
    size_t at = BE ? HL - 1 - wh : wh;
    if(at >= opos && at < opos + len) hb = b[at - opos];
    opos += len;
}
#ifndef VF_UNB
/* segment of the body in either direction */
static void seg(const void *b, size_t n) {
    for(int j = 0; j < NE; ++j) {
        while(ik < N && io == LN[ik]) { ik++; io = 0; }
        if(n == 0) return;
        ENS(ik < N, "no more bytes than the supplied buffers");
        if(ik >= N) return;
        ENS(BS[ik] ? b == (char*)BS[ik] + io : b == NULL, "bytes of the message are in their place");
        size_t c = n < LN[ik] - io ? n : LN[ik] - io;
        io += c; n -= c; if(b) b = (const char*)b + c; got += c;
    }
    ENS(n == 0, "a segment stays within one buffer");
}
static void wellformed(struct dill_iolist *f, struct dill_iolist *l) {
    int c = 0; struct dill_iolist *x;
    if(!f && !l) return;
    ENS(f && l && !l->iol_next, "well-formed list");
    for(x = f; x && c < NE + 2; x = x->iol_next) { ENS(x->iol_rsvd == 0, "clean list"); c++; if(!x->iol_next) ENS(x == l, "the last element is the last one"); }
    ENS(!x, "well-formed list");
}
#endif
int dill_bsendl(int s, struct dill_iolist *f, struct dill_iolist *l, int64_t dl) {
    ENS(s == U && dl == DL, "underlying socket, deadline passed on");
    ENS(f && l, "something is sent");
#ifdef VF_UNB
    for(int k = 0; k < 2 && f && f != L; ++k) {
        ENS(!obody, "header goes first"); if(f->iol_len) out_hdr(f->iol_base, f->iol_len);
        if(!f->iol_next) ENS(f == l, "well-formed list");
        f = f->iol_next;
    }
    if(f) { ENS(f == L && opos == HL && !obody && l == LAST, "the body follows the header"); ENS(node_is(w), "the body is the list supplied"); obody = 1; }
#else
    wellformed(f, l);
    for(; f; f = f->iol_next) { if(opos < HL) { if(f->iol_len) out_hdr(f->iol_base, f->iol_len); } else seg(f->iol_base, f->iol_len); }
#endif
    return failing() ? -1 : 0;
}
int dill_bsend(int s, const void *b, size_t n, int64_t dl) {
    struct dill_iolist x = {(void*)b, n, NULL, 0};
    return dill_bsendl(s, &x, &x, dl);
}
static void in_seg(void *b, size_t n) {
    if(ipos < HL) {
        ENS(b != NULL && n <= HL - ipos, "header is read first, and nothing but the header");
#ifdef VF_UNB
        ENS(ipos == 0 && n == HL, "header is read at once"); ipos = n;
#else
        for(size_t j = 0; j < HM; ++j) if(j < n) ((uint8_t*)b)[j] = IH[ipos + j];
        ipos += n;
#endif
        return;
    }
#ifndef VF_UNB
    if(n == 0) return;
    ENS(!OVF && n <= VAL - got, "no more bytes are read than the message has");
    if(nolist) { ENS(b == NULL, "message is skipped"); got += n; return; }
    seg(b, n);
#endif
}
int dill_brecvl(int s, struct dill_iolist *f, struct dill_iolist *l, int64_t dl) {
    ENS(s == U && dl == DL, "underlying socket, deadline passed on");
#ifdef VF_UNB
    if(f == L) {
        ENS(ipos == HL && !OVF && !ibody, "body is read after the header, once");
        ENS(l == &L[gi] && l->iol_next == NULL && l->iol_rsvd == 0 && l->iol_base == BASE(gi) && l->iol_len <= LN[gi], "list is cut at its last element");
        ENS(PS[gi] + l->iol_len == VAL, "exactly the message is read");
        ENS(!(w < gi) || node_is(w), "buffers before the last one are complete");
        got = VAL; ibody = 1;
    } else { ENS(f == l && f->iol_next == NULL, "header buffer");
        if(ipos < HL) in_seg(f->iol_base, f->iol_len); else { ENS(nolist && f->iol_base == NULL && got == 0 && f->iol_len == VAL && !OVF, "message is skipped"); got = VAL; ibody = 1; } }
#else
    wellformed(f, l);
    for(; f; f = f->iol_next) in_seg(f->iol_base, f->iol_len);
#endif
    return failing() ? -1 : 0;
}
int dill_brecv(int s, void *b, size_t n, int64_t dl) {
    struct dill_iolist x = {b, n, NULL, 0};
    return dill_brecvl(s, &x, &x, dl);
}
/* handle layer: see C20 */
int dill_hown(int h) { ENS(0, "not used by this contract"); return -1; }
int dill_hclose(int h) { ENS(0, "not used by this contract"); return -1; }
int dill_hmake(struct dill_hvfs *v) { ENS(0, "not used by this contract"); return -1; }
void *dill_hquery(int h, const void *t) { ENS(0, "not used by this contract"); return NULL; }

#include "prefix.c"

static struct dill_prefix_sock self;
static void setup(int hl) {
    U = (int)NDR(0, 1000); DL = ND();
#ifdef VF_UNB
    HL = NDR(1, 1 << 20); IH = malloc(HL); REQ(IH);
    N = NDR(1, 1 << 20);
    L = malloc(N * sizeof(*L)); LN = malloc(N * sizeof(size_t)); BS = malloc(N * sizeof(size_t)); PS = malloc((N + 1) * sizeof(size_t)); POOL = malloc((size_t)1 << 40);
    REQ(L && LN && BS && PS && POOL);
    w = NDR(0, 1 << 20); REQ(w < N);
    TOTAL = PS[N]; REQ(PS[0] == 0 && TOTAL >= PS[N - 1]); FACT(0); FACT(w); FACT(N - 1);
    LAST = &L[N - 1];
#else
    static uint8_t ih[HM]; IH = ih; HL = hl; for(int i = 0; i < HM; ++i) ih[i] = (uint8_t)NDR(0, 255);
    L = LL; N = nolist ? 0 : N; TOTAL = 0;
    static char pool[NE][16];
    for(size_t i = 0; i < NE; ++i) if(i < N) { LN[i] = ND(); BS[i] = pool[i]; REQ(LN[i] <= SIZE_MAX - TOTAL); TOTAL += LN[i]; L[i].iol_base = BS[i]; L[i].iol_len = LN[i]; L[i].iol_next = i + 1 < N ? &L[i + 1] : NULL; L[i].iol_rsvd = 0; }
    LAST = N ? &L[N - 1] : NULL;
    /* value of the incoming header, by definition */
    VAL = 0; OVF = 0;
    if(VF_NATIVE) { if(VF_BOOL()) for(int i = 0; i < HM; ++i) if((BE ? HL - 1 - i : i) < HL && i >= 1 && !NDR(0, 1)) IH[BE ? HL - 1 - i : i] = 0; }
    for(size_t i = 0; i < HM; ++i) if(i < HL) { if(VAL >> 56) OVF = 1; VAL = (VAL << 8) | IH[BE ? i : HL - 1 - i]; }
#endif
    FIRST = L; if(nolist) { FIRST = LAST = NULL; TOTAL = 0; }
    self.u = U; self.hdrlen = HL; self.bigendian = BE; self.mem = VF_BOOL();
    self.inerr = VF_BOOL(); self.outerr = VF_BOOL();
    self.mvfs.msendl = dill_prefix_msendl; self.mvfs.mrecvl = dill_prefix_mrecvl;
}
static void intact(void) {
#ifdef VF_UNB
    ENS(node_is(w), "the caller's list is left as it was");
#else
    for(size_t i = 0; i < NE; ++i) if(i < N) ENS(node_is(i), "the caller's list is left as it was");
#endif
}
static void send_case(int hl) {
    wh = NDR(0, 1 << 20);
    setup(hl); REQ(wh < HL);
    int in0 = self.inerr, out0 = self.outerr;
    errno = 0;
    int rc = self.mvfs.msendl(&self.mvfs, FIRST, LAST, DL);
    int fits = HL >= 8 || (TOTAL >> (8 * (HL & 7))) == 0;
    ENS(self.inerr == in0 && self.u == U && self.hdrlen == HL && self.bigendian == BE, "nothing else changes");
    intact();
    if(out0) { ENS(rc == -1 && errno == ECONNRESET && opos == 0 && self.outerr, "a broken direction stays broken"); REACH("send broken"); return; }
    if(!fits) { ENS(rc == -1 && errno == EMSGSIZE && opos == 0, "a size that doesn't fit the header is refused, nothing is sent"); ENS(self.outerr, "failure is final"); REACH("send too big"); return; }
    if(gfail) { ENS(rc == -1 && errno == gerr && self.outerr, "a failed send is reported and final"); REACH("send failed"); return; }
    ENS(rc == 0 && !self.outerr, "send succeeds");
    ENS(opos == HL, "a complete header is sent");
    ENS(hb == (wh < 8 ? (uint8_t)(TOTAL >> (8 * (wh & 7))) : 0), "the header is the length, in the configured byte order");
#ifdef VF_UNB
    ENS(obody || nolist, "the body is sent");
#else
    ENS(got == TOTAL, "the body is sent");
#endif
    REACH("send done");
}
static void recv_case(int hl) {
    setup(hl);
    int in0 = self.inerr, out0 = self.outerr;
    errno = 0;
    ssize_t rc = self.mvfs.mrecvl(&self.mvfs, FIRST, LAST, DL);
    ENS(self.outerr == out0 && self.u == U && self.hdrlen == HL && self.bigendian == BE, "nothing else changes");
    if(!nolist) intact();
    if(in0) { ENS(rc == -1 && errno == ECONNRESET && ipos == 0 && self.inerr, "a broken direction stays broken"); REACH("recv broken"); return; }
    if(gfail) { ENS(rc == -1 && errno == gerr && self.inerr, "a failed receive is reported and final"); REACH("recv failed"); return; }
    if(rc < 0) {
        ENS(rc == -1 && errno == EMSGSIZE && self.inerr, "failure is reported and final");
#ifdef VF_UNB
        /* the header loop may have been left at any overflowing prefix */
        ENS(VAL >> 56 || VAL > SSIZE_MAX || (!nolist && PS[gi] + LN[gi] < VAL && gi == N - 1), "only a message that doesn't fit is refused");
#else
        ENS(OVF || VAL > SSIZE_MAX || (!nolist && VAL > TOTAL), "only a message that doesn't fit is refused");
#endif
        REACH("recv too big"); return;
    }
    ENS(ipos == HL && !OVF && VAL <= SSIZE_MAX && (uint64_t)rc == VAL, "returns the exact length of the message");
    ENS(got == VAL, "the message is read to its end, the stream is left at the next header");
    ENS(!self.inerr, "receive succeeds");
    REACH("recv done");
}
#ifdef VF_UNB
void send_u(void) { BE = VF_BOOL(); nolist = VF_BOOL(); send_case(0); }
void recv_u(void) { BE = VF_BOOL(); nolist = 0; recv_case(0); }
void recv_skip_u(void) { BE = VF_BOOL(); nolist = 1; recv_case(0); }
#else
#define CASES(f) do { size_t n_ = NDR(0, NE); int h_ = (int)NDR(0, 2); BE = VF_BOOL(); \
    for(int n = 0; n <= NE; ++n) for(int h = 0; h < 3; ++h) if(n_ == n && h_ == h) { N = n; nolist = n == 0; f(h == 0 ? 1 : h == 1 ? 2 : HM); return; } } while(0)
void send_b(void) { CASES(send_case); }
void recv_b(void) { CASES(recv_case); }
#endif
#include "vf_native.h"
