/* C07: contracts on term.c over the message-socket contract of the underlying
   socket (dill_msend.., dill_mrecv..).

   VF_UNB: caller's lists of any number of elements; dill_ioltrim and dill_iolto
   by their contracts (proved in C03).  Otherwise the real iol.c runs, over the
   lists term.c builds itself (no bound) or caller's lists of at most NE elements. */
#include "vf.h"
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
#include "iol.h"
#undef errno
extern int errno;
#undef errno
#define errno (*__errno_location())
#ifndef NE
#define NE 2
#endif
#define ML 8                  /* bytes of a message in the bounded checks */
static int64_t DL; static int gerr, gfail;
static int any_errno(void) { switch(NDR(0, 3)) { case 0: return EPIPE; case 1: return ECONNRESET; case 2: return ETIMEDOUT; default: return ECANCELED; } }
static int failing(void) { if(VF_BOOL()) { gfail++; errno = gerr = any_errno(); return 1; } return 0; }

static uint8_t T[32], H[32]; static size_t TN;      /* terminator, head of the incoming message */
static size_t MSZ;                                  /* size of the incoming message */
static struct dill_iolist *L, *FIRST, *LAST; static size_t N, TOTAL; static int nolist;
static int sent, terms, taken, isterm; static size_t wd, wm;
static int direct, tail, head, plain;
#define MAXN ((size_t)1 << 20)
#ifdef VF_UNB
static size_t *LN, *PS, *BS, w, gi; static char *POOL;
#define BASE(i) (BS[i] ? (void*)(POOL + BS[i]) : NULL)
static struct dill_iolist *nxt(size_t i) { return i + 1 < N ? &L[i + 1] : NULL; }
static int node_is(size_t i) { return L[i].iol_next == nxt(i) && L[i].iol_len == LN[i] && L[i].iol_base == BASE(i) && L[i].iol_rsvd == 0; }
#define FACT(i) do { if((i) < N) { REQ(PS[(i) + 1] == PS[i] + LN[i] && PS[i + 1] >= PS[i] && PS[(i) + 1] <= TOTAL); REQ(node_is(i)); } } while(0)
/* contracts proved in C03 */
int dill_ioltrim(struct dill_iolist *f, size_t n, struct dill_iolist *r) {
    ENS(f == FIRST && n > 0, "the caller's list is trimmed");
    if(n > TOTAL) return -1;
    gi = NDR(0, MAXN); REQ(gi < N); FACT(gi); REQ(PS[gi] < n && n <= PS[gi + 1]);
    r->iol_base = BS[gi] ? POOL + BS[gi] + (n - PS[gi]) : NULL; r->iol_len = PS[gi + 1] - n; r->iol_next = nxt(gi); r->iol_rsvd = 0;
    return 0;
}
int dill_iolto(const void *s, size_t n, struct dill_iolist *f) {
    ENS(f == FIRST, "the message goes to the caller's buffers");
    ENS(n == (MSZ < TN ? MSZ : TN), "the bytes read ahead, all of them");
    if(wm < n) ENS(((const uint8_t*)s)[wm] == H[wm], "the bytes of the message");
    if(n > TOTAL) return -1;
    head = 1; return 0;
}
static ssize_t u_mrecv(struct dill_iolist *f, struct dill_iolist *l) {
    size_t cap;
    if(f == FIRST) { ENS(l == LAST, "the list of the caller"); ENS(node_is(w), "the list of the caller"); cap = TOTAL; direct = 1; }
    else {
        ENS(f && f->iol_len == TN && f->iol_base && f->iol_rsvd == 0, "room for the terminator");
        struct dill_iolist *t = f->iol_next; cap = TN;
        if(t) {
            ENS(t->iol_len == PS[gi + 1] - TN && t->iol_next == nxt(gi) && t->iol_rsvd == 0 && t->iol_base == (BS[gi] ? POOL + BS[gi] + (TN - PS[gi]) : NULL) && TN <= TOTAL, "the rest of the message goes to its place in the caller's buffers");
            ENS(l == (t->iol_next ? LAST : t), "well-formed list"); if(w > gi) ENS(node_is(w), "list intact");
            cap = TOTAL; tail = 1;
        } else ENS(l == f, "well-formed list");
        for(int j = 0; j < 32; ++j) if(j < TN && j < MSZ) ((uint8_t*)f->iol_base)[j] = H[j];
    }
    if(MSZ > cap) { gfail++; errno = gerr = EMSGSIZE; return -1; }
    return MSZ;
}
#else
static struct dill_iolist LL[NE]; static size_t LN[NE], PS[NE + 1]; static void *BS[NE];
static uint8_t A[NE * 4 + 4];
static int node_is(size_t i) { return L[i].iol_next == (i + 1 < N ? &L[i + 1] : NULL) && L[i].iol_len == LN[i] && L[i].iol_base == BS[i] && L[i].iol_rsvd == 0; }
#define iolist dill_iolist
#include "iol.c"
#undef iolist
static ssize_t u_mrecv(struct dill_iolist *f, struct dill_iolist *l) {
    size_t cap = 0, pos = 0; int c = 0; struct dill_iolist *x;
    ENS(!f == !l, "well-formed list");
    if(!f) return MSZ;
    for(x = f; x && c < NE + 3; x = x->iol_next, ++c) {
        ENS(x->iol_rsvd == 0 && (x->iol_next || x == l), "well-formed list");
        size_t n = x->iol_len; if(n > SIZE_MAX - cap) n = SIZE_MAX - cap; cap += n;
    }
    ENS(!x, "well-formed list");
    for(c = 0, x = f; x && c < NE + 3; x = x->iol_next, ++c) {
        size_t n = x->iol_len < MSZ - pos ? x->iol_len : MSZ - pos;
        if(x->iol_base) for(size_t j = 0; j < 32; ++j) if(j < n) { ENS(pos + j < 32, "nothing else is stored"); ((uint8_t*)x->iol_base)[j] = H[pos + j]; }
        pos += n;
    }
    if(MSZ > cap) { gfail++; errno = gerr = EMSGSIZE; return -1; }
    return MSZ;
}
#endif
/* The message socket underneath: one whole message per call, or a failure. */
ssize_t dill_mrecvl(int s, struct dill_iolist *f, struct dill_iolist *l, int64_t dl) {
    ENS(s == 7 && dl == DL, "underlying socket, deadline passed on");
    ENS(!taken || (nolist == 2 && !isterm && !gfail), "one message at a time, nothing is read after the terminator"); taken = 1;
    if(failing()) return -1;
    if(VF_NATIVE && !vf_vals && NDR(0, 1)) { for(int i = 0; i < 32; ++i) H[i] = T[i]; MSZ = TN; }
    isterm = MSZ == TN; for(int i = 0; i < 32; ++i) if(i < TN && H[i] != T[i]) isterm = 0;
    return u_mrecv(f, l);
}
ssize_t dill_mrecv(int s, void *b, size_t n, int64_t dl) { struct dill_iolist x = {b, n, NULL, 0}; return dill_mrecvl(s, &x, &x, dl); }
int dill_msendl(int s, struct dill_iolist *f, struct dill_iolist *l, int64_t dl) {
    ENS(s == 7 && dl == DL, "underlying socket, deadline passed on");
    if(nolist != 2) { ENS(f == FIRST && l == LAST, "the caller's message is passed on"); sent++; }
    else {
        ENS(f && f == l && !f->iol_next && f->iol_len == TN && (TN == 0 || ((uint8_t*)f->iol_base)[wd] == T[wd]), "exactly the terminator is sent"); terms++;
    }
    return failing() ? -1 : 0;
}
int dill_msend(int s, const void *b, size_t n, int64_t dl) { struct dill_iolist x = {(void*)b, n, NULL, 0}; return dill_msendl(s, &x, &x, dl); }

/* handles: C01 */
static int hclosed, uclosed; static void *selfp; static int badh;
int dill_hown(int h) { ENS(0, "not used by this contract"); return -1; }
int dill_hmake(struct dill_hvfs *v) { ENS(0, "not used by this contract"); return -1; }
static const void *TT;
void *dill_hquery(int h, const void *t) { ENS(h == 9 && t == TT, "the handle is asked for a terminator socket"); if(badh) { errno = badh; return NULL; } return selfp; }
int dill_hclose(int h) {
    errno = any_errno();
    if(h == 7) { uclosed++; return 0; }
    ENS(h == 9 && !hclosed, "closed once"); hclosed++;
    struct dill_hvfs *v = selfp; v->close(v); return 0;
}
static char mst; const void *dill_msock_type = &mst;
static size_t gdet;
#define VF_INV_det_ENTER ({ err = (int)ND(); ENS(self->outdone == 1 && self->indone == 0, "INV term detach base"); gdet = ND(); taken = 0; })
#define VF_INV_det_STEP ({ ENS(self->outdone == 1 && self->indone == 0 && taken && !isterm && !gfail && !hclosed && MSZ <= SSIZE_MAX, "INV term detach step"); })
#include "term.c"

static struct dill_term_sock self; static int IN0, OUT0;
static void setup(size_t tn) {
    DL = ND(); selfp = &self; TT = dill_term_type;
    TN = tn; for(int i = 0; i < 32; ++i) T[i] = i < TN ? (uint8_t)NDR(0, 255) : 0;
    for(int i = 0; i < 32; ++i) H[i] = (uint8_t)NDR(0, 255);
    wd = NDR(0, 31); REQ(wd < TN || (TN == 0 && wd == 0)); wm = NDR(0, 31);
    if(nolist == 0) {
#ifdef VF_UNB
    MSZ = NDR(0, SSIZE_MAX);
    N = NDR(1, MAXN); w = NDR(0, MAXN); REQ(w < N);
    L = malloc(N * sizeof(*L)); LN = malloc(N * sizeof(size_t)); PS = malloc((N + 1) * sizeof(size_t)); BS = malloc(N * sizeof(size_t)); POOL = malloc((size_t)1 << 40);
    REQ(L && LN && PS && BS && POOL);
    TOTAL = PS[N]; REQ(PS[0] == 0); FACT(0); FACT(w); FACT(N - 1);
#else
    MSZ = NDR(0, ML);
    L = LL; TOTAL = 0;
    for(size_t i = 0; i < NE; ++i) if(i < N) { LN[i] = NDR(0, 4); BS[i] = VF_BOOL() ? A + TOTAL : NULL; PS[i] = TOTAL; TOTAL += LN[i]; L[i].iol_base = BS[i]; L[i].iol_len = LN[i]; L[i].iol_next = i + 1 < N ? &L[i + 1] : NULL; L[i].iol_rsvd = 0; }
    for(int i = 0; i < sizeof A; ++i) A[i] = 0xee;
#endif
    FIRST = L; LAST = &L[N - 1];
    } else { MSZ = NDR(0, SSIZE_MAX); FIRST = LAST = NULL; TOTAL = SIZE_MAX; }
    self.hvfs.query = dill_term_hquery; self.hvfs.close = dill_term_hclose;
    self.mvfs.msendl = dill_term_msendl; self.mvfs.mrecvl = dill_term_mrecvl;
    self.u = 7; self.len = TN; memcpy(self.buf, T, 32); self.mem = 1;
    self.indone = IN0 = VF_BOOL(); self.outdone = OUT0 = VF_BOOL();
    errno = 0;
}
static void intact(void) {
    if(!nolist) {
#ifdef VF_UNB
    ENS(node_is(w), "the caller's list is left as it was");
#else
    for(size_t i = 0; i < NE; ++i) if(i < N) ENS(node_is(i), "the caller's list is left as it was");
#endif
    }
    ENS(self.u == 7 && self.len == TN && (TN == 0 || self.buf[wd] == T[wd]) && self.mem == 1, "nothing else changes");
}
static void recv_case(size_t tn) {
    setup(tn);
    ssize_t rc = self.mvfs.mrecvl(&self.mvfs, FIRST, LAST, DL);
    int e = errno;
    intact(); ENS(self.outdone == OUT0, "the other direction is not affected");
    if(IN0) { ENS(rc == -1 && e == EPIPE && self.indone && !taken, "after the terminator, the end is reported forever"); REACH("recv after end"); return; }
    ENS(taken, "a message is received");
    if(gfail) { ENS(rc == -1 && e == gerr && !self.indone, "a failure is reported"); REACH("recv failed"); return; }
    if(isterm) { ENS(rc == -1 && e == EPIPE && self.indone, "the terminator is the end"); REACH("recv end"); return; }
    ENS(!self.indone, "only the terminator is the end");
    if(rc < 0) { ENS(rc == -1 && e == EMSGSIZE && MSZ > TOTAL, "only a message that doesn't fit is refused"); REACH("recv too big"); return; }
    ENS((size_t)rc == MSZ && MSZ <= TOTAL, "the message is received whole");
    if(!nolist) {
#ifdef VF_UNB
    ENS(direct || (head && (MSZ <= TN || tail)), "the message is delivered");
#else
    size_t pos = 0;
    for(int i = 0; i < NE; ++i) if(i < N) for(int j = 0; j < 4; ++j) {
        if(j < LN[i]) { if(BS[i] && pos < MSZ) ENS(A[pos] == H[pos], "the bytes of the message"); if(pos >= MSZ || !BS[i]) ENS(A[pos] == 0xee, "nothing else is written"); pos++; }
    }
    for(int j = 0; j < sizeof A; ++j) if(j >= TOTAL) ENS(A[j] == 0xee, "nothing is written outside the buffers");
#endif
    }
    REACH("recv done");
}
static void send_case(size_t tn) {
    setup(tn);
    int rc = self.mvfs.msendl(&self.mvfs, FIRST, LAST, DL);
    intact(); ENS(self.indone == IN0 && self.outdone == OUT0, "nothing else changes");
    if(OUT0) { ENS(rc == -1 && errno == EPIPE && !sent, "nothing is sent after done"); REACH("send after done"); return; }
    ENS(sent == 1 && rc == (gfail ? -1 : 0) && (!gfail || errno == gerr), "the message is sent once"); REACH("send");
}
static void done_case(size_t tn) {
    nolist = 2; setup(tn); badh = VF_BOOL() ? EBADF : 0;
    int rc = dill_term_done(9, DL);
    int e = errno; intact(); ENS(!hclosed && !uclosed && self.indone == IN0, "nothing else changes");
    if(badh) { ENS(rc == -1 && e == badh && !terms, "not a terminator socket"); REACH("done bad handle"); return; }
    if(OUT0) { ENS(rc == -1 && e == EPIPE && !terms, "done only once"); REACH("done twice"); return; }
    ENS(terms == 1, "the terminator is sent once");
    if(gfail) { ENS(rc == -1 && e == gerr && !self.outdone, "failure reported"); REACH("done failed"); return; }
    ENS(rc == 0 && self.outdone, "this direction is finished"); REACH("done");
}
static void detach_case(size_t tn) {
    nolist = 2; setup(tn); badh = VF_BOOL() ? EBADF : 0;
    int rc = dill_term_detach(9, DL);
    int e = errno;
    if(badh) { ENS(rc == -1 && e == badh && !hclosed && !terms && !taken, "not a terminator socket"); REACH("detach bad handle"); return; }
    ENS(hclosed == 1, "the handle is gone");
    ENS(terms == !OUT0, "the terminator is sent unless it already was");
    if(rc >= 0) {
        ENS(rc == 7 && !uclosed && !gfail, "the underlying socket is handed over, open");
        ENS(IN0 ? !taken : taken && isterm, "input is consumed exactly up to the terminator");
        REACH("detach done"); return;
    }
    ENS(rc == -1 && gfail && e == gerr && uclosed == 1, "a failed handshake is reported, the socket closed"); REACH("detach failed");
}
#ifdef VF_UNB
static size_t anyt(void) { return NDR(0, 32); }
void send_u(void) { nolist = 0; send_case(anyt()); }
void recv_u(void) { nolist = 0; recv_case(anyt()); }
#else
void recv_skip_u(void) { nolist = 1; recv_case(NDR(0, 32)); }
void done_u(void) { done_case(NDR(0, 32)); }
void detach_u(void) { detach_case(NDR(0, 32)); }
#ifndef DM
#define DM 3
#endif
#define CASES(f) do { size_t n_ = NDR(1, NE); int d_ = (int)NDR(0, DM); \
    for(int n = 1; n <= NE; ++n) for(int d = 0; d <= DM; ++d) if(n_ == n && d_ == d) { N = n; nolist = 0; f(d); return; } } while(0)
void send_b(void) { CASES(send_case); }
void recv_b(void) { CASES(recv_case); }
#endif
#include "vf_native.h"
