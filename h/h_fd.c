/* C04 (and the buffer part of C17): contracts on fd.c.

   Transfers are observed at the system-call boundary.  The stream is a ghost
   counter: byte number p of the stream is identified with its position, so
   "the right bytes in the right place" is: the pointers and lengths handed to
   the kernel (or to memcpy) are exactly those of stream position p. */
#include "vf.h"
#define DILL_DISABLE_RAW_NAMES
#include "libdill.h"
#include "ctx.h"
#ifndef DILL_THREADS
struct dill_ctx dill_ctx_ = {1};
struct dill_ctx *dill_ctx_init(void) { return &dill_ctx_; }
#endif

static int S; static int64_t DL;
static int gerr, gwaits, geof;      /* last error reported by a dependency */
static int any_errno(void) {
    switch(NDR(0, 6)) { case 0: return EPIPE; case 1: return ECONNRESET; case 2: return ENOTCONN; case 3: return ENOBUFS; case 4: return EFAULT; case 5: return EBADF; default: return ENOMEM; }
}
static char *POOL; static size_t POOLSZ;

#ifdef VF_UNB
/* ---------------- dill_fd_send / dill_fd_recv_: any number of elements ---- */
static size_t N, *LN, *BS, *PS, w; static struct iovec *IOV; static size_t sent;
#define B(i) ((void*)(POOL + BS[i]))
#define FACT(i) do { if((i) < N) { REQ(PS[(i) + 1] == PS[i] + LN[i]); REQ(PS[(i) + 1] <= PS[N] && PS[i] <= PS[N]); REQ(BS[i] <= POOLSZ && LN[i] <= POOLSZ - BS[i]); } } while(0)
static int orig(size_t i) { return IOV[i].iov_base == B(i) && IOV[i].iov_len == LN[i]; }
static size_t vk(struct msghdr *h) { return h->msg_iov - IOV; }
static int posok(struct msghdr *h, size_t left) {
    if(!__CPROVER_same_object(h->msg_iov, IOV)) return 0;
    size_t k = vk(h);
    if(k > N || h->msg_iovlen != N - k) return 0;
    if(k == N) return PS[N] + left == sent;
    return IOV[k].iov_len <= LN[k] && IOV[k].iov_base == (char*)B(k) + (LN[k] - IOV[k].iov_len) && PS[k] + (LN[k] - IOV[k].iov_len) + left == sent &&
        (w <= k || orig(w));
}
static void setpos(struct msghdr *h) { size_t k = NDR(0, 1 << 20); REQ(k <= N); h->msg_iov = IOV + k; h->msg_iovlen = N - k; }
static void facts(struct msghdr *h) { size_t k = vk(h); FACT(k); FACT(k + 1); if(k + 1 < N) REQ(orig(k + 1)); if(k + 2 < N) REQ(orig(k + 2)); }
#define ENTER_(left, what) ({ ENS(posok(&hdr, left), "INV " what " base"); __CPROVER_havoc_object(IOV); setpos(&hdr); sent = ND(); REQ(sent <= PS[N]); facts(&hdr); })
#define VF_INV_s0_ENTER ({ ENTER_(0, "send"); REQ(posok(&hdr, 0)); })
#define VF_INV_s0_STEP ({ ENS(posok(&hdr, 0), "INV send step"); })
#define VF_INV_r0_ENTER ({ ENTER_(0, "recv"); REQ(posok(&hdr, 0) && hdr.msg_iovlen > 0); })
#define VF_INV_r0_STEP ({ ENS(posok(&hdr, 0) && hdr.msg_iovlen > 0, "INV recv step"); })
#define VF_INV_s1_ENTER ({ size_t sent_ = sent; ENTER_(0, "send skip"); REQ(sent == sent_ && posok(&hdr, 0)); })
#define VF_INV_s1_STEP ({ ENS(posok(&hdr, 0), "INV send skip step"); })
#define VF_INV_s2_ENTER ({ size_t sent_ = sent; ENS(sz >= 0, "INV send adjust base"); ENTER_(sz, "send adjust"); sz = ND(); REQ(sz >= 0 && sent == sent_ && posok(&hdr, sz) && hdr.msg_iovlen > 0); })
#define VF_INV_s2_STEP ({ ENS(sz >= 0 && posok(&hdr, sz) && hdr.msg_iovlen > 0, "INV send adjust step"); })
static struct dill_iolist L0;
int dill_iolcheck(struct dill_iolist *first, struct dill_iolist *last, size_t *nbufs, size_t *nbytes) {
    ENS(first == &L0 && last == &L0 && nbufs, "the list is checked");
    if(VF_BOOL()) { errno = gerr = EINVAL; return -1; }
    *nbufs = N; return 0;
}
void dill_ioltoiov(struct dill_iolist *first, struct iovec *iov) {
    ENS(first == &L0, "the list is converted");
    IOV = iov; FACT(0); if(N > 0) REQ(orig(0)); if(N > 1) REQ(orig(1)); if(w < N) REQ(orig(w));
}
static ssize_t xfer(int s, const struct msghdr *h, int recv) {
    ENS(s == S, "the right descriptor");
    ENS(h->msg_name == NULL && h->msg_namelen == 0 && h->msg_control == NULL && h->msg_controllen == 0, "plain stream transfer");
    ENS(posok((struct msghdr*)h, 0) && h->msg_iovlen > 0, "the kernel gets exactly the buffers not transferred yet");
    if(VF_BOOL()) { errno = gerr = VF_BOOL() ? EAGAIN : any_errno(); return -1; }
    if(recv && VF_BOOL()) { geof = 1; return 0; }
    ssize_t n = ND(); REQ(n > 0 && (size_t)n <= PS[N] - sent);
    sent += n; return n;
}
static ssize_t vf_sendmsg(int s, const struct msghdr *h, int flags) { ENS(flags == MSG_NOSIGNAL, "no SIGPIPE"); return xfer(s, h, 0); }
static ssize_t vf_recvmsg(int s, struct msghdr *h, int flags) { return xfer(s, h, 1); }
int dill_fdout(int s, int64_t deadline) { ENS(s == S && deadline == DL, "waits for the descriptor up to the deadline"); if(VF_BOOL()) { errno = gerr = VF_BOOL() ? ETIMEDOUT : ECANCELED; return -1; } return 0; }
int dill_fdin(int s, int64_t deadline) { return dill_fdout(s, deadline); }
#define sendmsg vf_sendmsg
#define recvmsg vf_recvmsg
#endif

#ifdef VF_SKIP
static ssize_t skipped, SK0; static int skerr;
int vf_recv_c(int s, struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
    ENS(s == S && deadline == DL && first == last && first->iol_next == NULL && first->iol_rsvd == 0, "a single buffer");
    ENS(first->iol_len > 0 && (SK0 < 0 || (ssize_t)first->iol_len <= SK0 - skipped), "never reads past the bytes to skip");
    uint8_t *b = first->iol_base; b[0] = b[first->iol_len - 1] = 0;
    if(VF_BOOL()) { skerr = errno = any_errno(); return -1; }
    skipped += first->iol_len; return 0;
}
#define VF_INV_sk_ENTER ({ ENS(len == SK0 && skipped == 0, "INV skip base"); len = ND(); skipped = ND(); REQ(skipped >= 0 && skipped < ((ssize_t)1 << 61)); REQ(SK0 < 0 ? len == SK0 : len >= 0 && len == SK0 - skipped); })
#define VF_INV_sk_STEP ({ ENS(SK0 < 0 ? len == SK0 : len >= 0 && len == SK0 - skipped, "INV skip step"); })
#endif

#ifdef VF_RECV
/* ---------------- dill_fd_recv ------------------------------------------ */
#ifndef NE
#define NE 3
#endif
#ifndef STEPS
#define STEPS 4
#endif
static struct dill_iolist nd[NE], cp[NE]; static int cnt; static size_t PSX[NE + 1], total;
static struct dill_fd_rxbuf *RX, rxb; static size_t KP, C0; static uint8_t *mybuf; static int steps, frees, allocs;
#ifdef VF_CUTRX
#define MAXL ((size_t)1 << 40)
#else
#define MAXL 2100
#endif
static size_t filled(void) { return KP - (RX ? RX->len - RX->pos : 0) - C0; }
/* Element that holds position p; p < total. */
static int elem(size_t p) { for(int i = 0; i < NE; ++i) if(i < cnt && p < PSX[i + 1]) return i; return NE; }
static void *vf_memcpy(void *d, const void *s, size_t n) {
    size_t p = filled(); int k = elem(p);
    if(n == 0) return d;
    ENS(RX && RX->buf && (const uint8_t*)s == RX->buf + RX->pos && n <= RX->len - RX->pos, "copies the next bytes read ahead");
    ENS(k < NE && nd[k].iol_base == cp[k].iol_base && cp[k].iol_base && d == (char*)cp[k].iol_base + (p - PSX[k]) && n <= PSX[k + 1] - p, "copies to the place of these bytes");
    return d;
}
/* [b,b+n) is where the next bytes of the request belong */
static void place(const void *b, size_t n, size_t p) {
    int k = elem(p);
    ENS(k < NE && n <= PSX[k + 1] - p, "reads no more than what belongs to the element");
    if(k >= NE) return;
    if(cp[k].iol_base) ENS(b == (char*)cp[k].iol_base + (p - PSX[k]), "bytes go to their place");
    else { for(int j = 0; j < NE; ++j) if(j < cnt && cp[j].iol_base) ENS(!((char*)b >= (char*)cp[j].iol_base && (char*)b < (char*)cp[j].iol_base + cp[j].iol_len) , "skipped bytes are not stored"); }
}
static int kernel(void) { /* 0 data, -1 error, 1 eof */
    if(steps++ >= STEPS) { errno = gerr = ECONNRESET; return -1; }
    switch(NDR(0, 3)) { case 0: errno = gerr = EAGAIN; return -1; case 1: errno = gerr = any_errno(); return -1; case 2: geof = 1; return 1; default: return 0; }
}
static ssize_t vf_recv(int s, void *buf, size_t len, int flags) {
    ENS(s == S && flags == 0, "the right descriptor");
    ENS(RX && RX->buf == buf && buf == mybuf && len <= 1984, "reads ahead into the receive buffer");
    ENS(RX->len == RX->pos, "nothing read ahead is overwritten");
    ENS(filled() < total, "reads only if bytes are missing");
    int e = kernel(); if(e) return e < 0 ? -1 : 0;
    size_t n = NDR(1, 1984); REQ(n <= len);
    KP += n; RX->len = RX->pos + n;  /* the caller sets len=n,pos=0: same amount */
    return n;
}
static ssize_t vf_recvmsg(int s, struct msghdr *h, int flags) {
    ENS(s == S && flags == 0, "the right descriptor");
    ENS(!RX || RX->len == RX->pos, "bytes read ahead come first");
    size_t p = filled(), room = 0;
    for(int i = 0; i < NE; ++i) if((size_t)i < h->msg_iovlen) { place(h->msg_iov[i].iov_base, h->msg_iov[i].iov_len, p + room); room += h->msg_iov[i].iov_len; }
    int e = kernel(); if(e) return e < 0 ? -1 : 0;
    size_t n = NDR(1, 4096 * NE); REQ(n <= room);
    KP += n; return n;
}
static int after_recv_error;
/* contracts of the two helpers, proved in units recv_ and skip */
int vf_recv_c(int s, struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
    ENS(s == S && deadline == DL, "descriptor and deadline are passed on");
    ENS(!RX || RX->len == RX->pos, "bytes read ahead come first");
    size_t p = filled(); struct dill_iolist *it = first; int ok = 0;
    for(int i = 0; i < NE + 1; ++i) {
        ENS(it != NULL && it->iol_rsvd == 0 && it->iol_base && it->iol_len, "only real buffers");
        if(!it) break;
        place(it->iol_base, it->iol_len, p); p += it->iol_len;
        if(it == last) { ok = it->iol_next == NULL; break; }
        it = it->iol_next;
    }
    ENS(ok, "a well-formed list");
    if(VF_BOOL()) { size_t part = ND(); REQ(part < p - filled()); KP += part; errno = gerr = any_errno(); after_recv_error = 1; return -1; }
    KP += p - filled(); return 0;
}
int vf_skip_c(int s, ssize_t len, int64_t deadline) {
    ENS(s == S && deadline == DL, "descriptor and deadline are passed on");
    ENS(len < 0 || !RX || RX->len == RX->pos, "bytes read ahead come first");
    if(len < 0) { errno = gerr = any_errno(); return -1; }
    size_t p = filled(); int k = elem(p);
    ENS(len == 0 || (k < NE && !cp[k].iol_base && (size_t)len <= PSX[k + 1] - p), "skips only what is to be discarded");
    if(VF_BOOL()) { size_t part = ND(); REQ(part < (size_t)len); KP += part; errno = gerr = any_errno(); after_recv_error = 1; return -1; }
    KP += len; return 0;
}
int dill_fdin(int s, int64_t deadline) { ENS(s == S && deadline == DL, "waits for the descriptor up to the deadline"); ENS(filled() < total, "waits only if bytes are missing");
    if(VF_BOOL()) { errno = gerr = VF_BOOL() ? ETIMEDOUT : ECANCELED; return -1; } return 0; }
int dill_fdout(int s, int64_t deadline) { ENS(0, "no wait for output"); return 0; }
#ifdef VF_CUTRX
static size_t off_of(struct dill_iolist *c, int k) { return cp[k].iol_len - c->iol_len; }
static int rxinv(struct dill_iolist *c) {
    if(!RX || RX->len != RX->pos || RX->len > 1984 || RX->buf != mybuf) return 0;
    size_t p = filled(); if(p >= total) return 0; int k = elem(p);
    return c->iol_len == PSX[k + 1] - p && c->iol_base == (cp[k].iol_base ? (char*)cp[k].iol_base + (p - PSX[k]) : NULL) && c->iol_next == cp[k].iol_next && total - p <= 1984;
}
#define VF_INV_rx_ENTER ({ ENS(rxinv(&curr), "INV rx base"); KP = ND(); mybuf = rxbuf->buf = VF_BOOL() ? (uint8_t*)blk : NULL; rxbuf->len = rxbuf->pos = NDR(0, 1984); \
    curr.iol_base = (void*)(POOL + ND()); curr.iol_len = ND(); int k_ = (int)NDR(0, NE - 1); REQ(k_ < cnt); curr.iol_next = cp[k_].iol_next; if(!cp[k_].iol_base) curr.iol_base = NULL; \
    gerr = (int)ND(); geof = 0; steps = 0; allocs = frees = 0; REQ(KP >= KP0 && KP < ((size_t)1 << 61)); REQ(rxinv(&curr)); })
#define VF_INV_rx_STEP ({ ENS(rxinv(&curr), "INV rx step"); })
static size_t KP0; static uint8_t blk[1984];
static int rxok(void) { return RX->buf == mybuf && (mybuf == NULL || mybuf == blk) && RX->pos <= RX->len && RX->len <= 1984 && (mybuf || RX->len == RX->pos); }
static void anyrx(void) { mybuf = RX->buf = VF_BOOL() ? blk : NULL; RX->len = NDR(0, 1984); RX->pos = NDR(0, 1984); REQ(rxok()); }
static int c0inv(struct dill_iolist *f) { int k = -1; for(int i = 0; i < NE; ++i) if(i < cnt && f == &nd[i]) k = i; return k >= 0 && filled() == PSX[k] && rxok(); }
#define VF_INV_c0_ENTER ({ ENS(c0inv(first), "INV recv copy base"); first = &nd[NDR(0, NE - 1)]; anyrx(); sz = ND(); REQ(c0inv(first)); })
#define VF_INV_c0_STEP ({ ENS(c0inv(first), "INV recv copy step"); })
static int c4inv(struct dill_iolist *c) {
    int k = cnt - 1; if(c->iol_next) { k = -1; for(int i = 0; i < NE - 1; ++i) if(i + 1 < cnt && c->iol_next == &nd[i + 1]) k = i; if(k < 0) return 0; }
    size_t p = filled();
    return p >= PSX[k] && p <= PSX[k + 1] && c->iol_len == PSX[k + 1] - p && c->iol_base == (cp[k].iol_base ? (char*)cp[k].iol_base + (p - PSX[k]) : NULL) && rxok() && total - p <= 1984;
}
#define VF_INV_c4_ENTER ({ ENS(c4inv(&curr), "INV recv fill base"); anyrx(); sz = ND(); int k_ = (int)NDR(0, NE - 1); REQ(k_ < cnt); curr.iol_next = cp[k_].iol_next; curr.iol_len = ND(); curr.iol_base = cp[k_].iol_base ? (void*)(POOL + ND()) : NULL; REQ(c4inv(&curr)); })
#define VF_INV_c4_STEP ({ ENS(c4inv(&curr), "INV recv fill step"); })
#endif
static void *vf_malloc(size_t n) { ENS(n == 1984, "buffer size"); if(VF_BOOL()) return NULL; allocs++;
#ifdef VF_CUTRX
    return mybuf = blk;
#else
    return mybuf = malloc(1984);
#endif
}
static void vf_free(void *p) { frees++; ENS(p == mybuf && mybuf, "only the receive buffer is released"); mybuf = NULL; }
#define malloc vf_malloc
#define free vf_free
#define memcpy vf_memcpy
#define recv vf_recv
#define recvmsg vf_recvmsg
#ifndef VF_CUTRX
int dill_iolcheck(struct dill_iolist *first, struct dill_iolist *last, size_t *nbufs, size_t *nbytes) {
    size_t n = 0; struct dill_iolist *it = first;
    for(int i = 0; i < NE + 1; ++i) { ENS(it != NULL, "a well-formed list"); n++; if(it == last) break; it = it->iol_next; }
    ENS(it == last && !it->iol_next, "a well-formed list"); *nbufs = n; return 0; }
void dill_ioltoiov(struct dill_iolist *first, struct iovec *iov) { while(first) { iov->iov_base = first->iol_base; iov->iov_len = first->iol_len; ++iov; first = first->iol_next; } }
#endif
#endif

#ifdef VF_SENDB
/* ---------------- dill_fd_send, small (stand-in and replay) -------------- */
static struct dill_iolist sl[3]; static int scnt; static size_t sps[4], sent; static char sbuf[3][4]; static int steps;
static ssize_t vf_sendmsg(int s, const struct msghdr *h, int flags) {
    ENS(s == S && flags == MSG_NOSIGNAL, "the right descriptor, no SIGPIPE");
    size_t p = sent, room = 0;
    for(int i = 0; i < 3; ++i) if((size_t)i < h->msg_iovlen) for(int b = 0; b < 4; ++b) if((size_t)b < h->msg_iov[i].iov_len) {
        int k = p < sps[1] ? 0 : p < sps[2] ? 1 : 2;
        ENS(p < sps[3] && (char*)h->msg_iov[i].iov_base + b == sbuf[k] + (p - sps[k]), "the kernel gets exactly the buffers not transferred yet"); p++; }
    ENS(p == sps[3], "the kernel gets exactly the buffers not transferred yet");
    if(steps++ > 3) { errno = gerr = ECONNRESET; return -1; }
    if(VF_BOOL()) { errno = gerr = VF_BOOL() ? EAGAIN : any_errno(); return -1; }
    size_t n = NDR(1, 9); REQ(n <= p - sent); sent += n; return n;
}
int dill_fdout(int s, int64_t deadline) { ENS(s == S && deadline == DL, "waits for the descriptor up to the deadline"); if(VF_BOOL()) { errno = gerr = VF_BOOL() ? ETIMEDOUT : ECANCELED; return -1; } return 0; }
int dill_fdin(int s, int64_t deadline) { ENS(0, "no wait for input"); return 0; }
int dill_iolcheck(struct dill_iolist *first, struct dill_iolist *last, size_t *nbufs, size_t *nbytes) { *nbufs = scnt; return 0; }
void dill_ioltoiov(struct dill_iolist *first, struct iovec *iov) { for(int i = 0; i < 3; ++i) if(i < scnt) { iov[i].iov_base = sl[i].iol_base; iov[i].iov_len = sl[i].iol_len; } }
#define sendmsg vf_sendmsg
#endif

#ifdef VF_MISC
/* ---------------- the remaining functions of fd.c ----------------------- */
static int conn_rc, soerr, gso_rc, waited, asock, unb, closed, cleaned, lingered, nacc, flags0;
static int vf_connect(int s, const struct sockaddr *a, socklen_t l) { ENS(s == S, "right descriptor"); if(conn_rc) errno = gerr; return conn_rc; }
static int vf_getsockopt(int s, int level, int name, void *v, socklen_t *l) {
    ENS(s == S && level == SOL_SOCKET, "right descriptor");
    if(name == SO_ERROR) { ENS(waited == 1, "the outcome is read after the wait"); if(gso_rc) { errno = gerr = EBADF; return -1; } *(int*)v = soerr; return 0; }
    if(name == SO_TYPE) { *(int*)v = soerr; return 0; }
    ENS(name == SO_ACCEPTCONN, "option"); *(int*)v = conn_rc; return 0; }
int dill_fdout(int s, int64_t d) { ENS(s == S && d == DL, "waits for the descriptor up to the deadline"); waited++; if(VF_BOOL()) { errno = gerr = VF_BOOL() ? ETIMEDOUT : ECANCELED; waited = 100; return -1; } return 0; }
int dill_fdin(int s, int64_t d) { return dill_fdout(s, d); }
static int vf_accept(int s, struct sockaddr *a, socklen_t *l) {
    ENS(s == S, "right descriptor"); nacc++;
    if(nacc > 3) { errno = gerr = EMFILE; return -1; }
    switch(NDR(0, 3)) { case 0: errno = gerr = ECONNABORTED; return -1; case 1: errno = gerr = EAGAIN; return -1; case 2: errno = gerr = EMFILE; return -1; default: return asock = (int)NDR(0, 1000); } }
static int vf_fcntl(int s, int cmd, int arg) {
    if(cmd == F_GETFL) return flags0; ENS(cmd == F_SETFL && (arg & O_NONBLOCK), "switched to non-blocking mode"); ENS(flags0 == -1 || (arg & flags0) == flags0, "other flags kept"); unb = s; return 0; }
static int vf_setsockopt(int s, int level, int name, const void *v, socklen_t l) { if(name == SO_LINGER) lingered = 1; return 0; }
int dill_fdclean(int s) { ENS(!closed, "cleaned before it is closed"); cleaned++; ENS(s == S, "right descriptor"); return 0; }
static int vf_close(int s) { ENS(s == S && cleaned == 1, "cleaned before it is closed"); closed++; return 0; }
static int vf_dup(int s) { ENS(s == S && !closed, "duplicated before it is closed"); if(VF_BOOL()) { errno = gerr = EMFILE; return -1; } return 77; }
static int fam;
static int vf_getsockname(int s, struct sockaddr *a, socklen_t *l) { ENS(s == S, "right descriptor"); a->sa_family = fam; return 0; }
#define connect vf_connect
#define getsockopt vf_getsockopt
#define accept vf_accept
#define fcntl vf_fcntl
#define setsockopt vf_setsockopt
#define close vf_close
#define dup vf_dup
#define getsockname vf_getsockname
#endif

#include "fd.c"

#undef memcpy
#undef malloc
#undef free
static void start(void) { S = (int)NDR(0, INT_MAX); DL = (int64_t)ND(); gerr = geof = 0; }

#ifdef VF_UNB
static void anyiov(void) {
    start(); N = NDR(1, 1 << 20); POOLSZ = (size_t)1 << 50; POOL = malloc(POOLSZ);
    LN = malloc(N * sizeof(size_t)); BS = malloc(N * sizeof(size_t)); PS = malloc((N + 1) * sizeof(size_t)); REQ(POOL && LN && BS && PS);
    w = NDR(0, 1 << 20); REQ(w < N); PS[0] = 0; REQ(PS[N] < ((size_t)1 << 60)); FACT(0); FACT(w); FACT(N - 1); sent = 0;
}
static void verdict(int rc) {
    if(rc == 0) { ENS(sent == PS[N], "success means every byte was transferred once"); REACH("transfer ok"); }
    else {
        ENS(rc == -1, "0 or -1");
        ENS(geof ? errno == EPIPE : errno == (gerr == EPIPE ? ECONNRESET : gerr) && errno != EAGAIN, "the error is reported as it is, a broken connection as ECONNRESET");
        REACH("transfer failed");
    }
}
void fd_send(void) { anyiov(); int rc = dill_fd_send(S, &L0, &L0, DL); verdict(rc);
    if(rc < 0 && (errno == ETIMEDOUT || errno == ECANCELED)) ENS(sent < PS[N], "a complete transfer is not reported as a timeout"); }
void fd_recv_(void) { anyiov(); int rc = dill_fd_recv_(S, &L0, &L0, DL); verdict(rc); }
#endif
#ifdef VF_SKIP
int dill_iolcheck(struct dill_iolist *first, struct dill_iolist *last, size_t *nbufs, size_t *nbytes) { return 0; }
void dill_ioltoiov(struct dill_iolist *first, struct iovec *iov) { }
int dill_fdin(int s, int64_t d) { return 0; }
int dill_fdout(int s, int64_t d) { return 0; }
void fd_skip(void) {
    start(); SK0 = (ssize_t)ND(); REQ(SK0 < ((ssize_t)1 << 60)); skipped = 0;
    int rc = dill_fd_skip(S, SK0, DL);
    if(rc == 0) { ENS(SK0 >= 0 && skipped == SK0, "exactly the given number of bytes is discarded"); REACH("skip ok"); }
    else { ENS(rc == -1 && errno == skerr, "errors are passed on"); REACH("skip failed"); }
}
#endif
#ifdef VF_RECV
void fd_recv(void) {
    start(); POOLSZ = (size_t)1 << 50;
#ifdef VF_CUTRX
    POOL = malloc(1); KP0 = KP = NDR(0, (size_t)1 << 60); mybuf = VF_BOOL() ? blk : NULL;
#else
    POOL = malloc(NE * 4096); KP = 2000; mybuf = VF_BOOL() ? malloc(1984) : NULL;
#endif
    REQ(POOL); steps = frees = allocs = 0; after_recv_error = 0;
    struct dill_ctx *c = dill_getctx; dill_ctx_fd_init(&c->fd); c->fd.count = 32; /* cache full and empty: allocation and release are visible */
    cnt = (int)NDR(1, NE); total = 0;
    for(int i = 0; i < NE; ++i) {
        size_t l = NDR(0, MAXL); nd[i].iol_len = l; nd[i].iol_base = VF_BOOL() ? POOL + 4096 * i : NULL;
#ifdef VF_CUTRX
        if(nd[i].iol_base) nd[i].iol_base = POOL + MAXL * i;
#endif
        nd[i].iol_next = NULL; nd[i].iol_rsvd = 0; if(i && i < cnt) nd[i - 1].iol_next = &nd[i];
        if(i < cnt) total += l; PSX[i + 1] = total;
    }
    for(int i = 0; i < NE; ++i) cp[i] = nd[i];
#ifdef VF_CASE
    RX = VF_CASE == 0 ? NULL : &rxb; if(VF_CASE == 1) REQ(total > 2 * 1984); if(VF_CASE == 2) REQ(total <= 2 * 1984);
#else
    RX = VF_BOOL() ? &rxb : NULL;
#endif
    rxb.buf = mybuf; rxb.len = mybuf ? NDR(0, 1984) : 0; rxb.pos = mybuf ? NDR(0, 1984) : 0; REQ(rxb.pos <= rxb.len);
    C0 = KP - (RX ? rxb.len - rxb.pos : 0);
    int skipall = VF_BOOL(); if(skipall) { total = (size_t)-1; }
    int rc = skipall ? 
#ifdef VF_CUTRX
        dill_fd_recv(S, RX, NULL, NULL, DL)
#else
        -2
#endif
        : dill_fd_recv(S, RX, nd, &nd[cnt - 1], DL);
#ifdef VF_CUTRX
    if(skipall) { ENS(rc == -1, "skipping all ends with an error"); return; }
#else
    if(skipall) return;
#endif
    if(rc == 0) { ENS(filled() == total, "success means exactly the requested bytes were taken from the stream"); REACH("recv ok"); }
    else {
        ENS(rc == -1, "0 or -1");
        ENS(errno == ENOMEM || (geof ? errno == EPIPE : (errno == (after_recv_error ? gerr : gerr == EPIPE ? ECONNRESET : gerr) && errno != EAGAIN)), "the error is reported as it is");
        REACH("recv failed");
    }
    if(RX) ENS(RX->pos <= RX->len && RX->len <= 1984 && (RX->buf ? RX->buf == mybuf : RX->len == RX->pos), "the receive buffer stays consistent");
    for(int i = 0; i < NE; ++i) ENS(nd[i].iol_base == cp[i].iol_base && nd[i].iol_len == cp[i].iol_len && nd[i].iol_next == cp[i].iol_next && nd[i].iol_rsvd == 0, "the list is handed back unmodified");
}
#endif
#ifdef VF_SENDB
void fd_send_b(void) {
    start(); scnt = (int)NDR(1, 3); sent = 0; steps = 0;
    for(int i = 0; i < 3; ++i) { sl[i].iol_base = sbuf[i]; sl[i].iol_len = NDR(0, 3); sl[i].iol_next = i + 1 < scnt ? &sl[i + 1] : NULL; sps[i + 1] = sps[i] + (i < scnt ? sl[i].iol_len : 0); }
    int rc = dill_fd_send(S, sl, &sl[scnt - 1], DL);
    if(rc == 0) ENS(sent == sps[3], "success means every byte was transferred once");
    else { ENS(rc == -1 && errno == (gerr == EPIPE ? ECONNRESET : gerr) && errno != EAGAIN, "the error is reported as it is, a broken connection as ECONNRESET");
        if(errno == ETIMEDOUT || errno == ECANCELED) ENS(sent < sps[3], "a complete transfer is not reported as a timeout"); }
    REACH("send_b");
}
#endif
#ifdef VF_MISC
void fd_connect(void) {
    start(); waited = 0; conn_rc = VF_BOOL() ? -1 : 0; gerr = VF_BOOL() ? EINPROGRESS : any_errno(); soerr = VF_BOOL() ? any_errno() : 0; gso_rc = VF_BOOL();
    int e0 = gerr, so = soerr; struct sockaddr a;
    int rc = dill_fd_connect(S, &a, sizeof(a), DL);
    if(conn_rc == 0) ENS(rc == 0 && !waited, "connected at once");
    else if(e0 != EINPROGRESS) ENS(rc == -1 && errno == e0, "the error is reported");
    else if(waited == 100) ENS(rc == -1 && errno == gerr, "an expired wait is reported");
    else if(gso_rc) ENS(rc == -1 && errno == gerr, "the error is reported");
    else ENS(so ? rc == -1 && errno == so : rc == 0, "the outcome of the connection is reported");
    REACH("connect");
}
void fd_accept(void) {
    start(); waited = nacc = 0; unb = -1; flags0 = (int)ND(); REQ(flags0 >= -1); struct sockaddr a; socklen_t l = sizeof(a);
    int rc = dill_fd_accept(S, &a, &l, DL);
    if(rc >= 0) { ENS(rc == asock && unb == asock, "the accepted descriptor is returned in non-blocking mode"); REACH("accepted"); }
    else { ENS(rc == -1 && errno == gerr && errno != EAGAIN && errno != ECONNABORTED, "aborted connections are skipped, other errors reported"); REACH("accept failed"); }
}
void fd_close(void) {
    start(); closed = cleaned = lingered = 0;
    if(VF_BOOL()) { dill_fd_close(S); ENS(closed == 1 && cleaned == 1, "cleaned and closed once"); }
    else { int rc = dill_fd_own(S); if(rc < 0) ENS(errno == gerr && !closed, "a failure leaves the descriptor alone"); else ENS(rc == 77 && closed == 1, "the original is closed, a duplicate returned"); }
    REACH("close");
}
void fd_check(void) {
    start(); soerr = (int)NDR(0, 5); conn_rc = VF_BOOL(); fam = (int)NDR(0, 10); int ty = (int)NDR(0, 5), li = VF_BOOL(), f1 = (int)NDR(0, 10), f2 = (int)NDR(0, 10);
    int rc = dill_fd_check(S, ty, f1, f2, li);
    int ok = soerr == ty && conn_rc == li && (fam == f1 || fam == f2);
    ENS(rc == (ok ? 0 : -1) && (ok || errno == EINVAL), "accepts exactly sockets of the given kind");
    REACH("check");
}
#endif
#include "vf_native.h"
