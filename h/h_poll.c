/* C16: contracts on the poll-mechanism layer (epoll.c.inc, poll.c.inc).

   The table of descriptors is of any size; FD is an arbitrary descriptor, the
   two that follow it stand for any others.  KIN is the kernel's interest. */
#include "vf.h"
#define DILL_DISABLE_RAW_NAMES
#ifdef VF_POLL
#define DILL_POLL 1
#else
#define DILL_EPOLL 1
#endif
#include "libdillimpl.h"
#include "cr.h"
#include "ctx.h"
struct dill_ctx dill_ctx_ = {1};
struct dill_ctx *dill_ctx_init(void) { return &dill_ctx_; }
#define P (dill_ctx_.pollset)
#define CASES(n, fn) do { int pick_ = (int)NDR(0, (n) - 1); for(int k_ = 0; k_ < (n); ++k_) if(pick_ == k_) { fn(k_); VF_END(); } } while(0)
static struct dill_fdclause CI, CO, CN, CI2, CO2, CI3, CO3; static int nwf, wfid; static struct dill_clause *wfcl; static void (*wfc)(struct dill_clause *);
void dill_waitfor(struct dill_clause *cl, int id, void (*cancel)(struct dill_clause *cl)) { nwf++; wfcl = cl; wfid = id; wfc = cancel; }
static int trig_in, trig_out; static void do_trig(struct dill_clause *cl);
void dill_trigger(struct dill_clause *cl, int err) { ENS(err == 0, "an event is no error"); do_trig(cl); }
int dill_maxfds(void) { return 100; }
static int cff, mff, nfr; static void *cal; static size_t cals;
static void *vf_calloc(size_t n, size_t s) { cals = n * s; return cff ? NULL : cal; }
static void vf_free(void *p) { nfr++; ENS(p == cal, "what was allocated is freed"); }
#define calloc vf_calloc
#define free vf_free
#ifndef VF_POLL
/* ======================= epoll ======================= */
static uint32_t KIN[3]; static int efail, nctl, ncl, ecfail; static int FDN; static int pollto, npollw, NEV;
static int vf_epoll_create(int n) { if(ecfail) { errno = EMFILE; return -1; } return 77; }
static int vf_close(int fd) { ENS(fd == 77, "the pollset is closed"); ncl++; return 0; }
static int vf_epoll_ctl(int efd, int op, int fd, struct epoll_event *ev);
static int vf_epoll_wait(int efd, struct epoll_event *evs, int max, int timeout);
#define epoll_create vf_epoll_create
#define close vf_close
#define epoll_ctl vf_epoll_ctl
#define epoll_wait vf_epoll_wait
static void ch_enter(void), ch_step(void), ev_enter(int *i, struct epoll_event *evs, int n), ev_step(int i, int n), cn_enter(uint32_t **p), cn_step(uint32_t *p);
#define VF_INV_ch_ENTER ({ ch_enter(); })
#define VF_INV_ch_STEP ({ ch_step(); })
#define VF_INV_ev_ENTER ({ ev_enter(&i, evs, numevs); })
#define VF_INV_ev_STEP ({ ev_step(i, numevs); })
#define VF_INV_cn_ENTER ({ cn_enter(&pidx); })
#define VF_INV_cn_STEP ({ cn_step(pidx); })
#include "epoll.c.inc"
static struct dill_fdinfo T_[16], F0[3]; static uint32_t cl0;
#define F (T_ + FD)
#define WANT(f) (((f)->in ? EPOLLIN : 0u) | ((f)->out ? EPOLLOUT : 0u))
#ifndef VF_ANYFD
#define VF_ANYFD 7
#endif
#define FD VF_ANYFD
static int vf_epoll_ctl(int efd, int op, int fd, struct epoll_event *ev) {
    ENS(efd == P.efd && fd >= FD && fd < FD + 3, "the library's pollset, a valid descriptor"); int x = fd - FD; if(x < 0 || x > 2) VF_END(); nctl++;
    if(efail && op == EPOLL_CTL_ADD) { errno = efail; return -1; }
    if(efail && op == EPOLL_CTL_DEL) { errno = ENOENT; KIN[x] = 0; return -1; }
    ENS(op == EPOLL_CTL_ADD ? !KIN[x] : KIN[x] != 0, "added only if not there, changed or removed only if there");
    if(op != EPOLL_CTL_DEL) { ENS(ev->data.fd == fd && ev->events && !(ev->events & ~(EPOLLIN | EPOLLOUT)), "level-triggered interest in this descriptor"); }
    KIN[x] = op == EPOLL_CTL_DEL ? 0 : ev->events; return 0;
}
/* Invariant of one descriptor. */
static int inv(int x) {
    struct dill_fdinfo *f = &F[x];
    if(!f->cached) return !f->in && !f->out && !f->next && !KIN[x];
    return f->currevs == KIN[x] && (WANT(f) == f->currevs || f->next) && !(f->currevs & ~(EPOLLIN | EPOLLOUT)) && (!f->in || f->in->fdinfo == f) && (!f->out || f->out->fdinfo == f);
}
static void anyfd(int x, int in, int out, int cached, int listed) {
    struct dill_fdinfo *f = &F[x]; f->in = in ? (x ? &CI2 : &CI) : NULL; f->out = out ? (x ? &CO2 : &CO) : NULL; if(f->in) f->in->fdinfo = f; if(f->out) f->out->fdinfo = f;
    f->cached = cached; KIN[x] = !cached ? 0 : VF_BOOL() ? WANT(f) : (uint32_t)NDR(0, 7) & (EPOLLIN | EPOLLOUT); f->currevs = cached ? KIN[x] : (uint32_t)ND();
    f->next = listed ? (uint32_t)NDR(1, UINT32_MAX) : 0;
    REQ(inv(x));
}
/* k: in, out, cached, listed of FD; the list starts at FD, elsewhere, or is empty. */
static void fst(int k) {
    for(int i = 0; i < 3; ++i) memset(&F[i], 0, sizeof F[i]); KIN[1] = KIN[2] = 0;
    P.fdinfos = T_; P.nfdinfos = FD + 3 + (VF_NATIVE ? 0 : NDR(0, 1 << 24)); P.efd = 77; nwf = nctl = trig_in = trig_out = npollw = 0;
    int in = k & 1, out = k >> 1 & 1, cached = k >> 2 & 1, listed = k >> 3 & 1, cl2 = k >> 4 & 1;
    anyfd(0, in && cached, out && cached, cached, listed && cached); anyfd(1, 1, 0, 1, 1);
    if(F[0].next) { P.changelist = FD + 1; F[0].next = cl2 ? FD + 2 : DILL_ENDLIST; } else P.changelist = cl2 ? FD + 2 : DILL_ENDLIST;
    if(!cl2) { F[1].next = 0; F[1].currevs = KIN[1] = WANT(&F[1]); } else { F[1].next = DILL_ENDLIST; }
    for(int i = 0; i < 3; ++i) F0[i] = F[i]; cl0 = P.changelist;
    efail = VF_BOOL() ? 0 : VF_BOOL() ? EPERM : VF_BOOL() ? EBADF : ENOMEM;
}
static int same(int x) { return F[x].in == F0[x].in && F[x].out == F0[x].out && F[x].currevs == F0[x].currevs && F[x].next == F0[x].next && F[x].cached == F0[x].cached; }
/* FD is in the list exactly once if next says so, the others are as before. */
static int listok(void) {
    uint32_t p = P.changelist; int n0 = 0, n1 = 0, t = 0;
    for(; p != DILL_ENDLIST && t < 4; ++t) { if(p == FD + 1) { n0++; p = F[0].next; } else if(p == FD + 2) { n1++; p = F[1].next; } else return 0; }
    return t < 4 && n0 == (F[0].next != 0) && n1 == (F[1].next != 0);
}
static void reg_(int k) {
    int in = k >> 5; fst(k & 31); int id = (int)ND(); int busy = in ? F[0].in != NULL : F[0].out != NULL, cached = F[0].cached; struct dill_fdclause *oth = in ? F[0].out : F[0].in;
    errno = 0; int rc = in ? dill_pollset_in(&CN, id, FD) : dill_pollset_out(&CN, id, FD); int e = errno;
    ENS(same(1) && inv(0) && inv(1) && listok(), "the invariants hold, other descriptors are untouched");
    if(busy) { ENS(rc == -1 && e == EBUSY && !nwf && same(0) && P.changelist == cl0, "one wait per descriptor and direction"); REACH("busy"); return; }
    if(!cached && efail) { ENS(rc == -1 && e == (efail == EPERM ? ENOTSUP : efail) && !nwf && !F[0].cached && P.changelist == cl0, "an invalid descriptor leaves nothing behind"); REACH("invalid"); return; }
    ENS(rc == 0 && nwf == 1 && wfcl == &CN.cl && wfid == id && wfc == (in ? dill_fdcancelin : dill_fdcancelout) && CN.fdinfo == &F[0], "the wait is registered"); ENS((in ? F[0].in : F[0].out) == &CN && (in ? F[0].out : F[0].in) == oth && F[0].cached, "in this direction, the other one is untouched"); REACH("registered");
}
void ep_reg(void) { CASES(64, reg_); }
void ep_range(void) {
    fst(0); int fd = (int)ND(); REQ(fd < 0 || (size_t)fd >= P.nfdinfos);
    int w = (int)NDR(0, 2); errno = 0; int rc = w == 0 ? dill_pollset_in(&CN, 1, fd) : w == 1 ? dill_pollset_out(&CN, 1, fd) : dill_pollset_clean(fd);
    ENS(w == 2 ? rc == 0 || errno == EBADF : rc == -1 && errno == EBADF, "descriptors out of range"); ENS(!nwf && !nctl && same(0) && same(1), "nothing changes"); REACH("range");
}
static void canc_(int k) {
    int in = k >> 5; fst(k & 31); if(!(in ? F[0].in : F[0].out)) return; struct dill_fdclause *oth = in ? F[0].out : F[0].in;
    if(in) dill_fdcancelin(&CI.cl); else dill_fdcancelout(&CO.cl);
    ENS(!(in ? F[0].in : F[0].out) && (in ? F[0].out : F[0].in) == oth && same(1) && inv(0) && inv(1) && listok() && !nctl, "the wait is withdrawn, the interest will follow"); REACH("cancel");
}
void ep_cancel(void) { CASES(64, canc_); }
/* ---- clean ---- */
static int CNP, CNN;
static void cn_enter(uint32_t **p) {
    ENS(*p == &P.changelist, "INV clean base");
    if(CNP) { *p = CNN ? &F[2].next : &P.changelist; **p = FD + 2; F[1].next = VF_BOOL() ? FD + 1 : 12345; F0[1].next = F[1].next; }
    else { *p = CNN ? &F[2].next : &P.changelist; **p = FD + 1; }
}
static void cn_step(uint32_t *p) { ENS(CNP && p == &F[1].next && same(1), "INV clean step: moves along the list"); REACH("clean step"); }
static void clean_(int k) {
    CNP = k >> 5 & 1; CNN = k >> 6; fst(k & 31); if(F[0].in || F[0].out) { errno = 0; int rc = dill_pollset_clean(FD); ENS(rc == -1 && errno == EBUSY && same(0) && same(1) && P.changelist == cl0 && !nctl, "busy"); REACH("clean busy"); return; }
    int listed = F[0].next != 0, cached = F[0].cached; uint32_t nx = F[0].next; int rc = dill_pollset_clean(FD);
    ENS(rc == 0 && !F[0].cached && !F[0].next && !KIN[0] && inv(0), "nothing is remembered about the descriptor"); ENS(F[1].in == F0[1].in && F[1].currevs == F0[1].currevs && F[1].cached == F0[1].cached, "others are untouched");
#ifdef VF_UNB
    if(listed) { ENS((CNN ? F[2].next : P.changelist) == nx, "unlinked from the list of changes"); REACH("unlinked"); } else ENS(P.changelist == cl0 && same(1), "list untouched");
#else
    ENS(listok(), "the list of changes is intact");
#endif
}
void ep_clean(void) { CASES(VF_NATIVE ? 32 : 128, clean_); }
void ep_clean_b(void) { CASES(32, clean_); }
/* ---- poll ---- */
static int PHC, PHE, EVI, S0, first_trig; static uint32_t EV; static int TO;
static void do_trig(struct dill_clause *cl) {
#ifdef VF_CBMC
    if(cl == &CI.cl) { trig_in++; ENS(F[0].in == &CI && (EV & (EPOLLIN | EPOLLERR | EPOLLHUP)), "resumed for its own direction or an error"); dill_fdcancelin(&CI.cl); }
    else { ENS(cl == &CO.cl && F[0].out == &CO && (EV & (EPOLLOUT | EPOLLERR | EPOLLHUP)), "resumed for its own direction or an error"); trig_out++; dill_fdcancelout(&CO.cl); }
#else
    for(int x = 0; x < 2; ++x) { struct dill_fdclause *ci = x ? &CI2 : &CI, *co = x ? &CO2 : &CO; if(cl == &ci->cl && F[x].in == ci) { trig_in |= 1 << x; dill_fdcancelin(cl); return; } if(cl == &co->cl && F[x].out == co) { trig_out |= 1 << x; dill_fdcancelout(cl); return; } }
    ENS(0, "only who waits is resumed");
#endif
}
static void ch_enter(void) {
    /* an arbitrary pending change, or none left */
    if(PHC) { P.changelist = FD + 1; if(!F[0].next) F[0].next = FD + 2; F0[0] = F[0]; } else P.changelist = DILL_ENDLIST;
}
static void ch_step(void) { ENS(P.changelist == F0[0].next && !F[0].next && inv(0) && WANT(&F[0]) == KIN[0] && F[0].in == F0[0].in && F[0].out == F0[0].out && same(1), "INV changes step: the interest equals the current waits"); REACH("change"); }
static int vf_epoll_wait(int efd, struct epoll_event *evs, int max, int timeout) {
    ENS(efd == P.efd && P.changelist == DILL_ENDLIST && timeout == TO && max >= 1 && max <= DILL_EPOLLSETSIZE, "waits with all changes applied, as long as asked"); npollw++;
#ifndef VF_CBMC
    ENS(!F[0].next && !F[1].next && (!F[0].cached || KIN[0] == WANT(&F[0])) && KIN[1] == WANT(&F[1]), "the interest equals the current waits"); int n = 0;
    for(int x = 0; x < 2; ++x) if(KIN[x] && VF_BOOL()) { uint32_t e = (uint32_t)NDR(0, 31) & (KIN[x] | EPOLLERR | EPOLLHUP); if(e) { evs[n].data.fd = FD + x; evs[n].events = e; F0[x].currevs = e; n++; } else F0[x].currevs = 0; } else F0[x].currevs = 0;
    for(int x = 0; x < 2; ++x) { F0[x].in = F[x].in; F0[x].out = F[x].out; }
    if(n == 0 && VF_BOOL()) { errno = EINTR; NEV = -1; return -1; } return NEV = n;
#endif
    if(NEV < 0) errno = EINTR; return NEV;
}
static void ev_enter(int *i, struct epoll_event *evs, int n) {
    ENS(*i == 0, "INV events base");
    if(!PHE) { *i = n; return; }
    *i = EVI; EV = (uint32_t)NDR(1, 0x2fff); REQ(n > EVI);
    if(EVI == 0) { /* the first event: kernel reports only what was asked for, errors and hang-ups */ REQ(!F[0].next && WANT(&F[0]) == KIN[0] && KIN[0]); }
    REQ(!(EV & ~(KIN[0] | EPOLLERR | EPOLLHUP)));
    evs[EVI].data.fd = FD; evs[EVI].events = EV; F0[0] = F[0];
}
static void ev_step(int i, int n) {
    ENS(i == EVI + 1, "INV events step: one event");
    ENS(trig_in == (F0[0].in && (EV & (EPOLLIN | EPOLLERR | EPOLLHUP)) ? 1 : 0) && trig_out == (F0[0].out && (EV & (EPOLLOUT | EPOLLERR | EPOLLHUP)) ? 1 : 0), "INV events step: exactly who waits for this event is resumed");
    ENS(inv(0) && same(1) && !(F[0].in && trig_in) && !(F[0].out && trig_out), "INV events step: invariants"); if(EVI == 0) ENS(trig_in + trig_out > 0, "INV events step: an event resumes somebody"); REACH("event");
}
static void poll_(int k) {
    PHC = k >> 5 & 1; PHE = k >> 6 & 1; EVI = k >> 7 ? 5 : 0; fst((k & 15) | 16); efail = 0; if(!F[0].cached) return; TO = (int)ND(); NEV = (int)NDR(0, 129) - 1;
    errno = 0; int rc = dill_pollset_poll(TO); int e = errno;
    ENS(npollw == 1, "one wait"); ENS(NEV < 0 ? rc == -1 && e == EINTR : rc == (NEV > 0), "tells an interruption, a timeout and events apart"); REACH("poll");
#ifndef VF_CBMC
    if(NEV >= 0) for(int x = 0; x < 2; ++x) { uint32_t ev = F0[x].currevs; ENS((trig_in >> x & 1) == (F0[x].in && (ev & (EPOLLIN | EPOLLERR | EPOLLHUP)) ? 1 : 0) && (trig_out >> x & 1) == (F0[x].out && (ev & (EPOLLOUT | EPOLLERR | EPOLLHUP)) ? 1 : 0), "exactly who waits for an event is resumed"); ENS(inv(x), "invariants"); }
    ENS(listok(), "the list of changes is intact");
#endif
}
void ep_poll(void) { CASES(256, poll_); }
void ep_init(void) {
    struct dill_ctx_pollset *c = &P; static struct dill_fdinfo T[100]; cal = T; cff = VF_BOOL(); ecfail = VF_BOOL(); nfr = ncl = 0; errno = 0; int rc = dill_ctx_pollset_init(c); int e = errno;
    if(cff) { ENS(rc == -1 && e == ENOMEM && !nfr, "out of memory"); return; }
    ENS(cals == sizeof T && c->nfdinfos == 100, "one record per possible descriptor");
    if(ecfail) { ENS(rc == -1 && e == EMFILE && nfr == 1, "nothing leaked"); REACH("init fails"); return; }
    ENS(rc == 0 && c->fdinfos == T && c->changelist == DILL_ENDLIST && c->efd == 77 && !nfr, "empty pollset"); dill_ctx_pollset_term(c); ENS(ncl == 1 && nfr == 1, "released"); REACH("init");
}
#else
/* ======================= poll ======================= */
static int npoll, NEV, TO, ffail; static struct pollfd *pset; static size_t mal;
static void *vf_malloc(size_t n);
static int vf_poll(struct pollfd *p, nfds_t n, int timeout);
static int vf_fcntl(int fd, int cmd, ...) { ENS(cmd == F_GETFD, "only asks whether the descriptor exists"); if(ffail) { errno = EBADF; return -1; } return 0; }
#define malloc vf_malloc
#define poll vf_poll
#define fcntl vf_fcntl
static void pv_enter(int *i, int *fired), pv_step(int i, int fired), pi_enter(int *i), pi_step(int i);
#define VF_INV_pv_ENTER ({ pv_enter(&i, &fired); })
#define VF_INV_pv_STEP ({ pv_step(i, fired); })
#define VF_INV_pi_ENTER ({ pi_enter(&i); })
#define VF_INV_pi_STEP ({ pi_step(i); })
#include "poll.c.inc"
#undef malloc
#define FD 7
#define SL 3
static struct dill_fdinfo T_[16]; static struct dill_fdinfo F0[3]; static struct pollfd PS[16], PS0[16];
#define F (T_ + FD)
/* Slots: FD in slot SL (or nowhere), FD+1 in the last slot LAST >= SL, FD+2 in slot 1. */
static int LAST, SZ0;
#define WANT(f) (((f)->in ? POLLIN : 0) | ((f)->out ? POLLOUT : 0))
static int inv(int x) {
    struct dill_fdinfo *f = &F[x];
    if(f->idx < 0) return f->idx == -1 && !f->in && !f->out;
    return f->cached && f->idx < P.pollset_size && PS[f->idx].fd == FD + x && PS[f->idx].events == WANT(f) && (!f->in || f->in->fdinfo == f) && (!f->out || f->out->fdinfo == f);
}
static void any(int x, int idx, int in, int out, int cached) {
    struct dill_fdinfo *f = &F[x]; f->idx = idx; f->in = in ? (x == 2 ? &CI3 : x ? &CI2 : &CI) : NULL; f->out = out ? (x == 2 ? &CO3 : x ? &CO2 : &CO) : NULL; if(f->in) f->in->fdinfo = f; if(f->out) f->out->fdinfo = f; f->cached = cached;
    if(idx >= 0) { PS[idx].fd = FD + x; PS[idx].events = WANT(f); PS[idx].revents = (short)ND(); }
}
static void fst(int k) {
    int in = k & 1, out = k >> 1 & 1, cached = k >> 2 & 1, slot = k >> 3 & 1, last = k >> 4 & 1;
    P.fdinfos = T_; P.pollset = PS; P.nfdinfos = 16 + (VF_NATIVE ? 0 : (int)NDR(0, 1 << 24)); nwf = npoll = trig_in = trig_out = 0; ffail = VF_BOOL();
    for(int i = 0; i < 16; ++i) { PS[i].fd = (int)ND(); PS[i].events = (short)ND(); PS[i].revents = (short)ND(); }
    slot = slot && cached; LAST = slot && last ? SL : SL + 2; P.pollset_size = LAST + 1;
    any(2, 1, 1, 1, 1); if(LAST == SL) any(1, -1, 0, 0, 0); else any(1, LAST, 1, VF_BOOL(), 1);
    any(0, slot ? SL : -1, slot && in, slot && out, cached);
#ifndef VF_CBMC
    /* natively the slots in between belong to other descriptors */
    for(int i = 0; i < P.pollset_size; ++i) if(i != F[0].idx && i != F[1].idx && i != F[2].idx) { int d = 10 + i; PS[i].fd = d; T_[d].idx = i; T_[d].in = &CN; T_[d].out = NULL; T_[d].cached = 1; PS[i].events = POLLIN; }
#endif
    for(int i = 0; i < 3; ++i) F0[i] = F[i]; for(int i = 0; i < 16; ++i) PS0[i] = PS[i]; SZ0 = P.pollset_size;
}
static int same(int x) { return F[x].in == F0[x].in && F[x].out == F0[x].out && F[x].idx == F0[x].idx && F[x].cached == F0[x].cached; }
static int sameslot(int i) { return PS[i].fd == PS0[i].fd && PS[i].events == PS0[i].events; }
static void reg_(int k) {
    int in = k >> 5; fst(k & 31); int id = (int)ND(); int busy = in ? F[0].in != NULL : F[0].out != NULL, cached = F[0].cached, idx = F[0].idx; struct dill_fdclause *oth = in ? F[0].out : F[0].in;
    errno = 0; int rc = in ? dill_pollset_in(&CN, id, FD) : dill_pollset_out(&CN, id, FD); int e = errno;
    ENS(same(1) && same(2) && inv(0) && inv(1) && inv(2) && sameslot(0) && sameslot(2), "the invariants hold, other descriptors are untouched");
    if(busy) { ENS(rc == -1 && e == EBUSY && !nwf && same(0) && P.pollset_size == SZ0, "one wait per descriptor and direction"); REACH("busy"); return; }
    if(!cached && ffail) { ENS(rc == -1 && e == EBADF && !nwf && same(0) && P.pollset_size == SZ0, "an invalid descriptor leaves nothing behind"); REACH("invalid"); return; }
    ENS(rc == 0 && nwf == 1 && wfcl == &CN.cl && wfid == id && wfc == (in ? dill_fdcancelin : dill_fdcancelout) && CN.fdinfo == &F[0] && P.pollset_size == SZ0 + (idx < 0), "the wait is registered"); ENS((in ? F[0].in : F[0].out) == &CN && (in ? F[0].out : F[0].in) == oth, "in this direction, the other one is untouched"); REACH("registered");
}
void po_reg(void) { CASES(64, reg_); }
void po_range(void) {
    fst(0); int fd = (int)ND(); REQ(fd < 0 || fd >= P.nfdinfos);
    int w = (int)NDR(0, 2); errno = 0; int rc = w == 0 ? dill_pollset_in(&CN, 1, fd) : w == 1 ? dill_pollset_out(&CN, 1, fd) : dill_pollset_clean(fd);
    ENS(w == 2 ? rc == 0 || errno == EBADF : rc == -1 && errno == EBADF, "descriptors out of range"); ENS(!nwf && same(0) && same(1) && P.pollset_size == SZ0, "nothing changes"); REACH("range");
}
static void canc_(int k) {
    int in = k >> 5; fst(k & 31); if(!(in ? F[0].in : F[0].out)) return; struct dill_fdclause *oth = in ? F[0].out : F[0].in;
    if(in) dill_fdcancelin(&CI.cl); else dill_fdcancelout(&CO.cl);
    ENS(!(in ? F[0].in : F[0].out) && (in ? F[0].out : F[0].in) == oth && same(1) && same(2) && inv(0) && inv(1) && inv(2), "the wait and its interest are withdrawn"); REACH("cancel");
}
void po_cancel(void) { CASES(64, canc_); }
static void clean_(int k) {
    fst(k); if(F[0].in || F[0].out) { errno = 0; int rc = dill_pollset_clean(FD); ENS(rc == -1 && errno == EBUSY && same(0) && same(1) && P.pollset_size == SZ0, "busy"); REACH("clean busy"); return; }
    int idx = F[0].idx; int rc = dill_pollset_clean(FD);
    ENS(rc == 0 && !F[0].cached && F[0].idx == -1 && inv(0) && inv(1) && inv(2) && same(2) && F[1].in == F0[1].in && F[1].out == F0[1].out, "nothing is remembered about the descriptor, the others are kept"); ENS(P.pollset_size == SZ0 - (idx >= 0), "its slot is given up"); REACH("cleaned");
}
void po_clean(void) { CASES(32, clean_); }
/* ---- poll ---- */
static int PHV, before; static int trig2;
static void do_trig(struct dill_clause *cl) {
    short ev;
    if(cl == &CI.cl && F[0].in == &CI) { ev = PS0[SL].revents; trig_in++; ENS(ev & (POLLIN | POLLERR | POLLHUP | POLLNVAL), "resumed for its own direction or an error"); dill_fdcancelin(cl); }
    else if(cl == &CO.cl && F[0].out == &CO) { ev = PS0[SL].revents; trig_out++; ENS(ev & (POLLOUT | POLLERR | POLLHUP | POLLNVAL), "resumed for its own direction or an error"); dill_fdcancelout(cl); }
#ifndef VF_CBMC
    else { int ok = 0; for(int x = 1; x < 3; ++x) { ev = PS0[x == 1 ? LAST : 1].revents; if(F[x].in && cl == &F[x].in->cl) { ENS(ev & (POLLIN | POLLERR | POLLHUP | POLLNVAL), "own direction"); dill_fdcancelin(cl); ok = 1; } else if(F[x].out && cl == &F[x].out->cl) { ENS(ev & (POLLOUT | POLLERR | POLLHUP | POLLNVAL), "own direction"); dill_fdcancelout(cl); ok = 1; } } ENS(ok, "only who waits is resumed"); trig2++; }
#else
    else ENS(0, "only who waits is resumed");
#endif
}
static int vf_poll(struct pollfd *p, nfds_t n, int timeout) {
    ENS(p == PS && n == (nfds_t)P.pollset_size && timeout == TO, "waits for the whole pollset, as long as asked"); npoll++;
#ifndef VF_CBMC
    NEV = 0; for(int i = 0; i < (int)n; ++i) { PS[i].revents = VF_BOOL() ? 0 : (short)NDR(0, 63) & (PS[i].events | POLLERR | POLLHUP | POLLNVAL); if(PS[i].fd >= 10) PS[i].revents = 0; if(PS[i].revents) NEV++; PS0[i] = PS[i]; } if(!NEV && VF_BOOL()) NEV = -1;
#endif
    if(NEV < 0) errno = EINTR; return NEV;
}
/* The slot loop: an arbitrary slot SL whose descriptor is FD; or the end. */
static void pv_enter(int *i, int *fired) {
    ENS(*i == 0 && *fired == 0, "INV slots base"); before = VF_BOOL(); *fired = before;
    if(!PHV) { *i = P.pollset_size; return; }
    *i = SL; REQ(!(PS[SL].revents & ~(PS[SL].events | POLLERR | POLLHUP | POLLNVAL))); PS0[SL] = PS[SL];
}
static void pv_step(int i, int fired) {
    ENS(!fired == !(before || trig_in || trig_out), "INV slots step: remembers whether anybody was resumed");
    short ev = PS0[SL].revents; int err = ev & (POLLERR | POLLHUP | POLLNVAL);
    ENS(trig_in == (F0[0].in && (err || ev & POLLIN)) && trig_out == (F0[0].out && (err || ev & POLLOUT)), "INV slots step: exactly who waits for this event is resumed");
    ENS(inv(0) && inv(1) && inv(2) && same(2) && F[1].in == F0[1].in && F[1].out == F0[1].out, "INV slots step: invariants"); 
    ENS(F[0].idx < 0 ? P.pollset_size == SZ0 - 1 && i == SL : P.pollset_size == SZ0 && i == SL + 1, "INV slots step: the next slot follows"); ENS((F[0].idx < 0) == !(F[0].in || F[0].out), "INV slots step: a descriptor nobody waits for leaves the pollset"); REACH("slot");
}
static void poll_(int k) {
    PHV = k >> 5 & 1; fst(k & 31); if(PHV && F[0].idx < 0) return; TO = (int)ND(); NEV = (int)NDR(0, 2) - 1; trig2 = 0;
    errno = 0; int rc = dill_pollset_poll(TO); int e = errno;
    ENS(npoll == 1, "one wait"); ENS(NEV < 0 ? rc == -1 && e == EINTR : rc == 0 || rc == 1, "tells an interruption, a timeout and events apart"); REACH("poll");
#ifdef VF_UNB
    if(NEV >= 0) ENS(!rc == !before, "reports an event only if somebody was resumed");
#endif
#ifndef VF_CBMC
    if(NEV >= 0) { ENS(rc == (trig_in + trig_out + trig2 > 0), "reports an event if somebody was resumed"); ENS(inv(0) && inv(1) && inv(2), "invariants"); for(int x = 0; x < 3; ++x) if(F0[x].idx >= 0) { short ev = PS0[F0[x].idx].revents; int err = ev & (POLLERR | POLLHUP | POLLNVAL); ENS(!F[x].in == (!F0[x].in || err || (ev & POLLIN)) && !F[x].out == (!F0[x].out || err || (ev & POLLOUT)), "exactly who waits for an event is resumed"); } }
#endif
}
void po_poll(void) { CASES(64, poll_); }
static void *vf_malloc(size_t n) { if(mff == 2 && mal) return NULL; if(mff == 1) return NULL; mal++; cals = n; return mal == 1 ? (void*)PS : (cal = T_, (void*)T_); }
static void pi_enter(int *i) { ENS(*i == 0, "INV init base"); if(VF_BOOL()) *i = FD; else *i = P.nfdinfos; T_[FD].cached = 1; T_[FD].in = &CI; }
static void pi_step(int i) { ENS(i == FD + 1 && T_[FD].idx == -1 && !T_[FD].in && !T_[FD].out && !T_[FD].cached, "INV init step: every record is initialised"); REACH("init step"); }
void po_init(void) {
    struct dill_ctx_pollset *c = &P; mff = (int)NDR(0, 2); mal = 0; nfr = 0; cal = PS; errno = 0; int rc = dill_ctx_pollset_init(c); int e = errno;
    if(mff) { ENS(rc == -1 && e == ENOMEM && nfr == (mff == 2), "out of memory: nothing leaked"); REACH("no memory"); return; }
    ENS(rc == 0 && mal == 2 && cals == 100 * sizeof(struct dill_fdinfo) && c->nfdinfos == 100 && c->pollset_size == 0 && c->pollset == PS && c->fdinfos == T_ && !nfr, "empty pollset, one record per possible descriptor"); REACH("init");
}
#endif
#include "vf_native.h"
