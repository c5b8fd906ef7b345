/* C19, C20: tcp.c, ipc.c and udp.c over ghost descriptors.
   The descriptor table, handle creation, allocation and every system call are
   contracts; the K-th step that may fail does (0: none). P_TCP, P_IPC, P_UDP
   select the real file. */
#include "vf.h"
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
#include "fd.h"
#undef errno
extern int errno;
#undef errno
#define errno (*__errno_location())
static char t_b, t_m, t_x;
const void *dill_bsock_type = &t_b, *dill_msock_type = &t_m;
static int64_t DL;
static int gerr, gfail, K, step;
static int failing(int e) { if(++step == K) { gfail = 1; gerr = e; errno = e; return 1; } return 0; }

/* ghost descriptors */
#define NF 6
#define FD0 20
static struct { int open, nonblock, bound, listening, conn; } F[NF]; static int fn, nclosed, userfd;
static int fopenx(void) { ENS(fn < NF, "a bounded number of descriptors"); F[fn].open = 1; return FD0 + fn++; }
static int isfd(int s) { return s >= FD0 && s < FD0 + NF && F[s - FD0].open; }
static int nopen(void) { int n = 0; for(int i = 0; i < NF; ++i) n += F[i].open; return n; }
static void fclosex(int s) { ENS(isfd(s), "only open descriptors are closed, once"); if(!isfd(s)) VF_END(); F[s - FD0].open = 0; nclosed++; errno = EBADF; }
int vf_socket(int d, int t, int p); int vf_bind(int s, const struct sockaddr *a, socklen_t l); int vf_listen(int s, int b);
int vf_getsockname(int s, struct sockaddr *a, socklen_t *l); int vf_close(int s); int vf_shutdown(int s, int how); int vf_socketpair(int d, int t, int p, int *f);
#define WFAM AF_INET
static int wfam, wtype;
int vf_socket(int d, int t, int p) { ENS(d == wfam && t == wtype && p == 0, "a socket of the right kind is opened"); if(failing(EMFILE)) return -1; return fopenx(); }
int vf_socketpair(int d, int t, int p, int *f) { ENS(d == AF_UNIX && t == SOCK_STREAM, "a socket of the right kind is opened"); if(failing(EMFILE)) return -1; f[0] = fopenx(); f[1] = fopenx(); F[0].conn = F[1].conn = 1; return 0; }
static const struct sockaddr *waddr; static socklen_t wlen; static const char *wpath;
static void addrok(const struct sockaddr *a, socklen_t l) {
    if(wpath) ENS(a->sa_family == AF_UNIX && l == sizeof(struct sockaddr_un) && !strcmp(((const struct sockaddr_un*)a)->sun_path, wpath), "the address given is used");
    else ENS(a == waddr && l == wlen, "the address given is used");
}
int vf_bind(int s, const struct sockaddr *a, socklen_t l) { ENS(isfd(s), "open descriptor"); if(!isfd(s)) VF_END(); addrok(a, l); if(failing(EADDRINUSE)) return -1; F[s - FD0].bound = 1; return 0; }
static int wbacklog;
int vf_listen(int s, int b) { ENS(isfd(s) && F[s - FD0].bound, "bound before listening"); ENS(b == wbacklog, "the backlog is passed on"); if(!isfd(s)) VF_END(); if(failing(EADDRINUSE)) return -1; F[s - FD0].listening = 1; return 0; }
int vf_getsockname(int s, struct sockaddr *a, socklen_t *l) { ENS(isfd(s), "open descriptor"); ENS(*l == sizeof(struct dill_ipaddr), "the buffer size is given"); if(failing(ENOBUFS)) return -1; ((struct sockaddr_in*)a)->sin_port = htons(4242); return 0; }
int vf_close(int s) { fclosex(s); return 0; }
/* fd.c, as proved in C03, C04, C16 */
void dill_fd_close(int s) { fclosex(s); }
int dill_fd_unblock(int s) { ENS(isfd(s), "open descriptor"); if(!isfd(s)) VF_END(); if(failing(ENOBUFS)) return -1; F[s - FD0].nonblock = 1; return 0; }
int dill_fd_connect(int s, const struct sockaddr *a, socklen_t l, int64_t d) { ENS(isfd(s) && F[s - FD0].nonblock && d == DL, "connect does not block and obeys the deadline"); if(!isfd(s)) VF_END(); addrok(a, l); if(failing(ECONNREFUSED)) return -1; F[s - FD0].conn = 1; return 0; }
static int lfd = -1; static struct sockaddr *wacc;
int dill_fd_accept(int s, struct sockaddr *a, socklen_t *l, int64_t d) { ENS(s == lfd && d == DL && a == wacc, "accepts from the listener"); if(a) ENS(*l == sizeof(struct dill_ipaddr), "the buffer size is given"); if(failing(ETIMEDOUT)) return -1; int n = fopenx(); F[n - FD0].conn = 1; return n; }
static int wlst, badfd;
int dill_fd_check(int s, int t, int f1, int f2, int lst) { ENS(t == SOCK_STREAM && lst == wlst && (wfam == AF_UNIX ? f1 == AF_UNIX && (f2 == -1 || f2 == AF_UNIX) : (f1 == AF_INET && f2 == AF_INET6) || (f2 == AF_INET && f1 == AF_INET6)), "the right kind of descriptor is required"); if(!isfd(s)) { errno = EBADF; return -1; } if(failing(EINVAL)) return -1; return 0; }
int dill_fd_own(int s) { ENS(isfd(s), "open descriptor"); if(!isfd(s)) VF_END(); if(failing(EMFILE)) return -1; int n = fopenx(); F[n - FD0] = F[s - FD0]; fclosex(s); nclosed--; return n; }
static int rxinit, rxterm;
void dill_fd_initrxbuf(struct dill_fd_rxbuf *r) { r->len = r->pos = 0; r->buf = NULL; rxinit++; }
void dill_fd_termrxbuf(struct dill_fd_rxbuf *r) { rxterm++; errno = ENOENT; }
/* handles */
#define NH 4
static struct dill_hvfs *H[NH]; static int hn, hlive[NH];
int dill_hmake(struct dill_hvfs *v) { if(failing(ENOMEM)) return -1; ENS(hn < NH && v->query && v->close, "complete object"); H[hn] = v; hlive[hn] = 1; return hn++; }
static int known(int h) { return h >= 0 && h < NH && hlive[h]; }
void *dill_hquery(int h, const void *t) { if(!known(h)) { errno = EBADF; return NULL; } return H[h]->query(H[h], t); }
int dill_hclose(int h) { if(!known(h)) { errno = EBADF; return -1; } hlive[h] = 0; H[h]->close(H[h]); return 0; }
static int nhl(void) { int n = 0; for(int i = 0; i < NH; ++i) n += hlive[i]; return n; }
/* memory */
static void *gm[2]; static int gmn, gmf[2];
static void *vf_malloc(size_t n) { ENS(gmn < 2, "few objects"); if(++step == K) { gfail = 1; gerr = ENOMEM; errno = ENOMEM; return NULL; } void *p = malloc(n); if(!p) VF_END(); gm[gmn++] = p; return p; }
static void vf_free(void *p) {
    if(!p) return; int i = p == gm[0] ? 0 : 1; ENS(p == gm[i] && !gmf[i], "only allocated objects are freed, once"); if(gmf[i]) VF_END(); gmf[i] = 1;
    for(int k = 0; k < NH; ++k) ENS(!hlive[k] || (void*)H[k] != p, "memory is not freed while in use");
    free(p); }
static int nmem(void) { return gmn - gmf[0] - gmf[1]; }
/* transfers */
static int nshut, shuterr, nsend, nrecv, sret, serr, rret, rerr, wfd = -1, rdone, busyprobe;
static void *other_send, *other_recv;
static void during(int out);
static struct dill_iolist *xf, *xl;
int vf_shutdown(int s, int how) { ENS(isfd(s) && s == wfd && how == SHUT_WR, "only our direction is shut down"); nshut++; if(shuterr) { errno = shuterr; return -1; } return 0; }
int dill_fd_send(int s, struct dill_iolist *f, struct dill_iolist *l, int64_t d) { ENS(isfd(s) && s == wfd && d == DL && f == xf && l == xl, "what was given is sent to the socket"); nsend++; during(1); errno = serr; return sret; }
int dill_fd_recv(int s, struct dill_fd_rxbuf *r, struct dill_iolist *f, struct dill_iolist *l, int64_t d) { ENS(isfd(s) && s == wfd && d == DL && f == xf && l == xl, "received from the socket into what was given"); nrecv++; during(0); errno = rerr; return f ? rret : -1; }
int dill_fdin(int s, int64_t d) { ENS(isfd(s) && s == wfd && d == DL, "waits for the socket"); during(0); if(failing(ETIMEDOUT)) return -1; return 0; }
int dill_fdout(int s, int64_t d) { ENS(isfd(s) && s == wfd && d == DL, "waits for the socket"); during(1); if(failing(ETIMEDOUT)) return -1; return 0; }
static int sm_fd, nsm, nrm, rm_kind; static ssize_t sm_ret, rm_ret; static int sm_err, rm_err;
ssize_t vf_sendmsg(int s, const struct msghdr *m, int fl); ssize_t vf_recvmsg(int s, struct msghdr *m, int fl);
/* addresses */
static int gfam = AF_INET, gport, gsetport;
int dill_ipaddr_family(const struct dill_ipaddr *a) { return gfam; }
const struct sockaddr *dill_ipaddr_sockaddr(const struct dill_ipaddr *a) { return (const struct sockaddr*)a; }
int dill_ipaddr_len(const struct dill_ipaddr *a) { return wlen; }
static struct dill_ipaddr A1, A2;
int dill_ipaddr_port(const struct dill_ipaddr *a) { return a == &A1 ? gport : ntohs(((const struct sockaddr_in*)a)->sin_port); }
void dill_ipaddr_setport(struct dill_ipaddr *a, int p) { ENS(a == &A1 && p == 4242, "the port chosen by the system is reported"); gsetport++; }
int dill_ipaddr_equal(const struct dill_ipaddr *a, const struct dill_ipaddr *b, int f) { return 0; }
int dill_iolcheck(struct dill_iolist *f, struct dill_iolist *l, size_t *a, size_t *b) { return -1; }
void dill_ioltoiov(struct dill_iolist *f, struct iovec *v) {}

#define socket(a,b,c) vf_socket(a,b,c)
#define bind(a,b,c) vf_bind(a,b,c)
#define listen(a,b) vf_listen(a,b)
#define getsockname(a,b,c) vf_getsockname(a,b,c)
#define close(a) vf_close(a)
#define shutdown(a,b) vf_shutdown(a,b)
#define socketpair(a,b,c,d) vf_socketpair(a,b,c,d)
#define malloc vf_malloc
#define free vf_free
#define sendmsg vf_sendmsg
#define recvmsg vf_recvmsg
#ifdef P_TCP
#include "tcp.c"
#define CONN struct dill_tcp_conn
#define STOR struct dill_tcp_storage
#define X(n) dill_tcp_##n
#endif
#ifdef P_IPC
#include "ipc.c"
#define CONN struct dill_ipc_conn
#define STOR struct dill_ipc_storage
#define X(n) dill_ipc_##n
#endif
#ifdef P_UDP
#include "udp.c"
#endif
#undef socket
#undef bind
#undef listen
#undef getsockname
#undef close
#undef shutdown
#undef socketpair
#undef malloc
#undef free
#undef sendmsg
#undef recvmsg

/* ---- C20: creation and release */
static int um, badarg;
static void of_failed(int r, int e) {
    ENS(r == -1 && e > 0, "failure is reported");
    ENS(gfail || badarg, "fails only if something failed");
    if(gfail) ENS(e == gerr, "the error is reported");
    else ENS(e == (badarg == 9 ? ENAMETOOLONG : badarg == 8 ? EBADF : EINVAL), "bad arguments are refused");
    ENS(nhl() == 0 && nmem() == 0, "no handle or memory is leaked");
    ENS(nopen() <= (userfd >= 0 && isfd(userfd)), "no descriptor is leaked");
    REACH("creation failed"); VF_END();
}
/* store: where the object must be if in the caller's memory */
static void of_ok(int h, int fd, const void *store, int n) {
    ENS(!gfail && !badarg, "succeeds only if everything succeeded");
    ENS(known(h) && nhl() == n && nopen() == n && isfd(fd) && F[fd - FD0].nonblock, "the handle and its non-blocking descriptor are all that is left");
    ENS(um ? nmem() == 0 && (void*)H[h] == store : nmem() == n && ((void*)H[h] == gm[0] || (void*)H[h] == gm[1]), "the object is where it should be");
}
static void of_closed(void) { ENS(nhl() == 0 && nopen() == 0 && nmem() == 0, "everything is released, once"); REACH("closed"); VF_END(); }
static void setup(int fam, int type) { DL = ND(); userfd = -1; wfam = gfam = fam; wtype = type; wlen = 16; waddr = (struct sockaddr*)&A1; memset(F, 0, sizeof(F)); }
#ifndef KMAX
#define KMAX 8
#endif
static void kdone(void) { ENS(step <= KMAX, "every step was a case"); }

#if defined P_TCP || defined P_IPC
static void mkfresh(CONN *o) { ENS(!o->sbusy && !o->rbusy && !o->indone && !o->outdone && !o->inerr && !o->outerr && o->mem == um, "the connection starts in its initial state"); }
static STOR cst; static struct { char x[sizeof(STOR)]; } cst2;
static int mk_conn(int kind) {
    int h; STOR *m = badarg == 1 ? NULL : &cst; static char path[120];
    if(kind == 0) {         /* connect */
#ifdef P_TCP
        h = um ? dill_tcp_connect_mem(&A1, m, DL) : dill_tcp_connect(&A1, DL);
#else
        if(badarg == 9) { memset(path, 'x', 110); wpath = path; } else wpath = "/p";
        h = um ? dill_ipc_connect_mem(wpath, m, DL) : dill_ipc_connect(wpath, DL);
#endif
    } else {                /* from a descriptor */
        wlst = 0; userfd = badarg == 2 ? -1 : badarg == 8 ? 7 : fopenx();
        h = um ? X(fromfd_mem)(userfd, m) : X(fromfd)(userfd);
    }
    return h;
}
static void conn_case(int kind, int umx, int bad, int k) {
#ifdef P_TCP
    setup(AF_INET6, SOCK_STREAM);
#else
    setup(AF_UNIX, SOCK_STREAM);
#endif
    um = umx; badarg = bad; K = k; int h = mk_conn(kind), e = errno; kdone();
    if(h < 0) of_failed(h, e);
    CONN *o = (CONN*)H[h]; of_ok(h, o->fd, &cst, 1); mkfresh(o);
    if(kind == 0) ENS(F[o->fd - FD0].conn, "the socket is connected");
    ENS(userfd < 0 || !isfd(userfd), "the descriptor was taken over");
    ENS(dill_hquery(h, dill_bsock_type) == (void*)&o->bvfs, "it's a bytestream socket"); REACH("created");
    dill_hclose(h); ENS(rxinit == 1 && rxterm == 1, "the receive buffer is released"); of_closed();
}
void of_conn(void) {
    int c = (int)NDR(0, 1000), i = 0;
    for(int kind = 0; kind < 2; ++kind) for(int u = 0; u < 2; ++u) {
        for(int k = 0; k <= KMAX; ++k) if(c == i++) conn_case(kind, u, 0, k);
        for(int k = 0; k < 3; ++k) { if(u && c == i++) conn_case(kind, 1, 1, k);
            if(kind && c == i++) conn_case(1, u, 2, k); if(kind && c == i++) conn_case(1, u, 8, k);
#ifdef P_IPC
            if(!kind && c == i++) conn_case(0, u, 9, k);
#endif
        }
    }
}
#ifdef P_TCP
#define LIS struct dill_tcp_listener
static struct dill_tcp_listener_storage lst_;
#else
#define LIS struct dill_ipc_listener
static struct dill_ipc_listener_storage lst_;
#endif
static void lis_case(int kind, int umx, int bad, int k, int port) {
#ifdef P_TCP
    setup(AF_INET6, SOCK_STREAM);
#else
    setup(AF_UNIX, SOCK_STREAM);
#endif
    um = umx; badarg = bad; K = k; gport = port; wbacklog = (int)ND(); static char path[120]; int h; (void)path;
    void *m = bad == 1 ? NULL : (void*)&lst_;
    if(kind == 0) {
#ifdef P_TCP
        h = um ? dill_tcp_listen_mem(&A1, wbacklog, m) : dill_tcp_listen(&A1, wbacklog);
#else
        if(badarg == 9) { memset(path, 'x', 110); wpath = path; } else wpath = "/p";
        h = um ? dill_ipc_listen_mem(wpath, wbacklog, m) : dill_ipc_listen(wpath, wbacklog);
#endif
    } else { wlst = 1; userfd = badarg == 2 ? -1 : badarg == 8 ? 7 : fopenx(); h = um ? X(listener_fromfd_mem)(userfd, m) : X(listener_fromfd)(userfd); }
    int e = errno; kdone();
    if(h < 0) of_failed(h, e);
    LIS *o = (LIS*)H[h]; of_ok(h, o->fd, &lst_, 1); ENS(o->mem == um, "memory is accounted for");
    if(kind == 0) ENS(F[o->fd - FD0].bound && F[o->fd - FD0].listening, "the socket listens");
    ENS(userfd < 0 || !isfd(userfd), "the descriptor was taken over");
#ifdef P_TCP
    if(kind == 0) ENS(gsetport == (port == 0), "an ephemeral port is reported");
#endif
    ENS(dill_hquery(h, dill_bsock_type) == NULL && errno == ENOTSUP, "a listener is not a bytestream");
    REACH("listening");
    ENS(X(close)(h, DL) == 0, "closing a listener succeeds"); of_closed();
}
void of_listen(void) {
    int c = (int)NDR(0, 1000), i = 0;
    for(int kind = 0; kind < 2; ++kind) for(int u = 0; u < 2; ++u) {
        for(int k = 0; k <= KMAX; ++k) for(int p = 0; p < 2; ++p) if(c == i++) lis_case(kind, u, 0, k, p * 77);
        for(int k = 0; k < 3; ++k) { if(u && c == i++) lis_case(kind, 1, 1, k, 1);
            if(kind && c == i++) lis_case(1, u, 2, k, 1); if(kind && c == i++) lis_case(1, u, 8, k, 1);
#ifdef P_IPC
            if(!kind && c == i++) lis_case(0, u, 9, k, 1);
#endif
        }
    }
}
static void acc_case(int umx, int bad, int k, int wa) {
    setup(AF_INET, SOCK_STREAM); um = umx; badarg = bad; K = k;
    LIS l; memset(&l, 0, sizeof(l));
#ifdef P_TCP
    l.hvfs.query = dill_tcp_listener_hquery; l.hvfs.close = dill_tcp_listener_hclose;
#else
    l.hvfs.query = dill_ipc_listener_hquery; l.hvfs.close = dill_ipc_listener_hclose;
#endif
    lfd = l.fd = fopenx(); l.mem = 1; H[0] = &l.hvfs; hlive[0] = 1; hn = 1; F[0].nonblock = 1;
    STOR *m = bad == 1 ? NULL : &cst; int ls = bad == 8 ? 3 : 0, h;
#ifdef P_TCP
    struct dill_ipaddr *a = wa ? &A2 : NULL; wacc = (struct sockaddr*)a;
    h = um ? dill_tcp_accept_mem(ls, a, m, DL) : dill_tcp_accept(ls, a, DL);
#else
    h = um ? dill_ipc_accept_mem(ls, m, DL) : dill_ipc_accept(ls, DL);
#endif
    int e = errno; kdone();
    ENS(hlive[0] && isfd(lfd), "the listener stays open");
    hlive[0] = 0; F[0].open = 0;          /* account for the rest only */
    if(h < 0) of_failed(h, e);
    CONN *o = (CONN*)H[h]; of_ok(h, o->fd, &cst, 1); mkfresh(o); ENS(F[o->fd - FD0].conn, "the socket is connected"); REACH("accepted");
    dill_hclose(h); of_closed();
}
void of_accept(void) {
    int c = (int)NDR(0, 1000), i = 0;
    for(int u = 0; u < 2; ++u) for(int wa = 0; wa < 2; ++wa) {
        for(int k = 0; k <= KMAX; ++k) if(c == i++) acc_case(u, 0, k, wa);
        for(int k = 0; k < 3; ++k) { if(u && c == i++) acc_case(1, 1, k, wa); if(c == i++) acc_case(u, 8, k, wa); }
    }
}
#ifdef P_IPC
static void pair_case(int umx, int bad, int k) {
    setup(AF_UNIX, SOCK_STREAM); um = umx; badarg = bad; K = k;
    static struct dill_ipc_pair_storage ps; int s[2] = {-7, -7};
    int rc = um ? dill_ipc_pair_mem(bad ? NULL : &ps, s) : dill_ipc_pair(s), e = errno;
    kdone();
    if(rc < 0) of_failed(rc, e);
    ENS(rc == 0 && s[0] != s[1], "two handles");
    CONN *a = (CONN*)H[s[0]], *b = (CONN*)H[s[1]];
    of_ok(s[0], a->fd, &ps, 2); mkfresh(a); ENS(known(s[1]) && isfd(b->fd) && a->fd != b->fd && F[b->fd - FD0].nonblock, "two connected non-blocking sockets"); mkfresh(b);
    if(um) ENS((char*)a + sizeof(CONN) <= (char*)b || (char*)b + sizeof(CONN) <= (char*)a, "the two objects are distinct"); else ENS((void*)a != (void*)b, "the two objects are distinct");
    if(um) ENS((char*)b >= (char*)&ps && (char*)b + sizeof(CONN) <= (char*)(&ps + 1), "both objects fit the memory given");
    REACH("pair");
    dill_hclose(s[0]); ENS(nopen() == 1 && known(s[1]), "one end is closed"); dill_hclose(s[1]); of_closed();
}
void of_pair(void) {
    int c = (int)NDR(0, 1000), i = 0;
    for(int u = 0; u < 2; ++u) { for(int k = 0; k <= KMAX; ++k) if(c == i++) pair_case(u, 0, k); if(u) for(int k = 0; k < 3; ++k) if(c == i++) pair_case(1, 1, k); }
}
#endif

/* ---- C19: the state of both directions */
static int probing; static int pdir; static CONN *me;
static void during(int out) {      /* another coroutine runs while the transfer waits */
    if(!me) return;
    ENS(out ? me->sbusy : me->rbusy, "the direction is marked as in use while waiting");
    if(!probing) return; probing = 0;
    struct dill_iolist il = {NULL, 1, NULL, 0};
    struct dill_iolist *sf = xf, *sl = xl;
    xf = xl = &il;
    int n = nsend, m = nrecv, rc;
    errno = 0;
    if(out) { rc = X(bsendl)(&me->bvfs, &il, &il, DL); ENS(rc == -1 && errno == EBUSY && nsend == n, "a second sender is refused"); }
    else { rc = X(brecvl)(&me->bvfs, &il, &il, DL); ENS(rc == -1 && errno == EBUSY && nrecv == m, "a second receiver is refused"); }
#ifdef P_IPC
    errno = 0; if(!me->scm_rights) { xf = sf; xl = sl; return; }
    if(out) { rc = dill_ipc_sendfd(0, 5, DL); ENS(rc == -1 && errno == EBUSY && !nsm, "a second sender is refused"); }
    else { rc = dill_ipc_recvfd(0, DL); ENS(rc == -1 && errno == EBUSY && !nrm, "a second receiver is refused"); }
#endif
    ENS(out ? me->sbusy : me->rbusy, "the first one keeps the direction");
    xf = sf; xl = sl; REACH("probe");
}
static CONN c0;
static void st_setup(void) {
    setup(AF_INET, SOCK_STREAM); me = &c0;
    c0.hvfs.query = X(hquery); c0.hvfs.close = X(hclose); c0.bvfs.bsendl = X(bsendl); c0.bvfs.brecvl = X(brecvl);
    c0.fd = wfd = fopenx(); c0.mem = 1; H[0] = &c0.hvfs; hlive[0] = 1; hn = 1;
    c0.rbusy = VF_BOOL(); c0.sbusy = VF_BOOL(); c0.indone = VF_BOOL(); c0.outdone = VF_BOOL(); c0.inerr = VF_BOOL(); c0.outerr = VF_BOOL();
#ifdef P_IPC
    c0.scm_rights = VF_BOOL();
#endif
}
#define SAVE CONN o = c0; int n0 = nsend, m0 = nrecv
#define IN_SAME ENS(c0.rbusy == o.rbusy && c0.indone == o.indone && c0.inerr == o.inerr, "the other direction is not affected")
#define OUT_SAME ENS(c0.sbusy == o.sbusy && c0.outdone == o.outdone && c0.outerr == o.outerr, "the other direction is not affected")
static int anyerr(void) { int e = VF_BOOL() ? EPIPE : (int)NDR(1, 133); return e; }
void st_send(void) {
    struct dill_iolist il = {NULL, 1, NULL, 0}; st_setup(); SAVE; xf = xl = &il; probing = VF_BOOL();
    sret = VF_BOOL() ? 0 : -1; serr = anyerr(); REQ(serr != EBUSY && serr != EPIPE);
    if(probing && c0.sbusy) VF_END();
    int rc = X(bsendl)(&c0.bvfs, &il, &il, DL), e = errno;
    IN_SAME; ENS(c0.outdone == o.outdone && c0.sbusy == o.sbusy, "no other state changes");
    if(o.sbusy) ENS(rc == -1 && e == EBUSY && nsend == n0 && c0.outerr == o.outerr, "one sender at a time");
    else if(o.outdone) ENS(rc == -1 && e == EPIPE && nsend == n0 && c0.outerr == o.outerr, "no sending after done");
    else if(o.outerr) ENS(rc == -1 && e == ECONNRESET && nsend == n0 && c0.outerr, "no sending after a failure");
    else { ENS(nsend == n0 + 1 && rc == sret, "sent once, the result is reported"); if(rc < 0) { ENS(e == serr && c0.outerr, "the failure is reported and remembered"); REACH("send failed"); } else { ENS(!c0.outerr, "no error"); REACH("sent"); } }
}
void st_recv(void) {
    struct dill_iolist il = {NULL, 1, NULL, 0}; st_setup(); SAVE; xf = xl = &il; probing = VF_BOOL();
    rret = VF_BOOL() ? 0 : -1; rerr = anyerr(); REQ(rerr != EBUSY);
    if(probing && c0.rbusy) VF_END();
    int rc = X(brecvl)(&c0.bvfs, &il, &il, DL), e = errno;
    OUT_SAME; ENS(c0.rbusy == o.rbusy, "the direction is free again");
    if(o.rbusy) ENS(rc == -1 && e == EBUSY && nrecv == m0, "one receiver at a time");
    else if(o.indone) ENS(rc == -1 && e == EPIPE && nrecv == m0, "nothing is received after the end of the stream");
    else if(o.inerr) ENS(rc == -1 && e == ECONNRESET && nrecv == m0, "nothing is received after a failure");
    else {
        ENS(nrecv == m0 + 1 && rc == rret, "received once, the result is reported");
        if(rc == 0) { ENS(!c0.indone && !c0.inerr, "no error"); REACH("received"); return; }
        ENS(e == rerr && c0.indone == (e == EPIPE) && c0.inerr == (e != EPIPE), "the end of the stream or the failure is remembered"); REACH("recv failed");
        return;
    }
    ENS(c0.indone == o.indone && c0.inerr == o.inerr, "no other state changes");
}
void st_done(void) {
    st_setup(); SAVE; shuterr = (int)NDR(0, 2); shuterr = shuterr == 0 ? 0 : shuterr == 1 ? ENOTCONN : ENOBUFS;
    int rc = X(done)(0, DL), e = errno;
    IN_SAME; ENS(nsend == n0 && nrecv == m0 && c0.sbusy == o.sbusy && known(0) && isfd(c0.fd), "the socket stays open");
    if(o.outdone) ENS(rc == -1 && e == EPIPE && !nshut && c0.outdone && c0.outerr == o.outerr, "the peer is told only once");
    else if(o.outerr) ENS(rc == -1 && !nshut && e == ECONNRESET && !c0.outdone, "no done after a failure");
    else if(!shuterr) { ENS(rc == 0 && nshut == 1 && c0.outdone && !c0.outerr, "the peer is told, the direction is closed"); REACH("done"); }
    else { ENS(rc == -1 && nshut == 1 && c0.outerr && !c0.outdone && e == (shuterr == ENOTCONN ? ECONNRESET : ENOMEM), "the failure is reported and remembered"); REACH("done failed"); }
    ENS(X(done)(3, DL) == -1 && errno == EBADF, "a bad handle is refused");
}
void st_close(void) {
    st_setup(); SAVE; shuterr = (int)NDR(0, 2); shuterr = shuterr == 0 ? 0 : shuterr == 1 ? ENOTCONN : ENOBUFS;
    rerr = anyerr(); REQ(rerr != EBUSY); xf = xl = NULL; me = NULL;
    int rc = X(close)(0, DL), e = errno;
    ENS(!known(0) && nopen() == 0 && nclosed == 1 && rxterm == 1, "the socket is released in every case, once");
    ENS(nsend == n0 && nrecv <= m0 + 1 && nshut <= 1, "no more than the closing exchange");
    int want = 0;
    if(o.inerr || o.outerr) { want = ECONNRESET; ENS(!nshut && nrecv == m0, "no exchange on a broken connection"); }
    else {
        ENS(nshut == !o.outdone, "the peer is told unless it was already");
        if(!o.outdone && shuterr) want = shuterr == ENOTCONN ? ECONNRESET : ENOMEM;
        else if(o.rbusy) want = EBUSY;
        else if(!o.indone) { ENS(nrecv == m0 + 1, "the peer's end of the stream is awaited"); if(rerr != EPIPE) want = rerr; }
    }
    ENS(rc == (want ? -1 : 0), "close succeeds if and only if the whole exchange did");
    if(want) { ENS(e == want, "the failure is reported"); REACH("close failed"); } else REACH("closed");
    ENS(X(close)(3, DL) == -1 && errno == EBADF && nclosed == 1, "a bad handle is refused");
}
#ifdef P_IPC
ssize_t vf_sendmsg(int s, const struct msghdr *m, int fl) {
    ENS(isfd(s) && s == wfd && (fl & MSG_NOSIGNAL), "sent to the socket, without a signal"); nsm++;
    const struct cmsghdr *c = m->msg_control;
    ENS(m->msg_iovlen == 1 && m->msg_iov->iov_len == 1 && m->msg_controllen >= CMSG_LEN(sizeof(int)) && c->cmsg_level == SOL_SOCKET && c->cmsg_type == SCM_RIGHTS && c->cmsg_len == CMSG_LEN(sizeof(int)), "one byte carrying one descriptor");
    ENS(*(int*)CMSG_DATA(c) == sm_fd, "the descriptor given is sent"); errno = sm_err; return sm_ret;
}
ssize_t vf_recvmsg(int s, struct msghdr *m, int fl) {
    ENS(isfd(s) && s == wfd && m->msg_iovlen == 1 && m->msg_iov->iov_len == 1 && m->msg_controllen >= CMSG_SPACE(sizeof(int)), "room for one byte and a descriptor"); nrm++;
    if(rm_ret > 0) {
        ((volatile char*)m->msg_iov->iov_base)[0] = 1; struct cmsghdr *c = m->msg_control;
        if(rm_kind == 0) m->msg_controllen = 0;
        else { c->cmsg_level = rm_kind == 3 ? 7 : SOL_SOCKET; c->cmsg_type = rm_kind == 2 ? 77 : SCM_RIGHTS; c->cmsg_len = CMSG_LEN(sizeof(int)); *(int*)CMSG_DATA(c) = sm_fd; m->msg_controllen = CMSG_SPACE(sizeof(int)); }
    }
    errno = rm_err; return rm_ret;
}
struct cmsghdr *__cmsg_nxthdr(struct msghdr *m, struct cmsghdr *c) { return NULL; }   /* there is one element */
void st_sendfd(void) {
    st_setup(); SAVE; sm_fd = (int)NDR(0, 100) - 1; sm_ret = VF_BOOL() ? 1 : -1; sm_err = anyerr(); K = VF_BOOL(); probing = VF_BOOL(); if(probing && c0.sbusy) VF_END();
    int bad = VF_BOOL();
    int rc = dill_ipc_sendfd(bad ? 3 : 0, sm_fd, DL), e = errno;
    IN_SAME; ENS(c0.outdone == o.outdone && c0.sbusy == o.sbusy, "no other state changes");
    if(bad) { ENS(rc == -1 && e == EBADF && !nsm, "a bad handle is refused"); return; }
    if(!o.scm_rights || sm_fd < 0 || o.sbusy || o.outdone || o.outerr) {
        ENS(rc == -1 && !nsm && c0.outerr == o.outerr && !step, "refused without effect");
        ENS((e == ENOTSUP && !o.scm_rights) || (e == EINVAL && sm_fd < 0) || (e == EBUSY && o.sbusy) || (e == EPIPE && o.outdone) || (e == ECONNRESET && o.outerr), "for the right reason"); REACH("refused"); return; }
    if(gfail) { ENS(rc == -1 && e == gerr && !nsm, "deadline expired"); return; }
    ENS(nsm == 1, "sent once");
    if(sm_ret > 0) { ENS(rc == 0 && !c0.outerr, "the descriptor was sent"); REACH("sent"); }
    else { ENS(rc == -1 && c0.outerr && e == (sm_err == EPIPE ? ECONNRESET : sm_err), "the failure is reported and remembered"); REACH("failed"); }
}
void st_recvfd(void) {
    st_setup(); SAVE; sm_fd = (int)NDR(0, 1000); rm_ret = (int)NDR(0, 2) - 1; rm_err = anyerr(); rm_kind = (int)NDR(0, 3); K = VF_BOOL(); probing = VF_BOOL(); if(probing && c0.rbusy) VF_END();
    int bad = VF_BOOL();
    int rc = dill_ipc_recvfd(bad ? 3 : 0, DL), e = errno;
    OUT_SAME; ENS(c0.rbusy == o.rbusy, "the direction is free again");
    if(bad) { ENS(rc == -1 && e == EBADF && !nrm, "a bad handle is refused"); return; }
    if(!o.scm_rights || o.rbusy || o.indone || o.inerr) {
        ENS(rc == -1 && !nrm && c0.inerr == o.inerr && c0.indone == o.indone && !step, "refused without effect");
        ENS((e == ENOTSUP && !o.scm_rights) || (e == EBUSY && o.rbusy) || (e == EPIPE && o.indone) || (e == ECONNRESET && o.inerr), "for the right reason"); REACH("refused"); return; }
    if(gfail) { ENS(rc == -1 && e == gerr && !nrm, "deadline expired"); return; }
    ENS(nrm == 1, "received once");
    if(rm_ret == 0) ENS(rc == -1 && e == EPIPE && c0.indone && !c0.inerr, "the end of the stream is reported and remembered");
    else if(rm_ret < 0) ENS(rc == -1 && e == rm_err && c0.inerr && !c0.indone, "the failure is reported and remembered");
    else if(rm_kind == 1) { ENS(rc == sm_fd && !c0.inerr && !c0.indone, "the descriptor is returned"); REACH("received"); }
    else { ENS(rc == -1 && e == EPROTO && c0.inerr && !c0.indone, "a message without a descriptor is refused"); REACH("no fd"); }
}
#endif
#else
static void during(int out) {}
static struct dill_udp_storage ust;
static void udp_case(int umx, int bad, int k, int loc, int rem, int port) {
    setup(AF_INET6, SOCK_DGRAM); um = umx; badarg = bad; K = k; gport = port;
    if(!loc && !rem) wfam = AF_INET;
    struct dill_udp_storage *m = bad == 1 ? NULL : &ust;
    int h = um ? dill_udp_open_mem(loc ? &A1 : NULL, rem ? &A2 : NULL, m) : dill_udp_open(loc ? &A1 : NULL, rem ? &A2 : NULL), e = errno;
    kdone();
    if(h < 0) of_failed(h, e);
    struct dill_udp_sock *o = (struct dill_udp_sock*)H[h]; of_ok(h, o->fd, &ust, 1);
    ENS(o->mem == um && !o->busy && o->hasremote == rem && F[o->fd - FD0].bound == loc, "the socket is as asked for");
    if(loc) ENS(gsetport == (port == 0), "an ephemeral port is reported");
    ENS(dill_hquery(h, dill_msock_type) == (void*)&o->mvfs, "it's a message socket"); REACH("opened");
    dill_hclose(h); of_closed();
}
void of_udp(void) {
    int c = (int)NDR(0, 1000), i = 0;
    for(int u = 0; u < 2; ++u) for(int l = 0; l < 2; ++l) for(int r = 0; r < 2; ++r) for(int p = 0; p < 1 + l; ++p) {
        for(int k = 0; k <= KMAX; ++k) if(c == i++) udp_case(u, 0, k, l, r, p * 77);
        if(u) for(int k = 0; k < 3; ++k) if(c == i++) udp_case(1, 1, k, l, r, p * 77); }
}
#endif
#include "vf_native.h"
