/* C21: UDP send and receive over ghost datagrams. The kernel answers any
   sequence of datagrams (any sender, any size) and errors; loop by contract. */
#include "vf.h"
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
#include "fd.h"
#undef errno
extern int errno;
#undef errno
#define errno (*__errno_location())
static char t_b, t_m;
const void *dill_bsock_type = &t_b, *dill_msock_type = &t_m;
#define FD 33
#define ALEN 28
static int64_t DL; static struct dill_iolist *xf, *xl, I1; static size_t gniov; static int badl, gerr;
static void *oiov; static int nsm, nrm, nwait, lastev, smret, smerr; static const void *saddr; static ssize_t rsz; static int rsender, rtrunc;
enum { L_NONE, L_DGRAM, L_AGAIN, L_ERR };
static int curb(struct dill_msock_vfs *m); static struct dill_msock_vfs *curm;
int dill_iolcheck(struct dill_iolist *f, struct dill_iolist *l, size_t *n, size_t *b) {
    ENS(xf ? f == xf && l == xl : f == l && f, "the list given is checked");
    if(!xf) { ENS(f->iol_next == NULL && !f->iol_rsvd && f->iol_base == I1.iol_base && f->iol_len == I1.iol_len, "the buffer given is used"); xf = f; xl = l; }
    if(badl) { errno = EINVAL; return -1; } if(n) *n = gniov; if(b) *b = 0; return 0; }
void dill_ioltoiov(struct dill_iolist *f, struct iovec *v) { ENS(f == xf, "the list given is used"); if(gniov) { v[gniov - 1].iov_len = 1; v[0].iov_len = 1; } oiov = v; }
const struct sockaddr *dill_ipaddr_sockaddr(const struct dill_ipaddr *a) { return (const struct sockaddr*)a; }
int dill_ipaddr_len(const struct dill_ipaddr *a) { return ALEN; }
int dill_ipaddr_family(const struct dill_ipaddr *a) { return AF_INET6; }
int dill_ipaddr_port(const struct dill_ipaddr *a) { return 1; }
void dill_ipaddr_setport(struct dill_ipaddr *a, int p) {}
static const struct dill_ipaddr *remote_; static char *nameb;
int dill_ipaddr_equal(const struct dill_ipaddr *a, const struct dill_ipaddr *b, int f) {
    ENS(lastev == L_DGRAM && ((a == (void*)nameb && b == remote_) || (b == (void*)nameb && a == remote_)) && !f, "the sender is compared with the remote address");
    return rsender == ((const char*)remote_)[3]; }
int vf_hmake(struct dill_hvfs *v); int dill_hmake(struct dill_hvfs *v) { return -1; }
static struct dill_hvfs *qh; static int hkind;
void *dill_hquery(int h, const void *t) { if(h != 0) { errno = EBADF; return NULL; } if(hkind && t == dill_msock_type) return (void*)1; if(hkind) { errno = ENOTSUP; return NULL; } return qh->query(qh, t); }
int dill_hclose(int h) { return -1; }
int dill_fd_unblock(int s) { return -1; }
void dill_fd_close(int s) {}
ssize_t vf_sendmsg(int s, const struct msghdr *m, int fl) {
    ENS(s == FD && m->msg_iov == oiov && m->msg_iovlen == gniov && m->msg_name == saddr && m->msg_namelen == ALEN && !m->msg_controllen, "one datagram with the given data goes to the right address"); nsm++;
    errno = smerr; return smret; }
static int probing;
static void event(int e) { lastev = e; }
ssize_t vf_recvmsg(int s, struct msghdr *m, int fl) {
    ENS(s == FD && m->msg_iov == oiov && m->msg_iovlen == gniov && m->msg_name && m->msg_namelen >= ALEN && !m->msg_controllen && !fl, "one datagram is received into the buffers, with its sender"); nrm++;
    nameb = m->msg_name; m->msg_flags = 0;
    int k = (int)NDR(0, 3);
    if(k <= 1) { event(L_DGRAM); rsz = (ssize_t)NDR(0, 100000); rsender = (int)NDR(0, 3); rtrunc = VF_BOOL(); memset(nameb, 0, ALEN); nameb[3] = (char)rsender; m->msg_namelen = ALEN; if(rtrunc) m->msg_flags = MSG_TRUNC; errno = (int)NDR(0, 133); return rsz; }
    if(k == 2) { event(L_AGAIN); errno = EAGAIN; return -1; }
    event(L_ERR); gerr = VF_BOOL() ? ECONNREFUSED : (int)NDR(1, 133); if(gerr == EAGAIN) gerr = EIO; errno = gerr; return -1; }
int dill_fdin(int s, int64_t d) {
    ENS(s == FD && d == DL, "waits for the socket with the deadline given"); ENS(lastev == L_AGAIN, "waits only if there is nothing to receive");
    ENS(curb(curm), "the socket is in use while waiting"); nwait++;
    if(VF_BOOL()) { event(L_ERR); gerr = ETIMEDOUT; errno = gerr; return -1; }
    event(L_NONE); errno = (int)NDR(0, 133); return 0; }
#define sendmsg vf_sendmsg
#define recvmsg vf_recvmsg
#define hasr (mvfs_obj->hasremote)
#define DROPPED(o) (lastev == L_NONE || (lastev == L_DGRAM && (o)->hasremote && rsender != ((char*)&(o)->remote)[3]))
#define VF_INV_ur_ENTER ({ ENS(lastev == L_NONE && !obj->busy, "INV udp recv base"); lastev = VF_BOOL() ? L_NONE : L_DGRAM; rsender = (int)NDR(0, 3); REQ(DROPPED(obj)); rc = (int)ND(); ((char*)&raddr)[3] = (char)NDR(0, 3); hdr.msg_namelen = (socklen_t)NDR(ALEN, sizeof(struct dill_ipaddr)); hdr.msg_flags = 0; nrm = (int)NDR(0, 1000000); nwait = (int)NDR(0, 1000000); })
#define VF_INV_ur_STEP ({ ENS(DROPPED(obj), "INV udp recv step: only datagrams from others are dropped"); ENS(!obj->busy && hdr.msg_namelen >= ALEN, "INV udp recv step"); })
#include "udp.c"
static int curb(struct dill_msock_vfs *m) { struct dill_udp_sock *o = dill_cont(m, struct dill_udp_sock, mvfs);
    if(probing) { probing = 0; char b; int n = nrm, k = nsm; errno = 0;
        ENS(dill_udp_recv(0, NULL, &b, 1, DL) == -1 && errno == EBUSY && nrm == n, "a second user is refused");
        errno = 0; ENS(dill_udp_send(0, &o->remote, &b, 1) == -1 && errno == EBUSY && nsm == k, "a second user is refused"); }
    return o->busy; }
static struct dill_udp_sock S; static struct dill_ipaddr A;
static void setup(void) {
    memset(&S, 0, sizeof(S)); S.hvfs.query = dill_udp_hquery; S.hvfs.close = dill_udp_hclose; S.mvfs.msendl = dill_udp_msendl; S.mvfs.mrecvl = dill_udp_mrecvl;
    S.fd = FD; S.hasremote = VF_BOOL(); S.busy = VF_BOOL(); S.mem = 1; if(S.hasremote) ((char*)&S.remote)[3] = (char)NDR(0, 3);
    remote_ = &S.remote; qh = &S.hvfs; DL = ND(); badl = VF_BOOL(); curm = &S.mvfs; lastev = L_NONE;
    ((char*)&A)[3] = 9;
}
static struct dill_iolist l0, l1;
void ud_send(void) {
    setup(); int m = (int)NDR(0, 2), wa = VF_BOOL(), h = VF_BOOL() ? 0 : 5, bsy = S.busy; hkind = VF_BOOL();
    char b[4]; size_t n = NDR(0, 100000); gniov = m ? NDR(0, 1000) : 1;
    smret = VF_BOOL() ? (int)NDR(0, 100000) : -1; smerr = VF_BOOL() ? EAGAIN : (int)NDR(1, 133);
    const struct dill_ipaddr *a = wa && m != 2 ? &A : NULL; saddr = a ? a : &S.remote; int rc;
    if(m) { xf = &l0; xl = &l1; } else { I1.iol_base = b; I1.iol_len = n; }
    if(m == 0) rc = dill_udp_send(h, a, b, n);
    else if(m == 1) rc = dill_udp_sendl(h, a, &l0, &l1);
    else { h = hkind = 0; rc = S.mvfs.msendl(&S.mvfs, &l0, &l1, DL); }
    int e = errno;
    ENS(S.busy == bsy && S.fd == FD, "the socket's state is not changed");
    if(h || hkind) { ENS(rc == -1 && !nsm && e == (h ? EBADF : ENOTSUP), "only UDP sockets are used"); REACH("bad handle"); return; }
    if(bsy || (!a && !S.hasremote) || badl) { ENS(rc == -1 && !nsm && ((e == EBUSY && bsy) || (e == EINVAL && (badl || !(a || S.hasremote)))), "refused, nothing is sent"); REACH("refused"); return; }
    ENS(nsm == 1, "exactly one datagram is sent");
    if(smret >= 0) { ENS(rc == 0, "success"); REACH("sent"); }
    else if(smerr == EAGAIN) { ENS(rc == 0, "a datagram may be dropped"); REACH("dropped"); }
    else { ENS(rc == -1 && e == smerr, "errors are reported"); REACH("failed"); }
}
void ud_recv(void) {
    setup(); int m = (int)NDR(0, 2), wa = VF_BOOL(), h = VF_BOOL() ? 0 : 5, bsy = S.busy; hkind = VF_BOOL(); probing = VF_BOOL();
    char b[4]; size_t n = NDR(0, 100000); gniov = m ? NDR(0, 1000) : 1;
    struct dill_ipaddr *a = wa && m != 2 ? &A : NULL; ssize_t rc;
    if(m) { xf = &l0; xl = &l1; } else { I1.iol_base = b; I1.iol_len = n; }
    if(m == 0) rc = dill_udp_recv(h, a, b, n, DL);
    else if(m == 1) rc = dill_udp_recvl(h, a, &l0, &l1, DL);
    else { h = hkind = 0; rc = S.mvfs.mrecvl(&S.mvfs, &l0, &l1, DL); }
    int e = errno;
    ENS(S.busy == bsy && S.fd == FD, "the socket's state is not changed");
    if(h || hkind) { ENS(rc == -1 && !nrm && e == (h ? EBADF : ENOTSUP), "only UDP sockets are used"); REACH("bad handle"); return; }
    if(bsy || badl) { ENS(rc == -1 && !nrm && ((e == EBUSY && bsy) || (e == EINVAL && badl)), "refused, nothing is received"); REACH("refused"); return; }
    if(rc >= 0) {
        ENS(lastev == L_DGRAM && !rtrunc && rc == rsz, "the datagram's exact length is returned");
        ENS(!S.hasremote || rsender == ((char*)&S.remote)[3], "only datagrams from the right peer are returned");
        if(a) ENS(((char*)a)[3] == rsender, "the sender is reported"); REACH("received");
    } else {
        ENS(rc == -1, "failure");
        if(lastev == L_DGRAM) { ENS(rtrunc && e == EMSGSIZE && (!S.hasremote || rsender == ((char*)&S.remote)[3]), "only a datagram too long is refused"); REACH("too long"); }
        else { ENS(lastev == L_ERR && e == gerr, "errors are reported"); REACH("failed"); }
    }
}
#include "vf_native.h"
