/* C10: SOCKS5 over a ghost bytestream. in[] is what the other side sends (any
   bytes); what is sent is compared with the RFC 1928/1929 sequence xb() at an
   arbitrary stream position W. The stream may fail at any step. */
#include "vf.h"
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
#undef errno
#define errno (*__errno_location())
static char t_b, t_m; const void *dill_bsock_type = &t_b, *dill_msock_type = &t_m;
static int failat, S, isb, failed, gerr, nio; static int64_t DL;
#ifndef SPARSE
#define SPARSE 0
#endif
/* Which witness is followed (0: all). */
#ifndef WIT
#define WIT 0
#endif
#ifndef INSZ
#define INSZ (260 + 514)
#endif
static uint8_t in[INSZ]; static size_t rpos, spos, W, Wn;
#if VF_PART == 1
#define RPS RP(0) RP(2) RP(4) RP(6) RP(7) RP(8) RP(9)
#elif VF_PART == 2
#define RPS else if(nio > 2) sparse(buf, in + rpos, len); RP(0) RP(2)
#else
#define RPS RP(0) RP(4) RP(5)
#endif
#ifndef EX
#define EX 257
#endif
static void jump(void); static size_t total(void); static size_t boundary(void); static size_t rlimit(void); static uint8_t xb(size_t i);
#ifdef VF_CBMC
static char user[300], pass[300], hostn[300]; static size_t ulen, plen, hlen;
size_t vf_strlen(const char *p) { ENS(p == user || p == pass || p == hostn, "length of the strings given"); return p == user ? ulen : p == pass ? plen : hlen; }
#define strlen vf_strlen
static size_t M1, M2;
/* Copies of an unknown length to an unknown place: exact at a few arbitrary
   positions (0, M1, M2 and the witness of the message being built); the other
   bytes of the (uninitialised) destination stay unconstrained. */
static void pin(uint8_t *d, const uint8_t *s, size_t n, size_t i) { if(i < n) d[i] = s[i]; }
static void sparse(uint8_t *d, const uint8_t *s, size_t n) { if(n) { ENS(__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n), "copies stay within the buffers"); }
    if(VF_PART != 1) { if(WIT != 1) pin(d, s, n, 0); if(WIT != 2) pin(d, s, n, M1); if(WIT != 1) pin(d, s, n, M2); } else pin(d, s, n, W - spos - __CPROVER_POINTER_OFFSET(d)); }
void *vf_memcpy(void *d, const void *s, size_t n) { ENS(n <= 256, "copies at most 256 bytes");
    if(n == 4) { for(int i = 0; i < 4; ++i) ((uint8_t*)d)[i] = ((const uint8_t*)s)[i]; return d; }
    if(n == 16) { for(int i = 0; i < 16; ++i) ((uint8_t*)d)[i] = ((const uint8_t*)s)[i]; return d; }
    if(SPARSE) { sparse(d, s, n); return d; }
    for(size_t i = 0; i < 256; ++i) if(i < n) ((uint8_t*)d)[i] = ((const uint8_t*)s)[i]; return d; }
#define memcpy vf_memcpy
void *vf_memchr(const void *p, int c, size_t n) { const uint8_t *q = p;
    if(VF_BOOL()) { size_t i = NDR(0, 255); REQ(i < n && q[i] == (uint8_t)c); return (void*)(q + i); }
    if(WIT != 2 && M1 < n) REQ(q[M1] != (uint8_t)c); if(WIT != 1 && M2 < n) REQ(q[M2] != (uint8_t)c); return NULL; }
#define memchr vf_memchr
#else
static char user[300], pass[300], hostn[300]; static size_t ulen, plen, hlen, M1, M2;
#endif
static void str(char *p, size_t *n) { *n = NDR(0, 299);
#ifdef VF_CBMC
    VF_HAVOC(p, 300);
#else
    if(NDR(0, 2) == 0) *n = NDR(1, 255);
    for(size_t i = 0; i < *n; ++i) p[i] = (char)NDR(1, 255);
#endif
    p[*n] = 0; }
void *dill_hquery(int h, const void *t) { if(h != S) { errno = EBADF; return NULL; } if(isb && t == dill_bsock_type) return (void*)1; errno = ENOTSUP; return NULL; }
int dill_bsend(int s, const void *buf, size_t len, int64_t d) {
    ENS(s == S && d == DL, "sends to the socket given with the deadline given"); ENS(!failed, "nothing is sent after a failure"); nio++;
    if(!isb) { failed = 1; errno = gerr = ENOTSUP; return -1; }
    ENS(spos + len <= boundary(), "nothing is sent out of turn");
    if(VF_NATIVE) for(size_t i = 0; i < len; ++i) ENS(((const uint8_t*)buf)[i] == xb(spos + i), "the exact bytes of the protocol are sent");
    if(spos <= W && W < spos + len) { ENS(((const uint8_t*)buf)[W - spos] == xb(W), "the exact bytes of the protocol are sent"); }
    if(nio == failat) { failed = 1; errno = gerr; return -1; }
    spos += len; return 0; }
int dill_brecv(int s, void *buf, size_t len, int64_t d) {
    ENS(s == S && d == DL, "receives from the socket given with the deadline given"); ENS(!failed, "nothing is received after a failure"); nio++;
    if(!isb) { failed = 1; errno = gerr = ENOTSUP; return -1; }
#if VF_STOP == 1
    if(rpos >= 2 && spos > 4) { ENS(spos == boundary(), "the credentials are sent"); REACH("credentials sent"); VF_END(); }
#elif VF_STOP == 2
    if(len && spos > 4 && spos == total()) { ENS(spos == boundary(), "the request is sent"); REACH("request sent"); VF_END(); }
#endif
    ENS(spos == boundary() || !len, "the peer is waited for only after everything was sent");
    ENS(rpos + len <= rlimit(), "nothing more is received than the peer will send");
    if(nio == failat) { failed = 1; errno = gerr; return -1; }
    REQ(rpos + len <= INSZ);
#ifdef VF_CBMC
    if(len == 1) ((uint8_t*)buf)[0] = in[rpos];
    else if(len == 2) { ((uint8_t*)buf)[0] = in[rpos]; ((uint8_t*)buf)[1] = in[rpos + 1]; }
    else { ENS(len <= 257, "receives at most 257 bytes at once"); if(0) ;
#define RP(c) else if(rpos == c) { for(size_t i = 0; i < EX; ++i) if(i < len) ((uint8_t*)buf)[i] = in[c + i]; }
    RPS
    else if(SPARSE) sparse(buf, in + rpos, len);
    else { for(size_t i = 0; i < 257; ++i) if(i < len) ((uint8_t*)buf)[i] = in[rpos + i]; } }
#else
    memcpy(buf, in + rpos, len);
#endif
    rpos += len; jump(); return 0; }
static char host[256]; static int kind; static uint8_t ip[16];
int vf_inet_pton(int af, const char *s, void *d) { ENS(s == hostn, "the host name given is examined");
    if(kind == 1 && af == AF_INET) { for(int i = 0; i < 4; ++i) ((uint8_t*)d)[i] = ip[i]; return 1; }
    if(kind == 4 && af == AF_INET6) { for(int i = 0; i < 16; ++i) ((uint8_t*)d)[i] = ip[i]; return 1; }
    return 0; }
static int ntop; static size_t WN;
const char *vf_inet_ntop(int af, const void *a, char *d, socklen_t n) { ENS(d == host && n >= INET6_ADDRSTRLEN && n <= 256, "formats into the caller's buffer"); ntop = af;
    ENS(((const uint8_t*)a)[WN & (af == AF_INET ? 3 : 15)] == in[4 + (WN & (af == AF_INET ? 3 : 15))], "the address received is formatted"); return d; }
#define inet_pton vf_inet_pton
#define inet_ntop vf_inet_ntop
static struct dill_ipaddr A; static int nrem, remrc;
int dill_ipaddr_family(const struct dill_ipaddr *a) { return ((const struct sockaddr*)a)->sa_family; }
int dill_ipaddr_port(const struct dill_ipaddr *a) { return ntohs(((const struct sockaddr_in*)a)->sin_port); }
int dill_ipaddr_remote(struct dill_ipaddr *a, const char *name, int port, int mode, int64_t d) {
    ENS(a == &A && d == DL && port == (int)(in[rlimit() - 2] * 256 + in[rlimit() - 1]), "the address is made of what was received"); nrem++;
    if(in[3] == 3) { ENS((uint8_t)name[in[4]] == 0 && (WN >= in[4] || (uint8_t)name[WN] == in[5 + WN]), "the name received is resolved");
        if(remrc) { errno = gerr; return -1; } }
    else ENS(mode == (in[3] == 1 ? DILL_IPADDR_IPV4 : DILL_IPADDR_IPV6), "the family received is used");
    struct sockaddr_in *s = (struct sockaddr_in*)a; s->sin_family = in[3] == 4 || (in[3] == 3 && mode == DILL_IPADDR_IPV6) ? AF_INET6 : AF_INET; s->sin_port = htons((uint16_t)port); return 0; }
#include "socks5.c"
static int nfn, fnrc; static size_t aub;
static int fn(const char *u, const char *p) { nfn++; ENS(rpos == rlimit(), "the credentials are received completely"); size_t n = in[aub + 1], m = in[aub + 2 + n];
    ENS(u[n] == 0 && p[m] == 0 && (WIT == 2 || M1 >= n || ((uint8_t)u[M1] == in[aub + 2 + M1] && u[M1])) && (WIT == 1 || M2 >= m || ((uint8_t)p[M2] == in[aub + 3 + n + M2] && p[M2])), "exactly the credentials received are checked");
    return fnrc; }
static void setup(void) {
    S = (int)NDR(0, 3); isb = NDR(0, 7) != 0; DL = ND(); W = NDR(0, 900); M1 = NDR(0, 255); M2 = NDR(0, 255); WN = M1; gerr = (int)NDR(1, 133);
#ifdef VF_CBMC
    VF_HAVOC(in, INSZ); VF_HAVOC(ip, 16);
#else
    for(size_t i = 0; i < INSZ; ++i) in[i] = (uint8_t)NDR(0, 255);
    for(size_t i = 0; i < 16; ++i) ip[i] = (uint8_t)NDR(0, 255);
    if(NDR(0, 3)) { in[0] = 5; if(VF_PART == 1) { in[1] = (uint8_t)(2 * NDR(0, 1)); in[2] = 1; in[3] = (uint8_t)(NDR(0, 1) * NDR(0, 255)); size_t b = in[1] ? 4 : 2; if(b == 2 || NDR(0, 1)) { in[b] = 5; in[b + 2] = 0; in[b + 1] = (uint8_t)NDR(0, 10); in[b + 3] = (uint8_t)(1 + NDR(0, 3)); } }
        if(VF_PART == 2) { if(NDR(0, 1)) in[1] = (uint8_t)NDR(1, 9); if(in[1]) in[2 + in[1] - 1] = (uint8_t)(2 * NDR(0, 1)); in[260] = 1; in[261] = (uint8_t)NDR(0, 255); }
        if(VF_PART == 3) { in[1] = (uint8_t)NDR(1, 3); in[2] = 0; in[3] = (uint8_t)(1 + NDR(0, 3)); } }
    if(NDR(0, 3)) isb = 1;
#endif
    VF_HAVOC(host, 256);
}
#if VF_PART == 1
/* Client: greeting, credentials, request; replies. */
static void jump(void) {}
static const char *U, *P; static int atyp, prt; static size_t G, AU, RQ, RB; static int meth;
static int chosen(void) { return in[0] == 5 && (in[1] == 0 || (in[1] == 2 && U && P)) ? in[1] : -1; }
static size_t boundary(void) {
    if(rpos < 2 || chosen() < 0) return G;
    if(chosen() == 0) return G + RQ;
    if(rpos < 4 || in[2] != 1 || in[3] != 0) return G + AU;
    return G + AU + RQ; }
static size_t total(void) { return G + RQ + (chosen() == 2 ? AU : 0); }
static size_t replen(size_t b) { if(rpos < b + 4) return b + 4; if(in[b] != 5 || in[b + 2]) return b + 4; if(in[b + 3] == 1) return b + 10; if(in[b + 3] == 4) return b + 22; if(in[b + 3] != 3) return b + 4;
    if(rpos < b + 5) return b + 5; return b + 7 + in[b + 4]; }
static size_t rlimit(void) { if(rpos < 2) return 2; if(chosen() == 0) return replen(2); if(chosen() < 0) return 2; if(rpos < 4) return 4; return replen(4); }
static uint8_t xb(size_t i) {
    if(i < G) return i == 0 ? 5 : i == 1 ? (U && P ? 2 : 1) : i == 2 ? 0 : 2;
    i -= G;
    if(chosen() == 2) { if(i < AU) return i == 0 ? 1 : i == 1 ? ulen : i < 2 + ulen ? U[i - 2] : i == 2 + ulen ? plen : P[i - 3 - ulen]; i -= AU; }
    if(i < 3) return i == 0 ? 5 : i == 1;
    if(i == 3) return atyp;
    if(i == RQ - 2) return prt / 256; if(i == RQ - 1) return prt % 256;
    if(atyp == 3) return i == 4 ? hlen : hostn[i - 5];
    return ip[i - 4]; }
static const int8_t xe[9] = {0, EIO, EACCES, ENETUNREACH, EHOSTUNREACH, ECONNREFUSED, ETIMEDOUT, EOPNOTSUPP, EAFNOSUPPORT};
static void s5_client_(void) {
    setup(); str(user, &ulen); str(pass, &plen); int einval;
#if VF_CRED
    U = user; P = pass;
#else
    U = VF_BOOL() ? user : NULL; P = VF_BOOL() ? pass : NULL;
    if(VF_STOP != 0) REQ(!U || !P || in[1] != 2);
#endif
    if(U && (ulen < 1 || ulen > 255)) einval = 1; else einval = P && (plen < 1 || plen > 255);
#if !VF_STOP
    W = 900;
#elif VF_CRED && VF_STOP == 2
    REQ(W < 4 || W >= 7 + ulen + plen);
#endif
    G = U && P ? 4 : 3; AU = U && P ? 3 + ulen + plen : 0; int rc;
#ifdef VF_BYNAME
    str(hostn, &hlen); int k = (int)NDR(0, 2); kind = atyp = k == 0 ? 1 : k == 1 ? 4 : 3; prt = VF_BOOL() ? (int)NDR(1, 65535) : (int)ND(); int nul = NDR(0, 7) == 7;
    RQ = atyp == 1 ? 10 : atyp == 4 ? 22 : 7 + hlen;
    if(nul || hlen < 1 || hlen > 255 || prt < 1 || prt > 65535) einval = 1;
    rc = dill_socks5_client_connectbyname(S, U, P, nul ? NULL : hostn, prt, DL);
#else
    int k = (int)NDR(0, 3), nul = k == 3; atyp = k == 0 ? 1 : 4; prt = (int)NDR(0, 65535); if(k >= 2) einval = 1;
    struct sockaddr_in *s4 = (void*)&A; struct sockaddr_in6 *s6 = (void*)&A; RQ = atyp == 1 ? 10 : 22;
    if(atyp == 1) { s4->sin_family = AF_INET; s4->sin_port = htons(prt); for(int i = 0; i < 4; ++i) ((uint8_t*)&s4->sin_addr)[i] = ip[i]; }
    else { s6->sin6_family = k == 1 ? AF_INET6 : AF_UNIX; s6->sin6_port = htons(prt); for(int i = 0; i < 16; ++i) ((uint8_t*)&s6->sin6_addr)[i] = ip[i]; }
    rc = dill_socks5_client_connect(S, U, P, nul ? NULL : &A, DL);
#endif
    int e = errno; size_t b = chosen() == 2 ? 4 : 2; int authok = rpos >= 2 && chosen() >= 0 && (chosen() == 0 || (rpos >= 4 && in[2] == 1 && in[3] == 0));
    ENS(rc == 0 || rc == -1, "success or failure");
    if(einval || !isb) { ENS(rc == -1 && (e == EINVAL || (!isb && e == ENOTSUP)) && (einval || e == ENOTSUP) && !spos && (!nio || !isb), "bad arguments are refused before anything is sent"); REACH("refused"); return; }
    if(failed) { ENS(rc == -1 && e == gerr, "failures of the stream are reported"); REACH("failed"); return; }
    if(!authok) { ENS(rc == -1 && spos == boundary() && rpos == (rpos < 4 && b == 2 ? 2 : 4), "the connection is made only if the proxy accepts");
        ENS(e == ((in[0] != 5) ? EPROTO : in[1] == 0xff || (b == 4 && in[2] == 1) ? EACCES : EPROTO), "the refusal is reported"); REACH("not accepted"); return; }
    if(rpos == b + 4) { ENS(rc == -1 && e == EPROTO && (in[b] != 5 || in[b + 2] != 0 || (in[b + 3] != 1 && in[b + 3] != 3 && in[b + 3] != 4)), "a malformed reply is refused"); REACH("malformed"); return; }
    ENS(spos == boundary() && (rpos == rlimit() || rc == -1), "everything is sent and the reply is consumed");
    ENS(in[b] == 5 && in[b + 2] == 0, "a malformed reply is refused");
    if(rc == 0) { ENS(in[b + 1] == 0 && rpos == rlimit(), "success only if the proxy reports it"); REACH("connected"); }
    else if(in[b + 1]) { ENS(e == (in[b + 1] <= 8 ? xe[in[b + 1]] : EPROTO) || (in[b + 3] == 3 && e == EPROTO), "the reason is reported"); REACH("rejected"); }
    else ENS(in[b + 3] == 3 && e == EPROTO, "success is reported");
    if(rc == -1 && in[b + 1] == 0) { ENS(in[b + 4] > 0, "only names can be bad"); int i = (int)(in[b + 4] > 0);
        if(M1 == 0 && in[b + 4] == 1) { ENS(in[b + 5] == 0, "only an embedded null is refused"); REACH("bad name"); } }
}
#endif
#if VF_PART == 2
/* Proxy: method negotiation and credentials. What follows the methods is kept
   in in[] at B. */
#define B ((size_t)260)
static int na, up, fnset;
static void jump(void) { if(rpos >= 2 && rpos < B && in[0] == 5 && rpos == 2u + in[1]) rpos = B; }
static size_t boundary(void) { if(rpos < 2 || in[0] != 5 || rpos < B) return 0; if(fnset && up && rpos > B) { size_t n = in[B + 1]; if(nfn) return 4; return 2; } return 2; }
static size_t rlimit(void) { if(rpos < 2) return 2; if(in[0] != 5) return 2; if(rpos < B) return 2 + in[1]; if(!(fnset && up)) return B; if(rpos < B + 2) return B + 2; if(in[B] != 1) return B + 2; if(rpos < B + 3 + in[B + 1]) return B + 3 + in[B + 1];
    return B + 3 + in[B + 1] + in[B + 2 + in[B + 1]]; }
static uint8_t xb(size_t i) { if(i == 0) return 5; if(i == 1) return !fnset && na ? 0 : fnset && up ? 2 : 0xff; if(i == 2) return 1; return fnrc ? 0 : 0xff; }
static void s5_auth_(void) {
    setup(); REQ(W < 4); fnset = FN; fnrc = (int)ND(); aub = B; na = up = 0;
    for(int i = 0; i < 255; ++i) if(i < in[1]) { if(in[2 + i] == 0) na = 1; if(in[2 + i] == 2) up = 1; }
    int rc = dill_socks5_proxy_auth(S, fnset ? fn : NULL, DL), e = errno;
    ENS(rc == 0 || rc == -1, "success or failure");
    if(!isb) { ENS(rc == -1 && !spos && e == ENOTSUP, "only bytestreams are used"); REACH("not a bytestream"); return; }
    if(failed) { ENS(rc == -1 && e == gerr, "failures of the stream are reported"); REACH("failed"); return; }
    if(in[0] != 5) { ENS(rc == -1 && e == EPROTO && !spos && rpos == 2, "an unknown version is refused"); REACH("bad version"); return; }
    ENS(rpos >= B, "the methods are received");
    if(!fnset || !up) {
        ENS(spos == 2 && rpos == B && rc == (!fnset && na ? 0 : -1) && (!rc || e == EACCES) && !nfn, "a method is chosen only if offered and allowed"); if(!rc) REACH("no auth"); else REACH("no method"); return; }
    if(in[B] != 1) { ENS(rc == -1 && e == EPROTO && spos == 2 && rpos == B + 2 && !nfn, "an unknown version is refused"); REACH("bad subversion"); return; }
    ENS(rpos == rlimit(), "the credentials are received"); size_t n = in[B + 1], m = in[B + 2 + n];
    if(nfn) { ENS(nfn == 1 && spos == 4 && rc == (fnrc ? 0 : -1) && (!rc || e == EACCES), "authentication succeeds exactly if the credentials are accepted"); if(rc) REACH("denied"); else REACH("accepted"); }
    else { ENS(rc == -1 && e == EPROTO && spos == 2, "failure is reported"); if(WIT != 1) ENS(n + m > 0 && (n > 1 || m || !in[B + 2]) && (m > 1 || n || !in[B + 3 + n]), "only an embedded null is refused"); REACH("embedded null"); }
}
#endif
#if VF_PART == 3
/* Proxy: commands and replies. */
static void jump(void) {}
static size_t sendlen; static int rep;
static size_t boundary(void) { return sendlen; }
static size_t rlimit(void) { if(rpos < 4) return 4; if(in[0] != 5 || in[2]) return 4; if(in[3] == 1) return 10; if(in[3] == 4) return 22; if(in[3] != 3) return 4; if(rpos < 5) return 5; return 7 + in[4]; }
static uint8_t xb(size_t i) { struct sockaddr_in *s4 = (void*)&A; struct sockaddr_in6 *s6 = (void*)&A; int v4 = s4->sin_family == AF_INET; const uint8_t *pp = (void*)&s4->sin_port;
    return i == 0 ? 5 : i == 1 ? rep : i == 2 ? 0 : i == 3 ? (v4 ? 1 : 4) : i == sendlen - 2 ? pp[0] : i == sendlen - 1 ? pp[1] : v4 ? ((uint8_t*)&s4->sin_addr)[i - 4] : ((uint8_t*)&s6->sin6_addr)[i - 4]; }
static int bad(int rc, int e) {
    ENS(!spos, "nothing is sent");
    if(!isb || failed) { ENS(rc == -1 && e == gerr, "failures of the stream are reported"); REACH("failed"); return 1; }
    if(rpos == 4) { ENS(rc == -1 && e == EPROTO && (in[0] != 5 || in[2] || (in[3] != 1 && in[3] != 3 && in[3] != 4)), "only malformed commands are refused"); REACH("malformed"); return 1; }
    ENS(rpos == rlimit() && in[0] == 5 && in[2] == 0, "the command is received");
    return 0; }
static void s5_cmd_(void) {
    setup(); remrc = VF_BOOL(); int rc = dill_socks5_proxy_recvcommand(S, &A, DL), e = errno; struct sockaddr_in *s4 = (void*)&A; struct sockaddr_in6 *s6 = (void*)&A;
    if(bad(rc, e)) return;
    if(in[1] < 1 || in[1] > 3) { ENS(rc == -1 && e == EPROTO, "unknown commands are refused"); REACH("unknown command"); return; }
    if(rc == -1) { ENS(in[3] == 3 && ((nrem && remrc && e == gerr) || (!nrem && e == EPROTO && in[4] > 0 && (in[4] > 1 || !in[5]))), "only bad names fail"); REACH("bad name"); return; }
    ENS(rc == in[1] && (in[3] != 3 || (nrem == 1 && !remrc)), "the command received is reported");
    if(in[3] == 3) { REACH("name"); return; }
    ENS(s4->sin_family == (in[3] == 1 ? AF_INET : AF_INET6) && ntohs(s4->sin_port) == in[rpos - 2] * 256 + in[rpos - 1], "the address received is reported");
    if(in[3] == 1) { ENS(((uint8_t*)&s4->sin_addr)[W & 3] == in[4 + (W & 3)], "the address received is reported"); REACH("ipv4"); }
    else { ENS(((uint8_t*)&s6->sin6_addr)[W & 15] == in[4 + (W & 15)], "the address received is reported"); REACH("ipv6"); }
}
static void s5_cmdname_(void) {
    setup(); int port = -1; int rc = dill_socks5_proxy_recvcommandbyname(S, host, &port, DL), e = errno;
    if(bad(rc, e)) return;
    if(in[1] < 1 || in[1] > 3) { ENS(rc == -1 && e == EPROTO, "unknown commands are refused"); REACH("unknown command"); return; }
    if(rc == -1) { ENS(in[3] == 3 && e == EPROTO && in[4] > 0 && (in[4] > 1 || !in[5]), "only bad names fail"); REACH("bad name"); return; }
    ENS(rc == in[1] && port == in[rpos - 2] * 256 + in[rpos - 1], "the command and the port received are reported");
    if(in[3] == 3) { ENS(!host[in[4]] && (M1 >= in[4] || (host[M1] && (uint8_t)host[M1] == in[5 + M1])), "the name received is reported"); REACH("name"); }
    else { ENS(ntop == (in[3] == 1 ? AF_INET : AF_INET6), "the address received is reported"); REACH("address"); }
}
static void s5_reply_(void) {
    setup(); rep = VF_BOOL() ? (int)NDR(0, 8) : (int)ND(); int k = (int)NDR(0, 2); struct sockaddr_in *s4 = (void*)&A;
    for(size_t i = 0; i < sizeof(A); ++i) ((uint8_t*)&A)[i] = (uint8_t)NDR(0, 255);
    s4->sin_family = k == 0 ? AF_INET : k == 1 ? AF_INET6 : AF_UNIX; sendlen = k == 0 ? 10 : 22;
    int rc = dill_socks5_proxy_sendreply(S, rep, &A, DL), e = errno; ENS(!rpos, "nothing is received");
    if(rep < 0 || rep > 8 || k == 2) { ENS(rc == -1 && e == EINVAL && !nio, "bad arguments are refused"); REACH("refused"); return; }
    if(!isb || failed) { ENS(rc == -1 && e == gerr, "failures of the stream are reported"); REACH("failed"); return; }
    ENS(rc == 0 && spos == sendlen, "the whole reply is sent"); REACH("sent");
}
#endif
/* An arbitrary step of the stream fails, or none. */
#define ENTRY(e) void e(void) { failat = (int)NDR(0, 9); e##_(); }
#if VF_PART == 1
ENTRY(s5_client)
#elif VF_PART == 2
ENTRY(s5_auth)
#else
ENTRY(s5_cmd) ENTRY(s5_cmdname) ENTRY(s5_reply)
#endif
#include "vf_native.h"
