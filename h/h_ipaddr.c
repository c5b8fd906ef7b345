/* C18: ipaddr.c. Literal conversion, interfaces and DNS answers are ghost
   contracts; the loops over interfaces and answers by loop contract. */
#include "vf.h"
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
#undef errno
extern int errno;
#undef errno
#define errno (*__errno_location())
#ifdef VF_CBMC
const struct in6_addr in6addr_any;
#endif
static int64_t DL; static const char NAME[] = "nm"; static const char *name_;
/* what the name means as a literal */
static int is4, is6; static uint8_t b4[4], b6[16];
int vf_inet_pton(int af, const char *n, void *dst) {
    ENS(n == name_ && (af == AF_INET || af == AF_INET6), "the name is parsed");
    if(af == AF_INET && is4) { memcpy(dst, b4, 4); return 1; }
    if(af == AF_INET6 && is6) { memcpy(dst, b6, 16); return 1; }
    return 0; }
static const void *ntsrc; static int ntaf; static char *ntbuf; static int ntn;
const char *vf_inet_ntop(int af, const void *src, char *d, socklen_t n) { ENS(af == ntaf && src == ntsrc && d == ntbuf && n >= (af == AF_INET ? INET_ADDRSTRLEN : INET6_ADDRSTRLEN), "the address is formatted"); ntn++; return d; }
/* interfaces */
#define NI 3
static struct ifaddrs I[NI]; static struct sockaddr_in6 IA[NI]; static char *inm[2] = {"nm", "xx"};
static int nif, iffreed, ifgot; static struct sockaddr_in6 R4, R6; static struct sockaddr_in6 *E4, *E6; static int rest4, rest6;
static void mkif(int i) {
    I[i].ifa_name = inm[VF_BOOL()]; I[i].ifa_addr = VF_BOOL() ? (struct sockaddr*)&IA[i] : NULL;
    IA[i].sin6_family = VF_BOOL() ? AF_INET : VF_BOOL() ? AF_INET6 : AF_PACKET; IA[i].sin6_port = (uint16_t)ND(); IA[i].sin6_flowinfo = (uint32_t)ND(); IA[i].sin6_scope_id = (uint32_t)ND();
    for(int k = 0; k < 16; ++k) IA[i].sin6_addr.s6_addr[k] = (uint8_t)ND(); }
static int m4(struct ifaddrs *p) { return p->ifa_addr && p->ifa_name == inm[0] && p->ifa_addr->sa_family == AF_INET; }
static int m6(struct ifaddrs *p) { return p->ifa_addr && p->ifa_name == inm[0] && p->ifa_addr->sa_family == AF_INET6; }
static void expect(void) { E4 = E6 = NULL; for(int i = 0; i < nif; ++i) { if(m4(&I[i]) && !E4) E4 = &IA[i]; if(m6(&I[i]) && !E6) E6 = &IA[i]; } }
int vf_getifaddrs(struct ifaddrs **p) { ENS(!ifgot, "read once"); ifgot = 1; *p = &I[0]; errno = (int)NDR(0, 133); return 0; }
void vf_freeifaddrs(struct ifaddrs *p) { ENS(p == &I[0] && ifgot && !iffreed, "the list is released, once"); iffreed = 1; errno = (int)NDR(0, 133);
    for(int i = 0; i < NI; ++i) { I[i].ifa_addr = NULL; } }
/* an arbitrary round: nodes found so far F4, F6 are I[1], I[2]; the current node is I[0] */
#define VF_INV_if_ENTER ({ ENS(it == ifaces && !ipv4 && !ipv6, "INV interfaces base"); \
    int h4_ = VF_BOOL(), h6_ = VF_BOOL(); REQ(!(h4_ && h6_)); \
    I[1].ifa_addr = (struct sockaddr*)&IA[1]; IA[1].sin6_family = AF_INET; I[2].ifa_addr = (struct sockaddr*)&IA[2]; IA[2].sin6_family = AF_INET6; \
    ipv4 = h4_ ? &I[1] : NULL; ipv6 = h6_ ? &I[2] : NULL; int end_ = VF_BOOL(); it = end_ ? NULL : &I[0]; I[0].ifa_next = VF_BOOL() ? &I[3 - 1] : NULL; \
    rest4 = VF_BOOL(); rest6 = VF_BOOL(); REQ(I[0].ifa_next || (!rest4 && !rest6)); \
    E4 = h4_ ? &IA[1] : !end_ && m4(&I[0]) ? &IA[0] : !end_ && rest4 ? &R4 : NULL; E6 = h6_ ? &IA[2] : !end_ && m6(&I[0]) ? &IA[0] : !end_ && rest6 ? &R6 : NULL; cut_ = 1; g4_ = ipv4; g6_ = ipv6; rc = (int)ND(); })
#define VF_INV_if_STEP ({ ENS(it == I[0].ifa_next, "INV interfaces step: every interface is examined"); ENS(ipv4 == (g4_ ? g4_ : m4(&I[0]) ? &I[0] : NULL) && ipv6 == (g6_ ? g6_ : m6(&I[0]) ? &I[0] : NULL), "INV interfaces step: the first address of each family is kept"); ENS(!(ipv4 && ipv6), "INV interfaces step"); })
static int cut_; static struct ifaddrs *g4_, *g6_;
/* DNS */
struct dns_addrinfo; struct dns_resolver; struct dns_resolv_conf; struct dns_hosts; struct dns_hints;
static int aiopen, nai, wtype, resopen, dnsfail, enterr, aiwait, nent, entfreed, curok; static char aio, reso, cfo, hso, hio;
static struct { struct addrinfo a; struct sockaddr_in6 sa; } *ent; static struct sockaddr_in6 entsa; static int entfam; static char wport[8];
#define dns_res_open vf_res_open
#define dns_res_close vf_res_close
#define dns_ai_open vf_ai_open
#define dns_ai_close vf_ai_close
#define dns_ai_nextent vf_ai_nextent
#define dns_ai_pollfd vf_ai_pollfd
#define dns_ai_events vf_ai_events
#define inet_pton vf_inet_pton
#define inet_ntop vf_inet_ntop
#define getifaddrs vf_getifaddrs
#define freeifaddrs vf_freeifaddrs
#include "dns/dns.h"
#define dns_resconf_local(rc) ((void)(rc), (void*)&cfo)
#define dns_hosts_local(rc) ((void)(rc), (void*)&hso)
#define dns_hints_local(c, rc) ((void)(rc), (void*)&hio)
#undef dns_opts
#define dns_opts() NULL
struct dns_resolver *vf_res_open(struct dns_resolv_conf *c, struct dns_hosts *h, struct dns_hints *i, struct dns_cache *k, const struct dns_options *o, int *e) { ENS(!resopen, "one resolver"); if(dnsfail == 1) { errno = EMFILE; return NULL; } resopen = 1; return (void*)&reso; }
void vf_res_close(struct dns_resolver *r) { ENS(resopen && (void*)r == &reso, "the resolver is released, once"); resopen = 0; }
struct dns_addrinfo *vf_ai_open(const char *n, const char *s, enum dns_type t, const struct addrinfo *h, struct dns_resolver *r, int *e) {
    ENS(n == name_ && resopen && (t == DNS_T_A || t == DNS_T_AAAA) && !aiopen, "the name is looked up"); wtype = t; if(dnsfail == 2) { *e = ENOMEM; return NULL; } aiopen = 1; nai++; return (void*)&aio; }
void vf_ai_close(struct dns_addrinfo *a) { ENS(aiopen && (void*)a == &aio, "the query is released, once"); aiopen = 0; }
#define LIMIT 6
static int nev, lastev;
int vf_ai_nextent(struct addrinfo **p, struct dns_addrinfo *a) {
    ENS(aiopen && (void*)a == &aio, "open query"); ENS(!ent, "every answer is released");
    int k = (int)NDR(0, 4); lastev = k; if(++nev > LIMIT && k < 2) k = 2;
    if(k == 0) { ent = malloc(sizeof(*ent)); if(!ent) VF_END(); nent++;
        ent->a.ai_addr = (struct sockaddr*)&ent->sa; entfam = VF_BOOL() ? AF_INET : VF_BOOL() ? AF_INET6 : AF_UNIX; ent->a.ai_family = entfam; memset(&entsa, 0, sizeof(entsa)); entsa.sin6_family = entfam; entsa.sin6_port = (uint16_t)ND(); entsa.sin6_flowinfo = (uint32_t)ND(); entsa.sin6_addr.s6_addr[15] = (uint8_t)ND(); ent->sa = entsa; *p = &ent->a; return 0; }
    if(k == 1) return EAGAIN; if(k == 2) return ENOENT; if(k == 3) return DNS_EBASE + 1;
    enterr = (int)NDR(1, 133); REQ(enterr != EAGAIN && enterr != ENOENT); return enterr; }
int vf_ai_pollfd(struct dns_addrinfo *a) { ENS(aiopen, "open query"); return 44; }
static int wev, waited, waiterr, cleaned;
int vf_ai_events(struct dns_addrinfo *a) { ENS(aiopen, "open query"); wev = VF_BOOL() ? DNS_POLLOUT : DNS_POLLIN; return wev; }
static int wait1(int fd, int64_t d, int ev) { ENS(fd == 44 && d == DL && ev == wev, "waits as asked, with the deadline given"); waited++; if(VF_BOOL()) { waiterr = ETIMEDOUT; errno = ETIMEDOUT; return -1; } errno = 0; return 0; }
int dill_fdin(int fd, int64_t d) { return wait1(fd, d, DNS_POLLIN); }
int dill_fdout(int fd, int64_t d) { return wait1(fd, d, DNS_POLLOUT); }
int dill_fdclean(int fd) { ENS(fd == 44, "the descriptor is forgotten"); cleaned = waited; errno = EPERM; return 0; }
static void vf_free(void *p) { ENS(ent && p == (void*)&ent->a, "answers are released, once"); if(!ent) VF_END(); free(ent); ent = NULL; }
static int wn, wb0; static struct dill_ipaddr *gbase; static int gn0, gres, gok; static struct sockaddr_in6 wit;
static int P;
static int entry_ok(struct dill_ipaddr *x, int fam) { return fam == AF_INET ? ((struct sockaddr_in*)x)->sin_family == AF_INET && ((struct sockaddr_in*)x)->sin_port == htons(P) : ((struct sockaddr_in6*)x)->sin6_family == AF_INET6 && ((struct sockaddr_in6*)x)->sin6_port == htons(P); }
#define WFAM (wtype == DNS_T_A ? AF_INET : AF_INET6)
#define VF_INV_dn_ENTER ({ ENS(nresults == 0 && naddrs > 0 && aiopen && !ent && (mode == DILL_IPADDR_IPV4) == (wtype == DNS_T_A), "INV answers base"); gbase = addrs; gn0 = naddrs; \
    nresults = (int)NDR(0, 100000); REQ(nresults <= gn0); gres = nresults; addrs = gbase + nresults; naddrs = gn0 - nresults; nev = 0; nent = 0; waited = cleaned = 0; it = NULL; rc = (int)ND(); \
    wn = (int)NDR(0, 100000); if(wn < nresults) { ((struct sockaddr_in*)&gbase[wn])->sin_family = WFAM; ((struct sockaddr_in*)&gbase[wn])->sin_port = htons(P); } })
#define VF_INV_dn_STEP ({ ENS(aiopen && !ent, "INV answers step"); int add_ = lastev == 0 && entfam == WFAM && gres < gn0; \
    ENS(nresults == gres + add_ && addrs == gbase + nresults && naddrs == gn0 - nresults, "INV answers step: matching answers are stored as long as there is room"); \
    if(add_) { ENS(entry_ok(&gbase[gres], WFAM), "INV answers step: the address and the port are stored"); ENS(((struct sockaddr_in6*)&gbase[gres])->sin6_flowinfo == entsa.sin6_flowinfo && (WFAM == AF_INET || ((struct sockaddr_in6*)&gbase[gres])->sin6_addr.s6_addr[15] == entsa.sin6_addr.s6_addr[15]), "INV answers step: the address is stored"); } \
    if(wn < gres) ENS(entry_ok(&gbase[wn], WFAM), "INV answers step: earlier answers are kept"); ENS(waited == cleaned, "INV answers step: the descriptor is forgotten after every wait"); })
#define free vf_free
#include "ipaddr.c"
#undef free
static struct dill_ipaddr A, B;
static int pickmode(void) { int m = (int)NDR(0, 4); return m == 0 ? 0 : m == 1 ? DILL_IPADDR_IPV4 : m == 2 ? DILL_IPADDR_IPV6 : m == 3 ? DILL_IPADDR_PREF_IPV4 : DILL_IPADDR_PREF_IPV6; }
static int okmode(int m) { return m == 0 || m == DILL_IPADDR_IPV4 || m == DILL_IPADDR_IPV6 || m == DILL_IPADDR_PREF_IPV4 || m == DILL_IPADDR_PREF_IPV6; }
static void setup(void) { DL = ND(); name_ = NAME; is4 = VF_BOOL(); is6 = VF_BOOL(); REQ(!(is4 && is6)); for(int i = 0; i < 16; ++i) { b6[i] = (uint8_t)ND(); if(i < 4) b4[i] = (uint8_t)ND(); ((uint8_t*)&A)[i] = (uint8_t)ND(); }
    for(int i = 0; i < NI; ++i) mkif(i); }
static void is_lit(struct dill_ipaddr *a, int mode, int port) {
    int v4 = is4; struct sockaddr_in *s4 = (void*)a; struct sockaddr_in6 *s6 = (void*)a;
    if(v4) ENS(s4->sin_family == AF_INET && s4->sin_port == htons(port) && !memcmp(&s4->sin_addr, b4, 4), "the literal's address and port");
    else ENS(s6->sin6_family == AF_INET6 && s6->sin6_port == htons(port) && !memcmp(&s6->sin6_addr, b6, 16) && !s6->sin6_flowinfo && !s6->sin6_scope_id, "the literal's address and port");
    ENS(dill_ipaddr_family(a) == (v4 ? AF_INET : AF_INET6) && dill_ipaddr_len(a) == (v4 ? sizeof(*s4) : sizeof(*s6)) && dill_ipaddr_port(a) == port && (void*)dill_ipaddr_sockaddr(a) == (void*)a, "accessors report family, length and port");
    char buf[DILL_IPADDR_MAXSTRLEN]; ntsrc = v4 ? (void*)&s4->sin_addr : (void*)&s6->sin6_addr; ntaf = v4 ? AF_INET : AF_INET6; ntbuf = buf;
    ENS(dill_ipaddr_str(a, buf) == buf && ntn == 1, "formatted"); ntn = 0;
}
#define ADM(mode) (is4 ? (mode) != DILL_IPADDR_IPV6 : is6 ? (mode) != DILL_IPADDR_IPV4 : 0)
void ip_local(void) {
    setup(); int mode = VF_BOOL() ? pickmode() : (int)ND(), port = VF_BOOL() ? (int)NDR(0, 65535) : (int)ND(), nn = VF_BOOL(), na = NDR(0, 9) == 0;
    nif = (int)NDR(1, NI); for(int i = 0; i < nif; ++i) I[i].ifa_next = i + 1 < nif ? &I[i + 1] : NULL; expect();
    struct dill_ipaddr *a = na ? NULL : &A; P = port;
    int rc = dill_ipaddr_local(a, nn ? NULL : NAME, port, mode), e = errno;
    if(na || port < 0 || port > 65535 || !okmode(mode)) { ENS(rc == -1 && e == EINVAL && !ifgot, "invalid arguments are refused"); REACH("refused"); return; }
    if(nn) {
        int v4 = mode == 0 || mode == DILL_IPADDR_IPV4 || mode == DILL_IPADDR_PREF_IPV4; static const uint8_t z[16];
        ENS(rc == 0 && dill_ipaddr_family(&A) == (v4 ? AF_INET : AF_INET6) && dill_ipaddr_port(&A) == port, "the wildcard address");
        if(v4) ENS(((struct sockaddr_in*)&A)->sin_addr.s_addr == 0, "the wildcard address"); else ENS(!memcmp(&((struct sockaddr_in6*)&A)->sin6_addr, z, 16), "the wildcard address"); REACH("any"); return; }
    if(ADM(mode)) { ENS(rc == 0 && !ifgot, "literals of a permitted family are accepted"); is_lit(&A, mode, port); REACH("literal"); return; }
    ENS(ifgot && iffreed, "the interface list is released");
    int p6 = mode == DILL_IPADDR_PREF_IPV6; struct sockaddr_in6 *w = mode == DILL_IPADDR_IPV4 ? E4 : mode == DILL_IPADDR_IPV6 ? E6 : p6 ? (E6 ? E6 : E4) : (E4 ? E4 : E6);
    if(!w) { ENS(rc == -1 && e == ENODEV, "no such interface"); REACH("no interface"); return; }
    ENS(rc == 0 && w != &R4 && w != &R6, "the interface's first address of the preferred family");
    ENS(dill_ipaddr_family(&A) == w->sin6_family && dill_ipaddr_port(&A) == port, "the interface's address, the port given");
    if(w->sin6_family == AF_INET) ENS(((struct sockaddr_in*)&A)->sin_addr.s_addr == ((struct sockaddr_in*)w)->sin_addr.s_addr, "the interface's address");
    else ENS(!memcmp(&((struct sockaddr_in6*)&A)->sin6_addr, &w->sin6_addr, 16) && ((struct sockaddr_in6*)&A)->sin6_scope_id == w->sin6_scope_id, "the interface's address");
    REACH("interface");
}
void ip_remote(void) {
    setup(); int mode = VF_BOOL() ? pickmode() : (int)ND(), port = VF_BOOL() ? (int)NDR(0, 65535) : (int)ND(), nn = NDR(0, 9) == 0, na = NDR(0, 9) == 0, one = VF_BOOL();
    REQ(is4 || is6); int n = one ? 1 : VF_BOOL() ? 2 : (int)ND(); if(n > 2) n = 2; static struct dill_ipaddr AA[2]; struct dill_ipaddr *a = na ? NULL : AA; int rc;
    REQ(ADM(mode) || !okmode(mode) || port < 0 || port > 65535 || nn || na || n <= 0);
    if(one) rc = dill_ipaddr_remote(a, nn ? NULL : NAME, port, mode, DL); else rc = dill_ipaddr_remotes(a, n, nn ? NULL : NAME, port, mode, DL);
    int e = errno;
    ENS(!nai && !aiopen, "no lookup");
    if(nn || na || n <= 0 || port < 0 || port > 65535 || !okmode(mode)) { ENS(rc == -1 && e == EINVAL, "invalid arguments are refused"); REACH("refused"); return; }
    ENS(rc == (one ? 0 : 1), "literals are accepted"); is_lit(&AA[0], mode, port); REACH("literal");
}
#ifndef NADDR
#define NADDR 4
#endif
void ip_dns(void) {
    setup(); is4 = is6 = 0; int mode = pickmode(); REQ(mode); P = (int)NDR(0, 65535); int n = (int)NDR(1, NADDR); dnsfail = (int)NDR(0, 9); 
    static struct dill_ipaddr AA[NADDR + 1]; ((char*)&AA[n])[5] = 77;
    int one = VF_BOOL(); if(one) n = 1;
    ((char*)&AA[n])[5] = 77;
    int rc = one ? dill_ipaddr_remote(AA, NAME, P, mode, DL) : dill_ipaddr_remotes(AA, n, NAME, P, mode, DL), e = errno;
    ENS(!aiopen && !resopen && !ent, "everything is released");
    ENS(((char*)&AA[n])[5] == 77, "no more addresses than asked for");
    if(rc < 0) { ENS(rc == -1, "failure"); if(dnsfail == 1) ENS(e == EMFILE, "the error is reported"); else if(dnsfail == 2) ENS(e == ENOMEM, "the error is reported"); else if(waiterr) ENS(e == ETIMEDOUT, "the deadline is reported"); else if(!one || e != EADDRNOTAVAIL) ENS(lastev == 4 && e == enterr, "the error is reported"); REACH("failed"); return; }
    if(one) { ENS(rc == 0, "one address"); rc = 1; }
    ENS(rc <= n, "no more addresses than asked for");
#ifdef CUT
    ENS(nai == 1 || nai == 2, "one or two lookups");
    { long k = gbase - AA; ENS(k >= 0 && k + gn0 == n && rc == k + gres, "the results are where they should be");
      if(mode == DILL_IPADDR_IPV4) ENS(nai == 1 && wtype == DNS_T_A, "only the family asked for"); if(mode == DILL_IPADDR_IPV6) ENS(nai == 1 && wtype == DNS_T_AAAA, "only the family asked for");
      if(nai == 1 && mode == DILL_IPADDR_PREF_IPV4) ENS(wtype == DNS_T_A && gres == n, "the preferred family first"); if(nai == 1 && mode == DILL_IPADDR_PREF_IPV6) ENS(wtype == DNS_T_AAAA && gres == n, "the preferred family first");
      if(nai == 2) ENS((mode == DILL_IPADDR_PREF_IPV4 && wtype == DNS_T_AAAA) || (mode == DILL_IPADDR_PREF_IPV6 && wtype == DNS_T_A), "the preferred family first");
      if(wn < gres) ENS(entry_ok(&gbase[wn], WFAM), "the addresses and ports are stored"); }
#else
    for(int i = 0; i < NADDR; ++i) if(i < rc) { int f = dill_ipaddr_family(&AA[i]);
        ENS(f == AF_INET || f == AF_INET6, "addresses"); ENS(entry_ok(&AA[i], f), "the port is stored");
        if(mode == DILL_IPADDR_IPV4) ENS(f == AF_INET, "only the family asked for"); if(mode == DILL_IPADDR_IPV6) ENS(f == AF_INET6, "only the family asked for");
        if(i) { int pf = dill_ipaddr_family(&AA[i - 1]); if(mode == DILL_IPADDR_PREF_IPV4) ENS(!(pf == AF_INET6 && f == AF_INET), "the preferred family first"); if(mode == DILL_IPADDR_PREF_IPV6) ENS(!(pf == AF_INET && f == AF_INET6), "the preferred family first"); } }
#endif
    REACH("found");
}
void ip_equal(void) {
    for(int i = 0; i < (int)sizeof(A); ++i) { ((uint8_t*)&A)[i] = (uint8_t)ND(); ((uint8_t*)&B)[i] = VF_BOOL() ? ((uint8_t*)&A)[i] : (uint8_t)ND(); }
    int f1 = VF_BOOL() ? AF_INET : AF_INET6, f2 = VF_BOOL() ? f1 : VF_BOOL() ? AF_INET : AF_INET6, ign = VF_BOOL() ? 0 : (int)ND();
    ((struct sockaddr*)&A)->sa_family = f1; ((struct sockaddr*)&B)->sa_family = f2; if(VF_BOOL()) { memcpy(&B, &A, sizeof(A)); f2 = f1; if(VF_BOOL()) ((uint8_t*)&B)[NDR(2, 27)] ^= 1; }
    struct dill_ipaddr a0 = A, b0 = B;
    int same = f1 == f2 && (ign || ((struct sockaddr_in*)&A)->sin_port == ((struct sockaddr_in*)&B)->sin_port) && (f1 == AF_INET ? ((struct sockaddr_in*)&A)->sin_addr.s_addr == ((struct sockaddr_in*)&B)->sin_addr.s_addr : !memcmp(&((struct sockaddr_in6*)&A)->sin6_addr, &((struct sockaddr_in6*)&B)->sin6_addr, 16));
    ENS(!!dill_ipaddr_equal(&A, &B, ign) == same, "equal exactly when family, address and port are");
    ENS(!!dill_ipaddr_equal(&B, &A, ign) == same, "symmetric"); if(same) REACH("equal"); else REACH("different");
    ENS(!memcmp(&A, &a0, sizeof(A)) && !memcmp(&B, &b0, sizeof(B)), "comparing changes nothing");
    int p = (int)NDR(0, 65535); dill_ipaddr_setport(&A, p);
    ENS(dill_ipaddr_port(&A) == p && ((uint8_t*)&A)[2] == p / 256 && ((uint8_t*)&A)[3] == p % 256, "the port is set, in network order");
    for(int i = 0; i < (int)sizeof(A); ++i) if(i != 2 && i != 3) ENS(((uint8_t*)&A)[i] == ((uint8_t*)&a0)[i], "nothing else changes");
    ENS(dill_ipaddr_equal(&A, &a0, 1) == 1, "equal but for the port");
    if(f1 == AF_INET) ENS(dill_ipaddr_len(&A) == sizeof(struct sockaddr_in), "length"); else ENS(dill_ipaddr_len(&A) == sizeof(struct sockaddr_in6), "length");
}
#include "vf_native.h"
