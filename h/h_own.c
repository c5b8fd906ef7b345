/* C20: ownership contracts of the layered protocols: attach, detach, close.
   The handle table (C01) and the protocols below are represented by ghost
   state; allocation, handle creation and every step may fail.
   P_PREFIX, P_SUFFIX, P_TERM, P_HTTP, P_WS select the real file. */
#include "vf.h"
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
#undef errno
extern int errno;
#undef errno
#define errno (*__errno_location())
static char t_b, t_m, t_p, t_s, t_t, t_h, t_w;
const void *dill_bsock_type = &t_b, *dill_msock_type = &t_m;
static int64_t DL;
static int gerr, gfail;
/* The K-th step that may fail does (0: none). The code under test stops at the
   first failure, so one failure per run covers everything; every K up to the
   number of steps is a case of its own. */
static int K, step;
static int failing(void) { if(++step == K) { if(!gfail) gerr = ETIMEDOUT; gfail = 1; errno = gerr; return 1; } return 0; }

/* ghost handles */
#define NG 12
#define OWN 1                 /* the object under test */
#define UND 2                 /* the underlying socket (possibly below other protocols) */
static struct { int live, kind; const char *store; size_t stsz; } G[NG];
static int gn, s0, s0bad, uclosed, selfh = -1; static struct dill_hvfs *selfv;
static char uobj; static int utype_ok;
static int nlive(void) { int n = 0; for(int i = 0; i < NG; ++i) n += G[i].live; return n; }
static int newh(int kind, void *st, size_t sz) { ENS(gn < NG, "a bounded number of handles is created"); int h = gn++; G[h].live = 1; G[h].kind = kind; G[h].store = st; G[h].stsz = sz;
    if(st) { ((volatile char*)st)[0] = 1; ((volatile char*)st)[sz - 1] = 1;
      for(int i = 0; i < NG; ++i) if(i != h && G[i].live && G[i].store) ENS(G[i].store + G[i].stsz <= (char*)st || (char*)st + sz <= G[i].store, "objects in use don't share memory"); }
    return h; }
static int known(int h) { return h >= 0 && h < NG && G[h].live; }
int dill_hown(int h) {
    if(s0bad && h == s0) { gfail = 1; errno = gerr = EBADF; return -1; }
    ENS(known(h), "only a live handle is taken over"); if(!known(h)) VF_END();
    G[h].live = 0;
    if(failing()) { uclosed++; return -1; }
    int n = newh(G[h].kind, NULL, 0); G[n].store = G[h].store; G[n].stsz = G[h].stsz; return n;
}
int dill_hclose(int h) {
    if(s0bad && h == s0) { errno = EBADF; return -1; }
    ENS(known(h), "only live handles are closed, once"); if(!known(h)) VF_END();
    G[h].live = 0;
    if(G[h].kind == OWN) selfv->close(selfv); else uclosed++;
    errno = ENOSYS;
    return 0;
}
int dill_hmake(struct dill_hvfs *v) {
    if(failing()) return -1;
    ENS(v && selfh < 0, "one handle"); selfv = v; ENS(v->query && v->close, "complete object");
    selfh = newh(OWN, NULL, 0); return selfh;
}
void *dill_hquery(int h, const void *type) {
    if(s0bad && h == s0) { if(!gfail) gerr = EBADF; gfail = 1; errno = EBADF; return NULL; }
    ENS(known(h), "only live handles are used"); if(!known(h)) VF_END();
    if(G[h].kind == OWN) return selfv->query(selfv, type);
    if(utype_ok == 0 && G[h].store == NULL) { gfail = 2; errno = ENOTSUP; return NULL; }
    if(utype_ok == 2 && G[h].store == NULL) { gfail = 1; errno = gerr = ENOMEM; return NULL; }
    return &uobj;
}
/* memory */
static void *gmem; static int gfreed;
static void *vf_malloc(size_t n) { ENS(!gmem, "one object"); if(++step == K) { gfail = 1; gerr = ENOMEM; errno = ENOMEM; return NULL; } gmem = malloc(n); if(!gmem) VF_END(); return gmem; }
static void vf_free(void *p) {
    if(!p) return;
    ENS(p == gmem && !gfreed, "only the allocated object is freed, once"); gfreed++;
    for(int i = 0; i < NG; ++i) if(G[i].live && G[i].store) ENS(!(G[i].store >= (char*)p && G[i].store < (char*)p + OBJSZ), "memory is not freed while in use");
    free(p);
}
/* transfers below */
int dill_bsendl(int s, struct dill_iolist *f, struct dill_iolist *l, int64_t d) { ENS(known(s), "live socket"); return failing() ? -1 : 0; }
int dill_bsend(int s, const void *b, size_t n, int64_t d) { ENS(known(s), "live socket"); return failing() ? -1 : 0; }
int dill_brecvl(int s, struct dill_iolist *f, struct dill_iolist *l, int64_t d) { ENS(known(s), "live socket"); return failing() ? -1 : 0; }
int dill_brecv(int s, void *b, size_t n, int64_t d) { ENS(known(s), "live socket"); return failing() ? -1 : 0; }
int dill_msendl(int s, struct dill_iolist *f, struct dill_iolist *l, int64_t d) { ENS(known(s), "live socket"); return failing() ? -1 : 0; }
int dill_msend(int s, const void *b, size_t n, int64_t d) { ENS(known(s), "live socket"); return failing() ? -1 : 0; }
ssize_t dill_mrecvl(int s, struct dill_iolist *f, struct dill_iolist *l, int64_t d) { ENS(known(s), "live socket"); return failing() ? -1 : 0; }
ssize_t dill_mrecv(int s, void *b, size_t n, int64_t d) { ENS(known(s), "live socket"); return failing() ? -1 : 0; }
int dill_ioltrim(struct dill_iolist *f, size_t n, struct dill_iolist *r) { return -1; }
int dill_iolto(const void *s, size_t n, struct dill_iolist *f) { return 0; }
int dill_iolcheck(struct dill_iolist *f, struct dill_iolist *l, size_t *a, size_t *b) { if(a) *a = 1; if(b) *b = 0; return 0; }

#if defined P_HTTP || defined P_WS
/* an inner protocol: takes over the handle in any case */
static int in_attach(int u, void *mem, size_t sz) {
    ENS(known(u), "a live handle is wrapped"); if(!known(u)) VF_END();
    ENS(mem != NULL, "storage is supplied");
    if(failing()) { G[u].live = 0; uclosed++; return -1; }
    G[u].live = 0; int h = newh(UND, mem, sz);
    if(G[u].store) { ENS(!(G[u].store + G[u].stsz > (char*)mem && (char*)mem + sz > G[u].store), "nested objects don't share memory"); }
    return h;
}
static int in_detach(int h, void *st, size_t sz) {
    ENS(known(h), "a live handle is detached"); if(!known(h)) VF_END();
    G[h].live = 0;
    if(failing()) { uclosed++; return -1; }
    int n = newh(UND, st, sz); return n;
}
#endif
#ifdef P_HTTP
static void *sufst;
int dill_suffix_attach_mem(int s, const void *x, size_t n, struct dill_suffix_storage *m) { ENS(n == 2 && ((char*)x)[0] == '\r' && ((char*)x)[1] == '\n', "lines end in CRLF"); sufst = m; return in_attach(s, m, sizeof(*m)); }
int dill_term_attach_mem(int s, const void *x, size_t n, struct dill_term_storage *m) { ENS(n == 0, "the header ends in an empty line"); return in_attach(s, m, sizeof(*m)); }
int dill_term_detach(int s, int64_t d) { ENS(d == DL, "deadline passed on"); return in_detach(s, sufst, sizeof(struct dill_suffix_storage)); }
int dill_suffix_detach(int s, int64_t d) { return in_detach(s, NULL, 0); }
int dill_term_done(int s, int64_t d) { return failing() ? -1 : 0; }
const char *dill_lstrip(const char *s, char d) { return s; }
const char *dill_rstrip(const char *s, char d) { return s; }
#endif
#ifdef P_WS
static int KEYSEEN, EXPECT101;
static int FK = -1, FGOOD, FUP, FFLAGS, FBADST;
static const char CK[] = "dGhlIHNhbXBsZSBub25jZQ==", RK[] = "s3pPLBiTxaQ9kYGzzhZRbK+xOo=";
static int is_client, sf_phase;          /* handshake state */
static int rq_sent, f_host, f_upg, f_con, f_key, f_ver, done_sent;   /* what was sent */
static int r_101, r_host, r_upg, r_con, r_key, r_ver, r_end, r_bad;  /* what was received */
static char HOSTV[4]; static int gget;
int dill_http_attach_mem(int s, struct dill_http_storage *m) { return in_attach(s, m, sizeof(*m)); }
int dill_http_detach(int s, int64_t d) { ENS(d == DL, "deadline passed on"); return in_detach(s, NULL, 0); }
int dill_http_done(int s, int64_t d) { ENS(known(s), "live socket"); if(failing()) return -1; done_sent++; return 0; }
int dill_http_sendrequest(int s, const char *c, const char *r, int64_t d) { ENS(known(s) && d == DL, "live socket"); ENS(!strcmp(c, "GET") && !strcmp(r, "/r"), "the request names the resource"); if(failing()) return -1; rq_sent++; return 0; }
int dill_http_sendstatus(int s, int st, const char *r, int64_t d) { ENS(known(s) && d == DL && st == 101, "the upgrade is accepted with 101"); ENS(r_end, "the whole request was read"); if(failing()) return -1; rq_sent++; return 0; }
int dill_http_sendfield(int s, const char *n, const char *v, int64_t d) {
    ENS(known(s) && d == DL && rq_sent == 1, "fields follow the start line"); if(failing()) return -1;
    if(!strcmp(n, "Host")) { ENS(!strcmp(v, "hh"), "host as given"); f_host++; }
    else if(!strcmp(n, "Upgrade")) { ENS(!strcmp(v, "websocket"), "websocket"); f_upg++; }
    else if(!strcmp(n, "Connection")) { ENS(!strcmp(v, "Upgrade"), "upgrade"); f_con++; }
    else if(!strcmp(n, "Sec-WebSocket-Key")) { ENS(is_client && !strcmp(v, CK), "the key generated"); f_key++; }
    else if(!strcmp(n, "Sec-WebSocket-Accept")) { ENS(!is_client && !strcmp(v, RK), "the key derived from the client's"); f_key++; }
    else if(!strcmp(n, "Sec-WebSocket-Version")) { ENS(!strcmp(v, "13"), "version 13"); f_ver++; }
    return 0;
}
int dill_http_recvstatus(int s, char *r, size_t n, int64_t d) { ENS(known(s) && d == DL && n > 0, "live socket"); ENS(done_sent == 1, "the request is complete"); if(failing()) return -1; r[0] = 0; r[n - 1] = 0; int st = FK >= 0 ? (FBADST ? 200 : 101) : VF_BOOL() ? 101 : (int)NDR(100, 599); r_101 = st == 101; return st; }
int dill_http_recvrequest(int s, char *c, size_t cn, char *r, size_t rn, int64_t d) { ENS(known(s) && d == DL && cn >= 4, "live socket"); if(failing()) return -1; r[0] = 0; r[rn - 1] = 0; gget = FK >= 0 ? !FBADST : VF_BOOL(); strcpy(c, gget ? "GET" : "PUT"); c[cn - 1] = 0; return 0; }
static int other_val(char *v) { v[0] = 'a'; v[1] = 'b'; v[2] = 'c'; v[3] = 0; return 0; }
/* the field received: its name, whether the value is good, spelling (-1: any) */
int dill_http_recvfield(int s, char *n, size_t nn, char *v, size_t vn, int64_t d) {
    ENS(known(s) && d == DL && nn >= 32 && vn >= 32 && !r_end, "live socket");
    if(failing()) return -1;
    n[nn - 1] = 0; v[vn - 1] = 0;
    int k = FK, good = FGOOD, up = FUP; if(FK < 0) { k = (int)NDR(0, 7); good = VF_BOOL(); up = VF_BOOL(); }
    other_val(v);
    if(k == 0) { r_end = 1; errno = EPIPE; return -1; }
    if(k == 1) { strcpy(n, up ? "host" : "Host"); r_host++; if(r_host == 1) memcpy(HOSTV, v, 4); }
    else if(k == 2) { strcpy(n, up ? "UPGRADE" : "Upgrade"); if(good) strcpy(v, up ? "WebSocket" : "websocket"); else r_bad = 1; r_upg++; }
    else if(k == 3) { strcpy(n, up ? "connection" : "Connection"); if(good) strcpy(v, up ? "upgrade" : "Upgrade"); else r_bad = 1; r_con++; }
    else if(k == 4) { strcpy(n, up ? "sec-websocket-key" : "Sec-WebSocket-Key"); if(good) strcpy(v, CK); else if(!is_client) r_bad = 1; if(!is_client) r_key++; }
    else if(k == 5) { strcpy(n, up ? "sec-websocket-accept" : "Sec-WebSocket-Accept"); if(good) strcpy(v, RK); else if(is_client) r_bad = 1; if(is_client) r_key++; }
    else if(k == 6) { strcpy(n, up ? "sec-websocket-version" : "Sec-WebSocket-Version"); if(good) strcpy(v, "13"); else if(!is_client) r_bad = 1; r_ver++; }
    else strcpy(n, "X-Other");
    return 0;
}
int vf_reqkey(char *k) { if(failing()) return -1; strcpy(k, CK); return 0; }
int vf_respkey(const char *q, char *r) { if(strcmp(q, CK)) { errno = EPROTO; return -1; } if(failing()) return -1; strcpy(r, RK); return 0; }
void dill_puts(uint8_t *b, uint16_t v) { b[0] = v >> 8; b[1] = (uint8_t)v; }
void dill_putll(uint8_t *b, uint64_t v) { for(int i = 0; i < 8; ++i) b[i] = v >> (56 - 8 * i); }
uint16_t dill_gets(const uint8_t *b) { return (b[0] << 8) | b[1]; }
uint64_t dill_getll(const uint8_t *b) { return 0; }
int dill_random(uint8_t *b, size_t n) { return 0; }
int dill_base64_encode(const uint8_t *a, size_t b, char *c, size_t d) { return -1; }
int dill_base64_decode(const char *a, size_t b, uint8_t *c, size_t d) { return -1; }
#define FLAGI(x) ((x) == 0 || (x) == 1)
#define VF_INV_cl_ENTER ({ ENS(!has_upgrade && !has_connection && !has_key, "INV client handshake base"); has_upgrade = FFLAGS & 1; has_connection = !!(FFLAGS & 2); has_key = !!(FFLAGS & 4); err = 12345; rc = 12345; r_upg = has_upgrade; r_con = has_connection; r_key = has_key; r_host = 3; r_ver = 2; })
#define HSI(n) ENS(!r_bad && !r_end && r_upg == has_upgrade && r_con == has_connection && r_key == has_key && FLAGI(has_upgrade) && FLAGI(has_connection) && FLAGI(has_key) && !gfail && known(s), n)
#define VF_INV_cl_STEP HSI("INV client handshake step")
#define VF_INV_sv_ENTER ({ ENS(!has_upgrade && !has_connection && !has_key && !has_host && !has_version, "INV server handshake base"); has_upgrade = FFLAGS & 1; has_connection = !!(FFLAGS & 2); has_key = !!(FFLAGS & 4); has_host = !!(FFLAGS & 8); has_version = !!(FFLAGS & 16); err = 12345; rc = 12345; \
    r_upg = has_upgrade; r_con = has_connection; r_key = has_key; r_host = has_host; r_ver = has_version; if(has_key) strcpy(response_key, RK); if(has_host) { other_val(HOSTV); HOSTV[hostlen - 1] = 0; strcpy(host, HOSTV); } })
#define VF_INV_sv_STEP ({ HSI("INV server handshake step"); ENS(r_host == has_host && r_ver == has_version && FLAGI(has_host) && FLAGI(has_version), "INV server handshake step"); if(has_key) ENS(!strcmp(response_key, RK), "INV server handshake step"); if(has_host) ENS(!strcmp(host, HOSTV), "INV server handshake step"); })
#endif

static void *vf_memcpy(void *d, const void *s, size_t n) { return n ? memcpy(d, s, n) : d; }   /* no bytes: harmless */
#define memcpy vf_memcpy
#define malloc vf_malloc
#define free vf_free
#ifdef P_PREFIX
#include "prefix.c"
#define SOCK struct dill_prefix_sock
#define STOR struct dill_prefix_storage
#endif
#ifdef P_SUFFIX
#include "suffix.c"
#define SOCK struct dill_suffix_sock
#define STOR struct dill_suffix_storage
#endif
#ifdef P_TERM
#include "term.c"
#define SOCK struct dill_term_sock
#define STOR struct dill_term_storage
ssize_t vf_mrecvl(struct dill_msock_vfs *v, struct dill_iolist *f, struct dill_iolist *l, int64_t d) {
    struct dill_term_sock *self = dill_cont(v, struct dill_term_sock, mvfs);
    ENS(known(self->u), "live socket"); if(self->indone) { errno = EPIPE; return -1; } if(failing()) return -1; self->indone = 1; errno = EPIPE; return -1;
}
#endif
#ifdef P_HTTP
#include "http.c"
#define SOCK struct dill_http_sock
#define STOR struct dill_http_storage
#endif
#ifdef P_WS
#include "ws.c"
#define SOCK struct dill_ws_sock
#define STOR struct dill_ws_storage
ssize_t vf_recvl(struct dill_msock_vfs *v, int *flags, struct dill_iolist *f, struct dill_iolist *l, int64_t d) {
    struct dill_ws_sock *self = dill_cont(v, struct dill_ws_sock, mvfs);
    ENS(known(self->u), "live socket"); if(self->indone) { errno = EPIPE; return -1; } if(failing()) return -1; self->indone = 1; errno = EPIPE; return -1;
}
int vf_sendl(struct dill_msock_vfs *v, uint8_t t, struct dill_iolist *f, struct dill_iolist *l, int64_t d) {
    struct dill_ws_sock *self = dill_cont(v, struct dill_ws_sock, mvfs);
    ENS(known(self->u), "live socket"); if(self->outdone) { errno = EPIPE; return -1; } return failing() ? -1 : 0;
}
#endif
#undef malloc
#undef free
#undef memcpy

static SOCK store; static int anyarg, anyn = -1; static int usemem, badarg;
static void start(int sk, int ut) {
    DL = ND(); gn = 5; s0 = newh(UND, NULL, 0); s0bad = sk > 0; if(s0bad) { G[s0].live = 0; if(sk == 2) s0 = -1; }
    utype_ok = ut; errno = 0;
}
/* badarg: 0 fine, 1 no storage, 2 and 3 other arguments */
static int attach(void) {
    static uint8_t sfx[40]; static char res[8], host[4]; STOR *m = badarg == 1 ? NULL : (STOR*)&store;
    size_t n = anyarg ? (anyn >= 0 ? anyn : NDR(0, 40)) : badarg == 3 ? 33 : usemem ? 32 : 1; int fl = anyarg ? (int)ND() : 0;
    (void)n; (void)fl; (void)sfx; (void)res; (void)host;
#ifdef P_PREFIX
    if(badarg >= 2) n = 0; else REQ(n > 0);
    return usemem ? dill_prefix_attach_mem(s0, n, fl, m) : dill_prefix_attach(s0, n, fl);
#endif
#ifdef P_SUFFIX
    uint8_t *p = sfx;
    if(badarg == 2) p = NULL; else if(badarg == 3) REQ(n == 0 || n > 32); else REQ(n > 0 && n <= 32);
    return usemem ? dill_suffix_attach_mem(s0, p, n, m) : dill_suffix_attach(s0, p, n);
#endif
#ifdef P_TERM
    uint8_t *p = sfx;
    if(badarg == 2) { p = NULL; REQ(n > 0); } else if(badarg == 3) REQ(n > 32); else { REQ(n <= 32); if(n == 0 && VF_BOOL()) p = NULL; }
    return usemem ? dill_term_attach_mem(s0, p, n, m) : dill_term_attach(s0, p, n);
#endif
#ifdef P_HTTP
    return usemem ? dill_http_attach_mem(s0, m) : dill_http_attach(s0);
#endif
#ifdef P_WS
    int nohttp = NOHTTP ? DILL_WS_NOHTTP : 0, text = usemem ? DILL_WS_TEXT : 0;
#ifdef P_CLIENT
    is_client = 1; const char *rs = "/r", *hs = "hh";
    if(badarg == 2) rs = NULL; else if(badarg == 3) hs = NULL;
    int h = usemem ? dill_ws_attach_client_mem(s0, nohttp | text, rs, hs, m, DL) : dill_ws_attach_client(s0, nohttp | text, rs, hs, DL);
#else
    is_client = 0; size_t hl = usemem ? 4 : 3;
    int h = usemem ? dill_ws_attach_server_mem(s0, nohttp | text, res, 8, host, hl, m, DL) : dill_ws_attach_server(s0, nohttp | text, res, 8, host, hl, DL);
#endif
    if(h >= 0) {
        if(nohttp) ENS(!rq_sent && !r_end, "no handshake is made");
        else {
            ENS(r_end && !r_bad && r_upg == 1 && r_con == 1 && r_key == 1, "the upgrade was agreed on");
            ENS(rq_sent == 1 && f_upg == 1 && f_con == 1 && f_key == 1, "our side of the handshake is complete");
#ifdef P_CLIENT
            ENS(r_101 && f_host == 1 && f_ver == 1 && done_sent == 1, "our side of the handshake is complete");
#else
            ENS(gget && r_host == 1 && r_ver == 1, "the request is complete");
            ENS(!strcmp(host, HOSTV) && strlen(HOSTV) < hl, "the host is reported");
#endif
            REACH("handshake done");
        }
        SOCK *o = (SOCK*)selfv; ENS(o->server == !is_client && o->flags == (nohttp | text) && !o->indone && !o->outdone && !o->inerr && !o->outerr && o->u >= 0, "the socket is ready");
    } else if(errno == EPROTO && !gfail) REACH("handshake refused");
    return h;
#endif
}
/* everything that was taken over is released */
static void all_gone(void) {
    ENS(nlive() == 0, "no handle is leaked");
    ENS(uclosed == !s0bad, "the underlying socket is closed, once");
    ENS(!gmem || gfreed == 1, "no memory is leaked");
}
static int opened(int sk, int ut) {
    start(sk, ut);
    int h = attach(), e = errno;
    if(h < 0) {
        ENS(h == -1, "failure");
        ENS(gfail || badarg || e == EPROTO || e == EMSGSIZE, "fails only if something failed");
        if(gfail == 1 && !badarg) ENS(e == gerr, "the error is reported");
        if(gfail == 0 && badarg) ENS(e == EINVAL, "invalid arguments are refused");
        ENS(e > 0, "errno is set"); all_gone();
        if(gfail) REACH("attach failed"); else if(badarg) REACH("attach refused");
        return -1;
    }
    ENS(!s0bad && !badarg && !gfail, "succeeds only if everything succeeded");
    ENS(h == selfh && known(h) && nlive() == 2 && !uclosed, "the new handle and what it owns are all that is left");
    ENS(!known(s0), "the old handle is not valid any more");
    ENS(usemem ? (void*)selfv == (void*)&store && !gmem : gmem && (void*)selfv == gmem && !gfreed, "the object is where it should be");
    REACH("attached");
    return h;
}
#ifndef KMAX
#define KMAX 6
#endif
#ifdef P_CLIENT
#define LOOPK 12
#define is_client_side 1
#else
#define LOOPK 4
#define is_client_side 0
#endif
#ifdef P_HTTP
#define BADS 1
#elif defined P_PREFIX
#define BADS 2
#elif defined P_WS && NOHTTP
#define BADS 1
#elif defined P_WS && !defined P_CLIENT
#define BADS 1
#else
#define BADS 3
#endif
static void close_case(int sk, int ut) {
    int h = opened(sk, ut);
#ifndef UNCUT
    ENS(step <= KMAX, "every step was a case");
#endif
    if(h < 0) VF_END();
    dill_hclose(h);
    all_gone(); ENS(usemem || gfreed, "memory is released"); REACH("closed"); VF_END();
}
void own_close(void) {
    int c = (int)NDR(0, 10000), i = 0; usemem = VF_BOOL();
    for(int um = 0; um < 2; ++um) {
        for(int b = 1; b <= BADS; ++b) if(um || b > 1) for(int sk = 0; sk < 3; ++sk) for(int k = 0; k < 4; ++k) if(c == i++) { usemem = um; badarg = b; K = k; close_case(sk, 1); }
        for(int sk = 1; sk < 3; ++sk) for(int k = 0; k < 3; ++k) if(c == i++) { usemem = um; K = k; close_case(sk, 1); }
        for(int ut = 0; ut < 3; ut += 2) for(int k = 0; k < 4; ++k) if(c == i++) { usemem = um; K = k; close_case(0, ut); }
        for(int k = 0; k <= KMAX; ++k) if(c == i++) { usemem = um; K = k; close_case(0, 1); }
    }
}
/* the whole opening handshake of a WebSocket */
#ifdef P_WS
static void hs_case(int um, int k, int fk, int good, int up, int fl) { usemem = um; K = k; FK = fk; FGOOD = good; FUP = up; FFLAGS = fl; close_case(0, 1); }
#ifndef CLO
#define CLO 0
#define CHI 9999
#endif
#define C_() (c == i++ && i > CLO && i <= CHI)
#define ALLF (is_client_side ? 7 : 31)
void own_hs(void) {
    int c = (int)NDR(0, 10000), i = 0;
#ifdef UNCUT
    usemem = VF_BOOL(); K = VF_BOOL() ? 0 : c % (KMAX + 1); badarg = NDR(0, 9) ? 0 : (int)NDR(1, BADS); FK = -1; (void)i;
    if(badarg == 1) usemem = 1;
    close_case(0, 1);
#else
    /* one round of the loop, from every state, for every kind of field */
    for(int fl = 0; fl <= ALLF; ++fl) for(int fk = 1; fk < 7; ++fk) for(int good = !(fl == 0 || fl == ALLF); good < 2; ++good) if(C_()) hs_case(1, 0, fk, good, fl & 1, fl);
    for(int fk = 1; fk < 7; ++fk) for(int up = 0; up < 2; ++up) if(C_()) hs_case(1, 0, fk, 1, up, 0);
    /* the last field was read, in every state */
    for(int fl = 0; fl <= ALLF; ++fl) if(C_()) hs_case(1, 0, 0, 0, 0, fl);
    /* failures of every step */
    for(int k = 1; k <= KMAX; ++k) if(C_()) hs_case(1, k, 0, 0, 0, ALLF);
    for(int k = LOOPK; k <= KMAX; ++k) if(C_()) hs_case(1, k, is_client_side ? 5 : 4, 1, 0, 0);
    for(int k = 0; k <= KMAX; ++k) if(C_()) hs_case(0, k, 0, 0, 0, ALLF);
    for(int b = 1; b <= BADS; ++b) if(C_()) { badarg = b; hs_case(1, 0, 0, 0, 0, ALLF); }
    if(C_()) { FBADST = 1; hs_case(1, 0, 0, 0, 0, ALLF); }
#endif
}
#endif
/* arguments of any value (one path) */
void own_args(void) {
    usemem = 1; anyarg = 1; badarg = (int)NDR(0, 3);
#ifdef P_PREFIX
    for(int b = 0; b <= BADS; ++b) if(badarg == b) { badarg = b; close_case(0, 1); }
#else
    int c = (int)NDR(0, 40);
    for(int b = 0; b <= BADS; ++b) for(int n = 0; n <= 40; ++n) if(badarg == b && c == n) { badarg = b; anyn = n; close_case(0, 1); }
#endif
}
#ifdef P_HTTP
#define NERR 0
#define DETACH(h) dill_http_detach(h, DL)
#endif
#ifdef P_PREFIX
#define NERR 1
#define DETACH(h) dill_prefix_detach(h)
#endif
#ifdef P_SUFFIX
#define NERR 1
#define DETACH(h) dill_suffix_detach(h, DL)
#endif
#ifdef P_TERM
#define NERR 2
#define DETACH(h) dill_term_detach(h, DL)
#endif
#ifdef P_WS
#define NERR 2
#define DETACH(h) dill_ws_detach(h, st_, NULL, len_, DL)
#endif
static void detach_case(int foreign, int in, int out, int k) {
    int h = opened(0, 1); if(h < 0) VF_END();
    int bad = 0; (void)bad; int st_ = foreign ? 99 : 1000; size_t len_ = 0; (void)st_; (void)len_;
    SOCK *self = (SOCK*)selfv; (void)self;
    step = 0; K = k;
#if NERR == 1
    self->inerr = in; self->outerr = out; bad = in || out;
#endif
#if NERR == 2
    self->indone = in; self->outdone = out;
#endif
    if(foreign) { s0 = 11; s0bad = 1; errno = 0; ENS(DETACH(s0) == -1 && errno > 0 && nlive() == 2 && !uclosed && !gfreed, "an invalid handle is refused, nothing changes"); REACH("detach bad"); VF_END(); }
    errno = 0;
    int u = DETACH(h), e = errno;
    ENS(step <= KMAX, "every step was a case");
    ENS(!known(h), "the protocol's handle is gone");
    if(u >= 0) {
        ENS(!gfail && !bad && known(u) && nlive() == 1 && !uclosed, "the underlying socket is handed over, open");
        ENS(G[u].kind == UND && !G[u].store, "the underlying socket itself, not a layer above it");
        ENS(!gmem || gfreed == 1, "no memory is leaked"); REACH("detached"); VF_END();
    }
    ENS(u == -1 && (gfail || bad || e == EINVAL) && e > 0, "failure is reported");
    if(gfail) ENS(e == gerr, "the error is reported"); else if(bad) ENS(e == ECONNRESET, "a broken socket can't be detached");
    all_gone(); REACH("detach failed"); VF_END();
}
void own_detach(void) {
    int c = (int)NDR(0, 1000), i = 0;
    for(int um = 0; um < 2; ++um) for(int in = 0; in < 2; ++in) for(int out = 0; out < 2; ++out) for(int k = 0; k <= KMAX; ++k)
        if(c == i++) { usemem = um; detach_case(0, in, out, k); }
    for(int um = 0; um < 2; ++um) if(c == i++) { usemem = um; detach_case(1, 0, 0, 0); }
}
#include "vf_native.h"
