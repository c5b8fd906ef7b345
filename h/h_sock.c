/* C03: contracts of the generic socket entry points (bsock.c, msock.c): every
   well-typed call reaches the socket with exactly the caller's buffers. */
#include "vf.h"
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
static int g_valid, g_typed; static const void *g_asked; static int g_h;
static void *g_obj;
void *dill_hquery(int h, const void *type) {
    g_asked = type; g_h = h;
    if(!g_valid) { errno = EBADF; return NULL; }
    if(!g_typed) { errno = ENOTSUP; return NULL; }
    return g_obj;
}
#include "bsock.c"
#include "msock.c"
static struct dill_iolist *gf, *gl; static void *gbase; static size_t glen; static int calls; static int64_t gdl; static int which;
static struct dill_iolist *xf, *xl; static int single; static int gret;
static void chk(void *self, struct dill_iolist *f, struct dill_iolist *l, int64_t d, int wh) {
    calls++; which = wh;
    ENS(self == g_obj && d == gdl, "socket and deadline are passed on");
    if(single) ENS(f == l && f && f->iol_base == gbase && f->iol_len == glen && f->iol_next == NULL && f->iol_rsvd == 0, "the buffer becomes a one-element list");
    else ENS(f == xf && l == xl, "the list is passed on");
}
static int s_bs(struct dill_bsock_vfs *v, struct dill_iolist *f, struct dill_iolist *l, int64_t d) { chk(v, f, l, d, 0); return gret; }
static int s_br(struct dill_bsock_vfs *v, struct dill_iolist *f, struct dill_iolist *l, int64_t d) { chk(v, f, l, d, 1); return gret; }
static int s_ms(struct dill_msock_vfs *v, struct dill_iolist *f, struct dill_iolist *l, int64_t d) { chk(v, f, l, d, 2); return gret; }
static ssize_t s_mr(struct dill_msock_vfs *v, struct dill_iolist *f, struct dill_iolist *l, int64_t d) { chk(v, f, l, d, 3); return gret; }
void sock_contract(void) {
    static struct dill_bsock_vfs bv; static struct dill_msock_vfs mv;
    bv.bsendl = s_bs; bv.brecvl = s_br; mv.msendl = s_ms; mv.mrecvl = s_mr;
    g_valid = VF_BOOL(); g_typed = VF_BOOL(); gdl = (int64_t)ND(); gret = (int)NDR(0, 5) - 1;
    int op = (int)NDR(0, 7), h = (int)ND();
    g_obj = (op & 3) < 2 ? (void*)&bv : (void*)&mv;
    static char buf[4]; gbase = VF_BOOL() ? buf : NULL; glen = ND();
    static struct dill_iolist a, b;
    a.iol_base = NULL; a.iol_len = ND(); a.iol_rsvd = 0; a.iol_next = VF_BOOL() ? &b : NULL; b = a; b.iol_next = NULL;
    xf = VF_BOOL() ? &a : NULL; xl = VF_BOOL() ? &a : VF_BOOL() ? &b : NULL;
    single = op < 4;
    struct dill_iolist *lx = xl; int bad = 0;
    ssize_t r = 0; errno = 0;
    switch(op) {
    case 0: r = dill_bsend(h, gbase, glen, gdl); break;
    case 1: r = dill_brecv(h, gbase, glen, gdl); break;
    case 2: r = dill_msend(h, gbase, glen, gdl); break;
    case 3: r = dill_mrecv(h, gbase, glen, gdl); break;
    case 4: r = dill_bsendl(h, xf, xl, gdl); bad = !xf || !xl || xl->iol_next; break;
    case 5: r = dill_brecvl(h, xf, xl, gdl); bad = (xl && xl->iol_next) || (!xf != !xl); break;
    case 6: r = dill_msendl(h, xf, xl, gdl); bad = !xf || !xl || xl->iol_next; break;
    case 7: r = dill_mrecvl(h, xf, xl, gdl); bad = (xl && xl->iol_next) || (!xf != !xl); break;
    }
    ENS(g_h == h && g_asked == ((op & 3) < 2 ? dill_bsock_type : dill_msock_type), "the right interface of the right handle is asked for");
    if(!g_valid || !g_typed) { ENS(r == -1 && calls == 0 && errno == (g_valid ? ENOTSUP : EBADF), "bad handles are reported"); REACH("bad handle"); return; }
    if(bad) { ENS(r == -1 && errno == EINVAL && calls == 0, "malformed lists are refused before anything is transferred"); REACH("bad list"); return; }
    ENS(calls == 1 && which == (op & 3) && r == gret, "the operation is performed once and its result returned");
    REACH("forwarded");
}
#include "vf_native.h"
