/* C17: contracts on the coroutine stack allocator (stack.c) and on the receive
   buffer allocator (fd.c). */
#include "vf.h"
#define DILL_DISABLE_RAW_NAMES
#include "libdill.h"
#include "ctx.h"
#ifndef DILL_THREADS
struct dill_ctx dill_ctx_ = {1};
struct dill_ctx *dill_ctx_init(void) { return &dill_ctx_; }
#endif
#define SSZ (256 * 1024)
#define MAXC 64
#ifdef VF_PG
#define PG ((size_t)VF_PG)
#else
static size_t PG;
#endif
static long vf_sysconf(int name) { ENS(name == _SC_PAGE_SIZE, "page size is asked for"); return (long)PG; }
/* Blocks: fresh (given out by the allocator stub) and three cached or released ones. */
#ifdef VF_HIST
#define NB 140
#else
#define NB 4
#endif
static uint8_t *blk[NB]; static int guarded[NB], live[NB], nblk, fail_align, fail_prot, nfree, nprot;
static size_t bsz;
static int vf_memalign(void **p, size_t al, size_t sz) {
    ENS(al == PG && sz >= SSZ + PG && sz % PG == 0, "a page-aligned block for the stack and its guard");
    if(fail_align) return ENOMEM;
    ENS(nblk < NB, "one block"); bsz = sz; live[nblk] = 1; guarded[nblk] = 0; *p = blk[nblk++]; return 0;
}
static int which(void *p) { for(int i = 0; i < NB; ++i) if(i < nblk && p == blk[i]) return i; return -1; }
static int vf_mprotect(void *p, size_t n, int prot) {
    int i = which(p); ENS(i >= 0 && n == PG && live[i], "the guard page is the lowest page of a block"); nprot++;
    if(prot == PROT_NONE && fail_prot) { errno = ENOMEM; return -1; }
    ENS(prot == PROT_NONE || prot == (PROT_READ | PROT_WRITE), "protection"); if(i >= 0) guarded[i] = prot == PROT_NONE; return 0;
}
static void vf_free(void *p) { int i = which(p); ENS(i >= 0 && live[i], "only a whole live block is released, once"); ENS(i < 0 || !guarded[i], "the guard is removed before the block is released"); if(i >= 0) live[i] = 0; nfree++; }
#define sysconf vf_sysconf
#define posix_memalign vf_memalign
#define mprotect vf_mprotect
#define free vf_free
#include "stack.c"
#undef free
/* ---- receive buffers ---- */
static uint8_t *fb[3]; static int fbfree, fbfail, fbnew;
static void *vf_malloc(size_t n) { ENS(n >= 1984, "a full receive buffer"); if(fbfail) return NULL; fbnew++; return fb[0]; }
static void vf_freeb(void *p) { ENS(p == fb[0], "only the released buffer"); fbfree++; }
#define malloc vf_malloc
#define free vf_freeb
int dill_fdin(int s, int64_t d) { return -1; }
int dill_fdout(int s, int64_t d) { return -1; }
int dill_fdclean(int s) { return 0; }
int dill_iolcheck(struct dill_iolist *first, struct dill_iolist *last, size_t *nbufs, size_t *nbytes) { return -1; }
void dill_ioltoiov(struct dill_iolist *first, struct iovec *iov) { }
#include "fd.c"
#undef malloc
#undef free

static void setup(void) {
#ifdef VF_PG
#else
    PG = (size_t)4096 << NDR(0, 4);
#endif
    bsz = SSZ + PG; nblk = 0; nfree = nprot = 0;
    for(int i = 0; i < NB; ++i) {
#ifdef VF_CBMC
        { struct block { uint8_t pad[SSZ + VF_PG - sizeof(struct dill_slist)]; struct dill_slist item; } *b = malloc(sizeof(struct block)); blk[i] = (uint8_t*)b; }
#elif defined VF_HIST
        blk[i] = NULL;
#else
        blk[i] = malloc(SSZ + PG);
#endif
        live[i] = guarded[i] = 0; }
    for(int i = 0; i < NB; ++i) REQ(blk[i] || NB > 4);
}
#define TOP(i) (blk[i] + PG + SSZ)
#define ITEM(i) ((struct dill_slist*)TOP(i) - 1)
#ifndef VF_HIST
/* Cache with 0, 1 or more stacks: blocks 0 and 1 are its first two, whatever follows. */
static struct dill_slist *rest;
static void cache(struct dill_ctx_stack *c, int n) {
    static struct dill_slist further;
    nblk = 2; live[0] = live[1] = guarded[0] = guarded[1] = 1;
    c->count = n; c->cache.next = n == 0 ? &c->cache : ITEM(0); ITEM(0)->next = n == 1 ? &c->cache : ITEM(1); ITEM(1)->next = rest = n == 2 ? &c->cache : &further;
}
void allocstack(void) {
    setup(); struct dill_ctx_stack *c = &dill_getctx->stack; int n = (int)NDR(0, MAXC); cache(c, n);
    fail_align = VF_BOOL(); fail_prot = VF_BOOL(); size_t sz = 0; int ask = VF_BOOL();
    struct dill_slist *head = c->cache.next, *second = head->next;
    uint8_t *p = dill_allocstack(ask ? &sz : NULL);
    if(ask) ENS(sz == SSZ, "the configured size is reported");
    if(n > 0) { ENS(p == TOP(0) && c->cache.next == second && c->count == n - 1 && nblk == 2, "a recycled stack is taken out of the cache"); REACH("cached"); }
    else if(fail_align || fail_prot) { ENS(p == NULL && errno == ENOMEM && c->count == 0 && c->cache.next == &c->cache, "failure gives ENOMEM and changes nothing"); ENS(fail_align ? nblk == 2 : !live[2] && nfree == 1, "nothing is leaked"); REACH("nomem"); }
    else { ENS(p == TOP(2) && nblk == 3 && live[2] && p <= blk[2] + bsz, "a fresh stack of full size"); ENS(guarded[2], "a fresh stack is guarded"); ENS((PG + SSZ) % 16 == 0, "aligned"); ENS(c->count == 0 && c->cache.next == &c->cache, "the cache is unchanged"); REACH("fresh"); }
    ENS(live[0] && live[1] && guarded[0] && guarded[1], "other stacks are untouched");
}
void freestack(void) {
    setup(); struct dill_ctx_stack *c = &dill_getctx->stack; int n = (int)NDR(0, MAXC); cache(c, n);
    nblk = 3; live[2] = guarded[2] = 1;
    struct dill_slist *head = c->cache.next, *second = head->next;
    dill_freestack(TOP(2));
    ENS(live[2] && guarded[2], "the released stack itself stays allocated (it may still be in use by the caller)");
    ENS(c->cache.next == ITEM(2), "the released stack is reusable");
    if(n < MAXC) { ENS(c->count == n + 1 && ITEM(2)->next == head && nfree == 0, "it is added to the cache"); REACH("free room"); }
    else { ENS(c->count == MAXC && ITEM(2)->next == second && nfree == 1 && !live[0] && live[1], "a full cache gives one stack back to the system"); REACH("free full"); }
}
void stackterm(void) {
    setup(); struct dill_ctx_stack *c = &dill_getctx->stack; int n = (int)NDR(0, 2); cache(c, n);
    dill_page_size();
    dill_ctx_stack_term(c);
    ENS(nfree == n, "every cached stack is returned once");
    struct dill_ctx_stack d; ENS(dill_ctx_stack_init(&d) == 0 && d.count == 0 && d.cache.next == &d.cache, "starts empty");
    REACH("stackterm");
}
static struct dill_slist *fhead, *fsecond;
static int fcache(struct dill_ctx_fd *c) {
    static struct dill_slist further; for(int i = 0; i < 3; ++i) { fb[i] = malloc(1984); REQ(fb[i]); }
    int n = (int)NDR(0, 32); c->count = n; c->cache.next = n ? (void*)fb[1] : &c->cache; ((struct dill_slist*)fb[1])->next = n == 1 ? &c->cache : (void*)fb[2]; ((struct dill_slist*)fb[2])->next = n == 2 ? &c->cache : &further;
    fhead = c->cache.next; fsecond = fhead->next; fbfree = fbnew = 0; fbfail = VF_BOOL(); return n;
}
void fdbuf(void) {
    struct dill_ctx_fd *c = &dill_getctx->fd; int n = fcache(c);
    if(VF_BOOL()) {
        uint8_t *p = dill_fd_allocbuf();
        if(n) ENS(p == fb[1] && c->count == n - 1 && c->cache.next == fsecond && !fbnew, "a recycled buffer is taken out of the cache");
        else if(fbfail) ENS(p == NULL && errno == ENOMEM && c->count == 0 && c->cache.next == &c->cache, "failure gives ENOMEM and changes nothing");
        else ENS(p == fb[0] && c->count == 0 && c->cache.next == &c->cache, "a fresh buffer of full size");
        REACH("allocbuf");
    } else {
        struct dill_fd_rxbuf b; dill_fd_initrxbuf(&b); ENS(b.buf == NULL && b.len == 0 && b.pos == 0, "starts without a buffer");
        int has = VF_BOOL(); if(has) { b.buf = fb[0]; b.len = NDR(0, 1984); b.pos = NDR(0, 1984); }
        dill_fd_termrxbuf(&b);
        if(!has) ENS(c->count == n && c->cache.next == fhead && !fbfree, "nothing to release");
        else if(n < 32) ENS(c->count == n + 1 && c->cache.next == (void*)fb[0] && ((struct dill_slist*)fb[0])->next == fhead && !fbfree, "the buffer is added to the cache");
        else ENS(c->count == n && c->cache.next == fhead && fbfree == 1, "with a full cache it is returned to the system");
        REACH("freebuf");
    }
}
void fdterm(void) {
    struct dill_ctx_fd c; ENS(dill_ctx_fd_init(&c) == 0 && c.count == 0 && c.cache.next == &c.cache, "starts empty");
    fb[0] = malloc(1984); REQ(fb[0]); int has = VF_BOOL(); fbfree = 0; if(has) { c.cache.next = (void*)fb[0]; ((struct dill_slist*)fb[0])->next = &c.cache; c.count = 1; }
    dill_ctx_fd_term(&c); ENS(fbfree == has, "every cached buffer is returned once"); REACH("fdterm");
}
#else
/* Histories on the real allocator state (search only). */
static uint8_t *mem(int i) { if(!blk[i]) blk[i] = aligned_alloc(65536, SSZ + 65536); return blk[i]; }
static void *held[NB]; static int nheld;
void history(void) {
    setup(); struct dill_ctx_stack *c = &dill_getctx->stack; dill_ctx_stack_init(c);
    int phase = 0;
    for(int k = 0; k < 400; ++k) {
        if(k % 100 == 0) phase = (int)NDR(0, 3);
        if(nblk < NB) mem(nblk);
        if(NDR(0, 3) > (uint64_t)phase && nheld < 90 && nblk < NB) {
            fail_align = NDR(0, 15) == 7; fail_prot = NDR(0, 15) == 7; size_t sz;
            uint8_t *p = dill_allocstack(&sz);
            if(!p) { ENS(errno == ENOMEM, "failure gives ENOMEM"); continue; }
            int b = -1; for(int i = 0; i < nblk; ++i) if(p == TOP(i)) b = i;
            ENS(b >= 0 && live[b] && guarded[b] && sz == SSZ, "a live guarded block of full size");
            for(int i = 0; i < nheld; ++i) ENS(held[i] != p, "a stack is never handed out twice");
            held[nheld++] = p;
        } else if(nheld) { int i = (int)NDR(0, nheld - 1); void *p = held[i]; held[i] = held[--nheld]; dill_freestack(p); int b = -1; for(int i = 0; i < nblk; ++i) if(p == TOP(i)) b = i; ENS(live[b], "the released stack itself stays allocated (it may still be in use by the caller)"); }
        int cached = 0; for(int i = 0; i < nblk; ++i) cached += live[i]; cached -= nheld; ENS(cached >= 0 && cached <= MAXC, "the cache stays within its limit");
        ENS(c->count == cached, "nothing is lost");
    }
}
#endif
#include "vf_native.h"
