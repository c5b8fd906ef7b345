/* C13, C14, C15: contracts on cr.c (scheduler core, timers, bundles).

   The ready queue and the clause lists are of any length: first element, an
   untouchable frame, last element.  Cases over the shapes are constants. */
#include "vf.h"
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
#include "cr.h"
#include "ctx.h"
#ifdef DILL_THREADS
#endif
struct dill_ctx dill_ctx_ = {1};
struct dill_ctx *dill_ctx_init(void) { return &dill_ctx_; }
#define C (dill_ctx_.cr)
#undef dill_setjmp
#undef dill_longjmp
static int vf_setjmp(void *p); static void vf_longjmp(void *p);
#define dill_setjmp(c) vf_setjmp(&(c))
#define dill_longjmp(c) vf_longjmp(&(c))
/* ---- timers: the tree is represented by its contract (rbtree.c is covered by
   its own units): the item with the lowest value comes first ---- */
static int tn, nins, ners; static struct dill_tmclause TM; static struct dill_rbtree_item *ti_item; static int64_t ti_val;
static int vf_rbempty(struct dill_rbtree *t) { return !tn; }
static struct dill_rbtree_item *vf_rbfirst(struct dill_rbtree *t) { return tn ? &TM.item : NULL; }
static void vf_rbinsert(struct dill_rbtree *t, int64_t v, struct dill_rbtree_item *i) { ENS(t == &C.timers, "the timer tree"); ti_item = i; ti_val = v; nins++; i->val = v; }
static void vf_rberase(struct dill_rbtree *t, struct dill_rbtree_item *i) { ENS(t == &C.timers, "the timer tree"); ti_item = i; ners++; }
static int rbinit; static void vf_rbinit(struct dill_rbtree *t) { rbinit++; }
#ifdef VF_WAITB
static int wb_empty(struct dill_rbtree *t); static struct dill_rbtree_item *wb_first(struct dill_rbtree *t);
#define dill_rbtree_empty wb_empty
#define dill_rbtree_first wb_first
#else
#define dill_rbtree_empty vf_rbempty
#define dill_rbtree_first vf_rbfirst
#endif
#define dill_rbtree_insert vf_rbinsert
#define dill_rbtree_erase vf_rberase
#define dill_rbtree_init vf_rbinit
static void dc_enter(struct dill_slist **it, struct dill_cr *cr), dc_step(struct dill_slist *it);
static void pl_enter(int64_t *nw, int block), pl_step(int64_t nw, int block), tm_enter(int *fired, int64_t nw, int block), tm_step(int fired);
static void bc_enter(struct dill_list **it), bc_step(struct dill_list *it), bf_enter(void), bf_step(void);
#define VF_INV_dc_ENTER ({ dc_enter(&it, cr); })
#define VF_INV_dc_STEP ({ dc_step(it); })
#define VF_INV_pl_ENTER ({ pl_enter(&nw, block); })
#define VF_INV_pl_STEP ({ pl_step(nw, block); })
#define VF_INV_tm_ENTER ({ tm_enter(&fired, nw, block); })
#define VF_INV_tm_STEP ({ tm_step(fired); })
#define VF_INV_bc_ENTER ({ bc_enter(&it); })
#define VF_INV_bc_STEP ({ bc_step(it); })
#define VF_INV_bf_ENTER ({ bf_enter(); })
#define VF_INV_bf_STEP ({ bf_step(); })
static void *vf_malloc(size_t n); static void vf_free(void *p);
#define malloc vf_malloc
#define free vf_free
#include "cr.c"
#undef malloc
#undef free

/* ---- coroutines ---- */
static struct dill_cr R, S, Q1, QZ, NEWC, P; static struct dill_slist FRS; static int RN;
static int q1id, q1err, qzid, qzerr;
static void any_cr(struct dill_cr *c) { c->ready.next = NULL; c->id = (int)ND(); c->err = (int)ND(); dill_slist_init(&c->clauses); c->no_blocking1 = VF_BOOL(); c->no_blocking2 = VF_BOOL(); c->done = 0; c->mem = VF_BOOL(); c->closer = NULL; dill_list_init(&c->bundle); }
/* The ready queue holds n coroutines: none, Q1, Q1 and QZ, or Q1 ... QZ. */
static void ready(int n) {
    RN = n; struct dill_slist *h = &C.ready.slist;
    h->next = n ? &Q1.ready : h; Q1.ready.next = n == 1 ? h : n == 2 ? &QZ.ready : &FRS; QZ.ready.next = h; FRS.next = n == 3 ? &QZ.ready : NULL;
    C.ready.last = n == 0 ? h : n == 1 ? &Q1.ready : &QZ.ready;
}
/* It is as before, without its first element (drop), with a (and b) added at the end. */
static int isready(int drop, struct dill_cr *a, struct dill_cr *b) {
    struct dill_slist *h = &C.ready.slist, *p = h; int n = RN;
    struct dill_slist *seq[6]; int k = 0;
    if(n && !drop) seq[k++] = &Q1.ready;
    if(n == 3) { seq[k++] = &FRS; }
    if(n >= 2) seq[k++] = &QZ.ready;
    if(a) seq[k++] = &a->ready;
    if(b) seq[k++] = &b->ready;
    int ok = 1; for(int i = 0; i < k; ++i) { ok = ok && p->next == seq[i]; p = seq[i]; }
    return ok && p->next == h && C.ready.last == p && (!n || drop || (Q1.id == q1id && Q1.err == q1err)) && (n < 2 || (QZ.id == qzid && QZ.err == qzerr));
}
static void start(int n) {
    any_cr(&R); any_cr(&S); any_cr(&Q1); any_cr(&QZ); any_cr(&NEWC); any_cr(&P); q1id = Q1.id; q1err = Q1.err; qzid = QZ.id; qzerr = QZ.err;
    C.r = &R; ready(n); C.last_poll = (int64_t)ND(); REQ(C.last_poll >= 0 && C.last_poll < (int64_t)1 << 60);
    nins = ners = 0;
}
#define CASES(n, fn) do { int pick_ = (int)NDR(0, (n) - 1); for(int k_ = 0; k_ < (n); ++k_) if(pick_ == k_) { fn(k_); VF_END(); } } while(0)
static struct dill_clause V, V2, V3; static int cancelled[3];
static void probe(struct dill_clause *cl) { if(cl == &V) cancelled[0]++; else if(cl == &V2) cancelled[1]++; else { ENS(cl == &V3, "only clauses of this coroutine are withdrawn"); cancelled[2]++; } }
#if defined VF_WAKE
static int vf_setjmp(void *p) { return 0; } static void vf_longjmp(void *p) { }
int64_t dill_now(void) { return 0; } int64_t dill_mnow(void) { return 77; } int dill_pollset_poll(int t) { return 1; }
int dill_hmake(struct dill_hvfs *v) { return -1; } int dill_hclose(int h) { return -1; } void *dill_hquery(int h, const void *t) { return NULL; }
void *dill_allocstack(size_t *s) { return NULL; } void dill_freestack(void *s) { } static void *vf_malloc(size_t n) { return NULL; } static void vf_free(void *p) { }
/* ---- withdrawal of all clauses and resumption ---- */
static int DP, DN; 
static void dc_enter(struct dill_slist **it, struct dill_cr *cr) {
    ENS(cr == &S && *it == &V.item && !cancelled[0] && !cancelled[1], "INV docancel base");
    /* an arbitrary clause of the list, or its end */
    if(DP == 0) { *it = &V2.item; V2.cancel = VF_BOOL() ? probe : NULL; V2.item.next = DN ? &FRS : &S.clauses; cancelled[1] = 0; }
    else *it = &S.clauses;
}
static void dc_step(struct dill_slist *it) {
    ENS(cancelled[1] == (V2.cancel ? 1 : 0) && !cancelled[0] && !cancelled[2] && it == V2.item.next && it == (DN ? &FRS : &S.clauses), "INV docancel step: every clause is withdrawn once");
    REACH("docancel step");
}
static void wake_(int k) {
    int n = k & 3, nc = k >> 2 & 3; DP = k >> 4 & 1; DN = k >> 5 & 1; int cancel = k >> 6;
    start(n); cancelled[0] = cancelled[1] = cancelled[2] = 0;
    struct dill_clause *c[3] = {&V, &V2, &V3}; int id = (int)ND(), err = (int)ND(); REQ(id >= 0);
    for(int i = 0; i < 3; ++i) { c[i]->cr = &S; c[i]->cancel = probe; c[i]->id = i ? (int)ND() : id; }
#ifdef VF_UNB
    S.clauses.next = &V.item; V.item.next = &FRS;
#else
    S.clauses.next = nc ? &V.item : &S.clauses; V.item.next = nc > 1 ? &V2.item : &S.clauses; V2.item.next = nc > 2 ? &V3.item : &S.clauses; V3.item.next = &S.clauses;
#endif
    int nul = VF_BOOL(); 
#ifndef VF_UNB
    if(nul) V.cancel = NULL;
#endif
    if(cancel) dill_cancel(&S, err); else dill_trigger(&V, err);
    ENS(isready(0, &S, NULL) && S.ready.next, "the coroutine is runnable, once, behind all that already were");
    ENS(S.id == (cancel ? -1 : id) && S.err == err && C.r == &R, "it gets the identity and error of that event");
#ifndef VF_UNB
    for(int i = 0; i < 3; ++i) ENS(cancelled[i] == (i < nc && c[i]->cancel ? 1 : 0), "every clause it was waiting for is withdrawn");
#endif
    REACH("wake");
}
static void wake_b(int k) { int n = k & 3, nc = k >> 2; if(nc || n >= 0) wake_(n | nc << 2); }
static void wake_c(int k) { wake_(k | 64); }
void wake(void) {
#ifdef VF_UNB
    CASES(128, wake_);
#else
    if(VF_BOOL()) CASES(16, wake_b); else CASES(16, wake_c);
#endif
}
/* ---- registration of clauses and timers, small operations ---- */
static void noc(struct dill_clause *c) { }
static int listed(struct dill_slist *l, struct dill_slist *x) { int n = 0, t = 0; for(struct dill_slist *i = l->next; i != l && t < 4; i = i->next) { if(i == x) n++; t++; } return n == 1 ? t : 0; }
static void reg_(int k) {
    int nc = k & 1, what = k >> 1; start(1); struct dill_tmclause tc; int id = (int)ND(); int64_t dl = (int64_t)ND();
    if(nc) { R.clauses.next = &V.item; V.item.next = &R.clauses; V.id = 5; V.cr = &R; V.cancel = noc; }
    if(what == 0) { dill_waitfor(&V2, id, noc); ENS(V2.cr == &R && V2.id == id && V2.cancel == noc && listed(&R.clauses, &V2.item) == nc + 1 && (!nc || listed(&R.clauses, &V.item)) && !nins, "registered with the running coroutine"); }
    else if(what == 1) {
        dill_timer(&tc, id, dl);
        if(dl < 0) ENS(!nins && (nc ? listed(&R.clauses, &V.item) == 1 : R.clauses.next == &R.clauses), "a negative deadline never expires");
        else { ENS(nins == 1 && ti_item == &tc.item && ti_val == dl && tc.cl.id == id && tc.cl.cr == &R && listed(&R.clauses, &tc.cl.item) == nc + 1, "the timer is registered with its deadline");
            ENS(tc.cl.cancel == dill_timer_cancel, "timer cancel function"); dill_timer_cancel(&tc.cl); ENS(ners == 1 && ti_item == &tc.item && !tc.cl.cr, "cancelling withdraws this very timer"); }
    } else if(what == 2) {
        int b1 = R.no_blocking1, b2 = R.no_blocking2; errno = 0; int rc = dill_canblock();
        ENS(b1 || b2 ? rc == -1 && errno == ECANCELED : rc == 0, "cancelled coroutines must not block");
        int v = VF_BOOL(); ENS(dill_no_blocking(v) == b2 && R.no_blocking2 == v && R.no_blocking1 == b1, "hclose switches blocking off and back");
    } else {
        struct dill_ctx_cr *x = &C; rbinit = 0; int rc = dill_ctx_cr_init(x);
        ENS(rc == 0 && C.r == &C.main && C.last_poll == 77 && rbinit == 1 && C.main.clauses.next == &C.main.clauses && C.ready.slist.next == &C.ready.slist && C.ready.last == &C.ready.slist, "initial state");
        ENS(!C.main.ready.next && !C.main.no_blocking1 && !C.main.no_blocking2 && !C.main.done && !C.main.closer, "the main coroutine runs"); return;
    }
    ENS(C.r == &R && isready(0, NULL, NULL), "nobody else is affected"); REACH("reg");
}
void reg(void) { CASES(8, reg_); }
#endif
#if defined VF_YIELD
static int vf_setjmp(void *p) { return 0; } static void vf_longjmp(void *p) { }
int64_t dill_now(void) { return 0; } int64_t dill_mnow(void) { return 77; } int dill_pollset_poll(int t) { return 1; }
int dill_hmake(struct dill_hvfs *v) { return -1; } int dill_hclose(int h) { return -1; } void *dill_hquery(int h, const void *t) { return NULL; }
void *dill_allocstack(size_t *s) { return NULL; } void dill_freestack(void *s) { } static void *vf_malloc(size_t n) { return NULL; } static void vf_free(void *p) { }
static void dc_enter(struct dill_slist **it, struct dill_cr *cr) { } static void dc_step(struct dill_slist *it) { }
static int ywaits, yrc;
int vf_wait_y(void) { ywaits++; ENS(isready(0, &R, NULL) && R.id == 0 && R.err == 0, "everybody already runnable goes first"); errno = VF_BOOL() ? 0 : ECANCELED; return yrc = VF_BOOL() ? 0 : -1; }
static void yield_(int k) {
    start(k); ywaits = 0; int blocked = R.no_blocking1 || R.no_blocking2; int rc = dill_yield();
    if(blocked) ENS(rc == -1 && errno == ECANCELED && !ywaits && isready(0, NULL, NULL) && !R.ready.next, "a cancelled coroutine does not suspend");
    else { ENS(ywaits == 1 && rc == yrc, "yield suspends once"); REACH("yield"); }
}
void yield_c(void) { CASES(4, yield_); }
#endif
#if defined VF_WAIT
int dill_hmake(struct dill_hvfs *v) { return -1; } int dill_hclose(int h) { return -1; } void *dill_hquery(int h, const void *t) { return NULL; }
void *dill_allocstack(size_t *s) { return NULL; } void dill_freestack(void *s) { } static void *vf_malloc(size_t n) { return NULL; } static void vf_free(void *p) { }
static void dc_enter(struct dill_slist **it, struct dill_cr *cr) { } static void dc_step(struct dill_slist *it) { }
/* ---- suspension: polling, timers, switch to the head of the ready queue.
   NOW: last value returned by dill_now.  NB: value the poll call saw. ---- */
static int RES, WK, nnow, npoll, empty0, PB; static int64_t NOW, NOW0, NB, TV0; static void *saved; static struct dill_cr *HEAD, *A1, *A2;
static int ntr, PHP, PHT, PHN, lastrc, base_ntr;
int64_t dill_now(void) { int64_t d = (int64_t)ND(); REQ(d >= 0 && d < (int64_t)1 << 60 && NOW < (int64_t)1 << 60); NOW += d; if(!nnow++) NOW0 = NOW; return NOW; }
int64_t dill_mnow(void) { return NOW; }
static int vf_setjmp(void *p) { ENS(p == &R.ctx, "the running coroutine's context is saved"); saved = p; return RES; }
static void anytimers(int64_t atleast) { tn = VF_BOOL(); TM.item.val = (int64_t)ND(); REQ(TM.item.val >= atleast); }
static void push(struct dill_cr *c) { if(dill_qlist_empty(&C.ready)) HEAD = c; dill_qlist_push(&C.ready, &c->ready); if(A1) A2 = c; else A1 = c; }
int dill_pollset_poll(int timeout) {
    npoll++; PB = dill_qlist_empty(&C.ready); NB = NOW;
    if(!PB) ENS(timeout == 0, "polling does not block while somebody is runnable");
    else if(!tn) { ENS(timeout < 0, "with nothing pending the process waits indefinitely"); REACH("infinite wait"); }
    else { ENS(timeout >= 0 && (int64_t)timeout <= (TM.item.val > NOW ? TM.item.val - NOW : 0), "the process waits no longer than the earliest deadline allows"); REACH("timed wait"); }
    int64_t v = TM.item.val; int had = tn;
    lastrc = PHP == 0 ? 0 : PHP == 1 ? 1 : -1;
    if(lastrc == 1) { push(&P); /* its timer, if any, is withdrawn; others come first then */ if(had) { anytimers(v); } else tn = 0; }
    if(lastrc == 0 && PB && !had) { /* an infinite wait does not time out */ VF_END(); }
    /* time passes while the process is suspended */
    if(timeout != 0) { int64_t d = (int64_t)ND(); REQ(d >= 0 && d < (int64_t)1 << 60 && NOW < (int64_t)1 << 60); NOW += d; } NB = NOW;
    errno = EINTR; return lastrc;
}
void vf_trigger(struct dill_clause *cl, int err) {
    ntr++; ENS(tn && cl == &TM.cl && err == ETIMEDOUT, "the earliest timer is served with ETIMEDOUT");
    ENS(TM.item.val <= NOW, "a timer never fires before its deadline");
    push(&S); S.ready.next = &C.ready.slist; anytimers(TM.item.val);
}
static int rn0(void) { return dill_qlist_empty(&C.ready); }
static void pl_enter(int64_t *nw, int block) {
    ENS(*nw == NOW && npoll == 0 && ntr == 0 && (block ? rn0() : 1) && isready(0, NULL, NULL), "INV poll base");
    ENS(!block == !empty0, "INV poll base: blocks only if nobody is runnable");
    if(VF_BOOL()) { NOW = (int64_t)ND(); REQ(NOW >= NOW0 && NOW < (int64_t)1 << 60); npoll = 1; } *nw = NOW; anytimers(0);
}
static void pl_step(int64_t nw, int block) {
    ENS(nw == NOW, "INV poll step: the time is known");
    ENS(ntr == 0 && isready(0, NULL, NULL), "INV poll step: nobody was resumed when polling again");
    ENS(lastrc < 0 || (block && lastrc == 0), "INV poll step: polls again only after an interruption or a timeout"); REACH("poll again");
}
static int fired_in;
static void tm_enter(int *fired, int64_t nw, int block) {
    ENS((*fired != 0) == (lastrc != 0) && nw <= NOW && ntr == 0, "INV timers base");
    if(PHT) { /* some timers were served already: somebody is runnable */ *fired = 1; if(dill_qlist_empty(&C.ready)) { ready(0); push(&S); } base_ntr = 1; }
    anytimers(0); fired_in = *fired; ntr = 0;
}
static void tm_step(int fired) { ENS(ntr == 1 && fired == 1, "INV timers step: one timer is served"); REACH("timer step"); }
static void vf_longjmp(void *p) {
    ENS(saved == &R.ctx, "the suspended coroutine can be resumed later");
    ENS(HEAD && C.r == HEAD && p == &HEAD->ctx && !HEAD->ready.next, "the first runnable coroutine runs");
    if(!PHT) ENS(isready(1, HEAD == A1 ? NULL : A1, NULL) || HEAD == A1, "the order of the others is kept");
    if(empty0) ENS(npoll, "no busy loop without polling");
    if(NOW0 > C.last_poll + 1000) ENS(npoll, "external events are looked at at least once a second");
    if(npoll) { ENS(lastrc >= 0, "an interrupted poll is repeated"); ENS(!tn || TM.item.val > NB, "every timer whose deadline was reached is served"); REACH("switch after poll"); }
    ENS(C.last_poll <= NOW, "the time of the last poll is not in the future");
    REACH("switch");
    VF_END();
}
static int64_t lp;
static void wait_(int k) {
    int n = k & 3; PHP = (k >> 2) % 3; PHT = (k >> 2) / 3 & 1; start(n); RES = 0; empty0 = n == 0; HEAD = n ? &Q1 : NULL; A1 = A2 = NULL; ntr = npoll = nnow = 0; saved = NULL; lastrc = 0; base_ntr = 0;
    NOW = (int64_t)ND(); REQ(NOW >= 0 && NOW < (int64_t)1 << 60); REQ(C.last_poll <= NOW); lp = C.last_poll; anytimers(0);
    R.clauses.next = &V.item; V.item.next = &FRS; if(n == 3) V.item.next = &R.clauses;
    dill_wait();
    ENS(0, "the suspended coroutine does not continue"); VF_END();
}
void waiting(void) { CASES(24, wait_); }
/* Resumption. */
void resumed(void) {
    start(2); RES = 1; nnow = npoll = 0; R.clauses.next = &V.item; V.item.next = &V2.item; V2.item.next = &R.clauses; int id = R.id, err = R.err;
    int rc = dill_wait(); int e = errno;
    ENS(rc == id && e == err && R.clauses.next == &R.clauses && C.r == &R && isready(0, NULL, NULL) && !npoll, "the resumed coroutine sees its event and has no clauses left"); REACH("resumed");
}
#endif
#if defined VF_WAITB
/* Bounded search: a few timers and coroutines with the real dill_trigger. */
int dill_hmake(struct dill_hvfs *v) { return -1; } int dill_hclose(int h) { return -1; } void *dill_hquery(int h, const void *t) { return NULL; }
void *dill_allocstack(size_t *s) { return NULL; } void dill_freestack(void *s) { } static void *vf_malloc(size_t n) { return NULL; } static void vf_free(void *p) { }
#define NT 3
static struct dill_tmclause T[NT]; static struct dill_cr TC[NT]; static int live[NT]; static int64_t NOW, NB, fired_at[NT]; static int nnow, npoll, e0, lastrc; static int64_t NOW0; static struct dill_cr *order[8]; static int no;
static int first(void) { int b = -1; for(int i = 0; i < NT; ++i) if(live[i] && (b < 0 || T[i].item.val < T[b].item.val)) b = i; return b; }
static int wb_empty(struct dill_rbtree *t) { return first() < 0; }
static struct dill_rbtree_item *wb_first(struct dill_rbtree *t) { int b = first(); return b < 0 ? NULL : &T[b].item; }
static void wb_cancel(struct dill_clause *cl) {
    for(int i = 0; i < NT; ++i) if(cl == &T[i].cl) { ENS(live[i], "a timer is withdrawn once"); live[i] = 0; order[no++] = &TC[i]; return; } }
int64_t dill_now(void) { int64_t d = (int64_t)NDR(0, 3); NOW += d; if(!nnow++) NOW0 = NOW; return NOW; }
int64_t dill_mnow(void) { return NOW; }
static int vf_setjmp(void *p) { ENS(p == &R.ctx, "context saved"); return 0; }
int dill_pollset_poll(int timeout) {
    npoll++; REQ(npoll < 6); int b = first();
    if(!dill_qlist_empty(&C.ready)) ENS(timeout == 0, "polling does not block while somebody is runnable");
    else if(b < 0) ENS(timeout < 0, "with nothing pending the process waits indefinitely");
    else ENS(timeout >= 0 && (int64_t)timeout <= (T[b].item.val > NOW ? T[b].item.val - NOW : 0), "the process waits no longer than the earliest deadline allows");
    if(b >= 0) NOW += timeout; else if(timeout) NOW += NDR(0, 50000);
    NB = NOW;
    lastrc = (int)NDR(0, 2) - 1; errno = EINTR;
    if(lastrc == 0 && b < 0 && dill_qlist_empty(&C.ready)) lastrc = 1;
    if(lastrc == 1) { dill_resume(&P, 0, 0); order[no++] = &P; }
    return lastrc;
}
static void vf_longjmp(void *p) {
    ENS(no && C.r == order[0] && p == &order[0]->ctx && !order[0]->ready.next, "the first runnable coroutine runs");
    struct dill_slist *it = C.ready.slist.next; for(int i = 1; i < no; ++i) { ENS(it == &order[i]->ready, "the order of the others is kept"); it = it->next; } ENS(it == &C.ready.slist, "nobody else is runnable");
    if(e0 || NOW0 > C.last_poll + 1000) ENS(npoll, "external events are looked at at least once a second");
    int b = first(); if(npoll) { ENS(lastrc >= 0, "an interrupted poll is repeated"); ENS(b < 0 || T[b].item.val > NB, "every timer whose deadline was reached is served"); }
    for(int i = 0; i < NT; ++i) if(TC[i].ready.next || C.r == &TC[i]) { if(T[i].item.val > NOW) ENS(0, "a timer never fires before its deadline"); ENS(TC[i].err == ETIMEDOUT && TC[i].id == 7 + i, "the timer is identified"); }
    ENS(C.last_poll <= NOW, "the time of the last poll is not in the future"); VF_END();
}
void waiting_b(void) {
    start(0); NOW = 10000; C.last_poll = NOW - (int64_t)NDR(0, 2000); int n = (int)NDR(0, 2); e0 = n == 0; no = 0;
    if(n) { dill_resume(&Q1, 0, 0); order[no++] = &Q1; } if(n > 1) { dill_resume(&QZ, 0, 0); order[no++] = &QZ; }
    for(int i = 0; i < NT; ++i) { any_cr(&TC[i]); live[i] = VF_BOOL(); T[i].item.val = VF_BOOL() ? NOW - 5 + (int64_t)NDR(0, 12) : NDR(0, 40000); T[i].cl.id = 7 + i; T[i].cl.cr = &TC[i]; T[i].cl.cancel = wb_cancel; TC[i].clauses.next = &T[i].cl.item; T[i].cl.item.next = &TC[i].clauses; }
    R.clauses.next = &R.clauses; dill_wait(); ENS(0, "the suspended coroutine does not continue");
}
#endif
#if defined VF_BNDL
/* ---- bundles: creation, wait, close; launch and end of coroutines ---- */
static int vf_setjmp(void *p) { return 0; } static void vf_longjmp(void *p) { }
int64_t dill_now(void) { return 0; } int64_t dill_mnow(void) { return 77; } int dill_pollset_poll(int t) { return 1; }
static void dc_enter(struct dill_slist **it, struct dill_cr *cr) { } static void dc_step(struct dill_slist *it) { }
#define HX 5
static struct dill_bundle B; static struct dill_bundle_clause WC, WD; static struct dill_list FRL, FRW; static struct dill_cr W, W0;
static int nmake, mkfail, nhclose, nalloc, allocfail, nmalloc, mfail, nfreed, nstackfree, nwait, nclosed, ntrig, ncanc, hqfail, seen_next; static struct dill_hvfs *made; static void *freed, *stackfreed;
static struct { char lower[256]; struct dill_cr top; } STK __attribute__((aligned(16)));
int dill_hmake(struct dill_hvfs *v) { nmake++; made = v; if(mkfail) { errno = mkfail; return -1; } return HX; }
int dill_hclose(int h) { ENS(h == HX && made, "the new bundle is closed"); nhclose++; return 0; }
void *dill_hquery(int h, const void *t) {
    ENS(t == dill_bundle_type, "a bundle is asked for");
    if(hqfail || h != HX) { errno = hqfail ? hqfail : EBADF; return NULL; }
    return made ? (void*)made : (void*)&B;
}
static void *vf_malloc(size_t n) { nmalloc++; ENS(n >= sizeof(struct dill_bundle), "room for the bundle"); return mfail ? NULL : (void*)&B; }
static void vf_free(void *p) { nfreed++; freed = p; }
void *dill_allocstack(size_t *s) { nalloc++; if(allocfail) { errno = ENOMEM; return NULL; } if(s) *s = sizeof STK; return &STK + 1; }
void dill_freestack(void *s) { nstackfree++; stackfreed = s; }
static void startb(void) {
    start(2); nmake = nhclose = nalloc = nmalloc = nfreed = nstackfree = nwait = nclosed = ntrig = ncanc = 0; made = NULL; freed = stackfreed = NULL;
    mkfail = VF_BOOL() ? 0 : VF_BOOL() ? ENOMEM : ECANCELED; mfail = VF_BOOL(); allocfail = VF_BOOL(); hqfail = VF_BOOL() ? 0 : VF_BOOL() ? EBADF : ENOTSUP;
    B.vfs.query = dill_bundle_query; B.vfs.close = dill_bundle_close; dill_list_init(&B.crs); dill_list_init(&B.waiters); any_cr(&W); any_cr(&W0);
}
/* The bundle's list of coroutines: none, W0, or W0 ... W. */
static void members(int n) {
    B.crs.next = n ? &W0.bundle : &B.crs; B.crs.prev = n == 0 ? &B.crs : n == 1 ? &W0.bundle : &W.bundle;
    W0.bundle.prev = &B.crs; W0.bundle.next = n == 1 ? &B.crs : &FRL; W.bundle.next = &B.crs; W.bundle.prev = &FRL; FRL.next = &W.bundle; FRL.prev = &W0.bundle;
#ifndef VF_CBMC
    if(n == 2) { W0.bundle.next = &W.bundle; W.bundle.prev = &W0.bundle; }
#endif
}
static void waiters(int n) {
    B.waiters.next = n ? &WC.item : &B.waiters; B.waiters.prev = n == 0 ? &B.waiters : n == 1 ? &WC.item : &FRW;
    WC.item.prev = &B.waiters; WC.item.next = n == 1 ? &B.waiters : &FRW; FRW.prev = &WC.item; FRW.next = &B.waiters; WC.cl.cancel = dill_bundle_cancel; WC.cl.id = 0; WC.cl.cr = &S;
#ifndef VF_CBMC
    WD = WC; if(n == 2) { WC.item.next = &WD.item; WD.item.prev = &WC.item; WD.item.next = &B.waiters; B.waiters.prev = &WD.item; }
#endif
}
void make_(int k) {
    int mem = k; startb(); errno = 0; int h = mem ? dill_bundle_mem(k == 2 ? NULL : (void*)&B) : dill_bundle(); int e = errno;
    if(k == 2) { ENS(h == -1 && e == EINVAL && !nmake, "null memory"); return; }
    if(!mem && mfail) { ENS(h == -1 && e == ENOMEM && !nmake && !nfreed, "out of memory"); return; }
    ENS(nmake == 1 && made == &B.vfs && nmalloc == !mem, "one handle"); ENS(B.crs.next == &B.crs && B.crs.prev == &B.crs && B.vfs.close == dill_bundle_close && B.vfs.query == dill_bundle_query, "an empty bundle");
    if(mkfail) { ENS(h == -1 && e == mkfail && nfreed == !mem && (mem || freed == &B), "nothing is leaked"); return; }
    ENS(h == HX && !nfreed && B.mem == mem, "the bundle remembers whose memory it is"); ENS(dill_bundle_query(&B.vfs, dill_bundle_type) == &B, "query"); errno = 0; ENS(!dill_bundle_query(&B.vfs, dill_cr_type) && errno == ENOTSUP, "other types"); REACH("bundle");
}
void bundle_make(void) { CASES(3, make_); }
/* ---- closing ---- */
static int PH, MN;
void vf_crclose(struct dill_hvfs *v) {
#ifndef VF_CBMC
    static int w0, w1; int *c = v == &W.vfs ? &w1 : v == &W0.vfs ? &w0 : NULL; ENS(c && !(*c)++ && !nfreed, "each coroutine of the bundle is closed"); nclosed++;
    if(v == &W0.vfs && MN) { W0.bundle.next = &B.crs; w1 = 1; } return;
#endif
    nclosed++; ENS(v == &W.vfs && !nfreed, "each coroutine of the bundle is closed"); /* others finish meanwhile */ W.bundle.next = MN ? &FRL : &B.crs; }
static void bc_enter(struct dill_list **it) {
    ENS(*it == B.crs.next, "INV close base");
    if(PH == 0) { *it = &W.bundle; W.bundle.next = &FRW; } else *it = &B.crs;
}
static void bc_step(struct dill_list *it) { ENS(nclosed == 1 && it == W.bundle.next && !nfreed, "INV close step: one coroutine is closed, then the one that follows it now"); REACH("close step"); }
void vf_trig(struct dill_clause *cl, int err) { ntrig++; ENS((cl == &WC.cl || (VF_NATIVE && cl == &WD.cl)) && err == 0 && !nfreed, "who waits for the bundle is resumed with success"); dill_bundle_cancel(cl); }
static int wn;
static void bf_enter(void) { waiters(wn); }
static void bf_step(void) { ENS(ntrig == 1 && B.waiters.next == (wn == 1 ? &B.waiters : &FRW) && B.waiters.next->prev == &B.waiters, "INV waiters step: one of them is resumed and withdrawn"); REACH("waiters step"); }
static void bclose_(int k) {
    PH = k & 1; MN = k >> 1 & 1; int mem = k >> 2 & 1; wn = (k >> 3) % 3; startb(); B.mem = mem; members(2); waiters(wn);
    dill_bundle_close(&B.vfs);
    ENS((VF_NATIVE ? nclosed == (MN ? 1 : 2) : !nclosed) && nfreed == !mem && (mem || freed == &B), "then the bundle itself is released, once"); ENS(B.waiters.next == &B.waiters, "nobody waits for it any more"); ENS(isready(0, NULL, NULL), "nobody else is affected"); REACH("bundle close");
}
void bundle_close(void) { CASES(24, bclose_); }
/* Closing one coroutine. */
static int exp_cancel; 
void vf_cancel_c(struct dill_cr *cr, int err) { ncanc++; ENS(cr == &W && err == ECANCELED && !nwait && W.no_blocking1, "its blocking call fails with ECANCELED"); }
int vf_wait_c(void) { nwait++; ENS(W.no_blocking1 && W.closer == &R && !nstackfree && C.r == &R, "it is not allowed to block any more and tells when it is over"); ENS(ncanc == exp_cancel, "a suspended coroutine is interrupted, unless it waits in hclose itself"); errno = 0; W.done = 1; return -1; }
static void crclose_(int k) {
    startb(); W.done = k & 1; int mem = W.mem = k >> 1 & 1; int rdy = k >> 2 & 1; W.no_blocking2 = k >> 3 & 1; W.no_blocking1 = 0; W.ready.next = rdy ? &FRS : NULL; int done = W.done;
    exp_cancel = !rdy && !W.no_blocking2; dill_cr_close(&W.vfs);
    ENS(nwait == !done && (!done || !ncanc), "an unfinished coroutine is waited for"); ENS(nstackfree == !mem && (mem || stackfreed == &W + 1), "its stack is released once, after that"); ENS(isready(0, NULL, NULL) && C.r == &R, "nobody else is affected");
    ENS(dill_cr_query(&W.vfs, dill_cr_type) == &W, "query"); errno = 0; ENS(!dill_cr_query(&W.vfs, dill_bundle_type) && errno == ENOTSUP, "other types"); REACH("cr close");
}
void cr_close(void) { CASES(16, crclose_); }
/* ---- end of a coroutine ---- */
static int epm, epc, epn;
void vf_cancel_e(struct dill_cr *cr, int err) { ncanc++; ENS(epc && cr == &S && err == 0 && W.done && !nwait, "who closes the coroutine is told that it finished"); }
void vf_crclose_e(struct dill_hvfs *v) {
    nclosed++; ENS(v == &W.vfs && W.done && !nwait, "a coroutine finishing on its own releases itself");
    if(epm == 0) ENS(B.crs.next == &B.crs && B.crs.prev == &B.crs && B.waiters.next == &B.waiters, "the last one leaves an empty bundle and resumes who waits for it");
    else if(epm == 1) ENS(B.crs.next == &W0.bundle && W0.bundle.next == &B.crs && B.crs.prev == &W0.bundle && W0.bundle.prev == &B.crs && !ntrig, "the others stay, nobody is resumed yet");
    else ENS(FRL.next == &FRW && FRW.prev == &FRL && !ntrig, "the others stay, nobody is resumed yet");
}
int vf_wait_e(void) { nwait++; ENS(ncanc == epc && nclosed == !epn, "everything is done before switching away"); ENS(isready(0, NULL, NULL), "nobody else is affected"); if(epn) ENS(!ntrig && W.bundle.next == &FRW, "a coroutine being closed is left to its closer"); REACH("end"); VF_END(); return 0; }
static void epi_(int k) {
    epm = k % 3; epc = (k / 3) & 1; epn = (k / 6) & 1; wn = k / 12; startb(); C.r = &W; waiters(wn); W.closer = epc ? &S : NULL; W.no_blocking1 = epn;
    if(epn) { W.bundle.next = &FRW; W.bundle.prev = &FRL; FRL.next = &W.bundle; FRW.prev = &W.bundle; }
    else if(epm == 0) { B.crs.next = B.crs.prev = &W.bundle; W.bundle.next = W.bundle.prev = &B.crs; }
    else if(epm == 1) { B.crs.next = &W0.bundle; W0.bundle.prev = &B.crs; W0.bundle.next = &W.bundle; W.bundle.prev = &W0.bundle; W.bundle.next = &B.crs; B.crs.prev = &W.bundle; }
    else { W.bundle.prev = &FRL; W.bundle.next = &FRW; FRL.next = &W.bundle; FRW.prev = &W.bundle; }
    if(epm != 0 && !epn && wn == 2) { wn = 1; waiters(1); }
    dill_epilogue(); ENS(0, "a finished coroutine does not continue"); VF_END();
}
void epilogue(void) { CASES(36, epi_); }
/* ---- waiting ---- */
static int64_t DL; static int wout, wrcx, ok_shape;
int vf_wait_w(void) {
    nwait++; struct dill_clause *b = NULL, *t = NULL; int n = 0;
    for(struct dill_slist *i = R.clauses.next; n < 3 && i != &R.clauses; i = i->next, n++) { struct dill_clause *c = dill_cont(i, struct dill_clause, item); ENS(c->cr == &R, "the waiting coroutine"); if(c->cancel == dill_timer_cancel) t = c; else b = c; }
    ENS(n == (DL < 0 ? 1 : 2) && b && !t == (DL < 0) && nins == (DL >= 0) && (DL < 0 || ti_val == DL), "waits for the end of the bundle and for the deadline"); if(!b) VF_END();
    ENS(b->cancel == dill_bundle_cancel && (!t || t->id != b->id) && b->id >= 0 && (!t || t->id >= 0), "the causes are told apart"); struct dill_bundle_clause *bc = dill_cont(b, struct dill_bundle_clause, cl);
    ENS(B.waiters.prev == &bc->item && bc->item.next == &B.waiters && bc->item.prev->next == &bc->item, "registered with the bundle");
    if(wout == 1 && !t) VF_END();
    int id = wout == 0 ? b->id : wout == 1 ? t->id : -1; dill_bundle_cancel(b); if(t) dill_timer_cancel(t);
    errno = wout == 0 ? 0 : wout == 1 ? ETIMEDOUT : ECANCELED; return id;
}
static void bwait_(int k) {
    int n = k % 3, w = (k / 3) % 3; wout = k / 9; startb(); members(n); waiters(w); int blocked = R.no_blocking1 || R.no_blocking2; DL = (int64_t)ND();
    errno = 0; int rc = dill_bundle_wait(HX, DL); int e = errno;
    ENS(B.waiters.next == (w ? &WC.item : &B.waiters) && B.waiters.prev == (w == 0 ? &B.waiters : w == 1 ? &WC.item : VF_NATIVE ? &WD.item : &FRW), "nothing of it remains in the bundle"); ENS(B.crs.next == (n ? &W0.bundle : &B.crs) && !nfreed && !nstackfree, "the bundle is intact");
    if(blocked) { ENS(rc == -1 && e == ECANCELED && !nwait, "a cancelled coroutine does not wait"); return; }
    if(hqfail) { ENS(rc == -1 && e == hqfail && !nwait, "bad handle"); return; }
    if(!n) { ENS(rc == 0 && !nwait, "an empty bundle: success at once"); REACH("empty bundle"); return; }
    ENS(nwait == 1, "one suspension"); ENS(wout == 0 ? rc == 0 : rc == -1 && e == (wout == 1 ? ETIMEDOUT : ECANCELED), "the outcome of the wait"); REACH("bundle wait");
}
void bundle_wait(void) { CASES(27, bwait_); }
/* ---- launch ---- */
#ifndef UM
#define UM 1024
#endif
static uint8_t UMEM[UM] __attribute__((aligned(16)));
static size_t UOFF, ULEN;
static void prol_(int k) {
    int user = k & 1, given = k >> 1 & 1, n = k >> 2; startb(); members(n); R.id = R.err = 55;
    size_t off = user ? UOFF : 0, len = user ? ULEN : ND(); void *ptr = user ? UMEM + off : NULL, *ptr0 = ptr; sigjmp_buf *jb = NULL; int h = given ? HX : -1 - (int)NDR(0, 3); int blocked = R.no_blocking1 || R.no_blocking2;
    if(!given && !user && nmake == 0) { /* the bundle is B */ }
    errno = 0; int rc = dill_prologue(&jb, &ptr, len, h, "f", 1); int e = errno;
    if(rc < 0) {
        ENS(rc == -1 && e && isready(0, NULL, NULL) && C.r == &R && !R.ready.next && R.id == 55, "a failed launch starts nothing"); ENS(!nstackfree, "no stack was taken");
        ENS(nhclose == (!given && nmake == 1 && !mkfail), "a bundle created for it is closed again"); if(given) ENS(!nmake && B.crs.next == (n ? &W0.bundle : &B.crs) && B.crs.prev == (n == 0 ? &B.crs : n == 1 ? &W0.bundle : &W.bundle), "an existing bundle is as before");
        if(blocked) ENS(e == ECANCELED && !nmake && !nalloc, "cancelled coroutines launch nothing");
        else if(given && hqfail) ENS(e == hqfail, "bad handle");
        else ENS(e == ENOMEM || (!given && (e == mkfail || e == hqfail)), "the reason is reported");
        if(!user && !blocked && !allocfail && !mfail && !mkfail && !hqfail) ENS(0, "nothing went wrong");
        if(user && len >= sizeof(struct dill_bundle_storage) + sizeof(struct dill_cr) + 512 && !blocked && !mkfail && !hqfail) ENS(0, "the memory is large enough");
        REACH("failed launch"); return;
    }
    ENS(!blocked && !hqfail && (given || !mkfail), "success only if nothing failed"); ENS(rc == (given ? 0 : HX) && !nhclose, "the handle"); struct dill_cr *c = C.r; ENS(ptr == c && jb == &R.ctx, "the new coroutine runs, the creator's state is saved");
    struct dill_bundle *b = given ? &B : (struct dill_bundle*)made; ENS(given || b == (user ? (void*)(UMEM + off) : (void*)&B), "the bundle's memory");
    if(user) { uint8_t *lo = UMEM + off + (given ? 0 : sizeof(struct dill_bundle_storage)); ENS((uint8_t*)c >= lo && (uint8_t*)(c + 1) <= UMEM + off + len && !nalloc, "the book-keeping is within the given memory"); ENS(((uint8_t*)c - UMEM) % 16 == 0, "the stack is aligned"); }
    else ENS(c == &STK.top && nalloc == 1, "at the top of the allocated stack");
    ENS(c->bundle.next == &b->crs && b->crs.prev == &c->bundle && c->bundle.prev->next == &c->bundle && (given ? B.crs.next == (n ? &W0.bundle : &c->bundle) && c->bundle.prev == (n == 0 ? &B.crs : n == 1 ? &W0.bundle : &W.bundle) : b->crs.next == &c->bundle), "it belongs to the bundle");
    ENS(!c->ready.next && c->clauses.next == &c->clauses && !c->closer && !c->no_blocking1 && !c->no_blocking2 && !c->done && c->mem == user && c->vfs.close == dill_cr_close && c->vfs.query == dill_cr_query, "initial state");
    ENS(isready(0, &R, NULL) && R.id == 0 && R.err == 0, "the creator continues after everybody that was runnable"); REACH("launch");
}
static void prols_(int k) { prol_((k & 1) << 1 | (k >> 1) << 2); }
void prologue_s(void) { CASES(6, prols_); }
static const size_t OFFS[5] = {0, 1, 7, 8, 15}, LENS[8] = {0, 1, 63, 64, 65, 200, 1000, 1008};
static void prolu_(int k) {
    int given = k & 1, o = (k >> 1) % 5, l = (k >> 1) / 5; UOFF = OFFS[o];
    /* every length within 17 bytes of the smallest sufficient one, and some others */
    ULEN = l < 8 ? LENS[l] : sizeof(struct dill_cr) + (given ? 0 : sizeof(struct dill_bundle_storage)) - 17 + (l - 8);
    prol_(1 | given << 1 | 1 << 2);
}
void prologue_u(void) { CASES(420, prolu_); }
#endif
#include "vf_native.h"
