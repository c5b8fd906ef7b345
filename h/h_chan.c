/* C11, C12: contracts on chan.c.  The scheduler (dill_waitfor, dill_timer,
   dill_wait, dill_trigger) is represented by its contract, proved in C13:
   a suspended coroutine is resumed once, by one cause, after the cancel
   function of every clause it registered was called.

   Every list of blocked peers is arbitrary: empty, one, two, or more than two
   elements of which the first two and the last are real and everything in
   between is an untouchable frame. */
#include "vf.h"
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
#include "cr.h"
#include "ctx.h"

static const void *cp_dst, *cp_src; static size_t cp_len; static int ncp;
static void *vf_memcpy(void *d, const void *s, size_t n) { cp_dst = d; cp_src = s; cp_len = n; ncp++; return d; }
static void *vf_malloc(size_t n); static void vf_free(void *p);
static struct dill_halfchan *loop_t; static void tm_enter(struct dill_halfchan*, int), tm_step(int);
static void sc_enter(int *i), sc_step(int i), rg_enter(int *i), rg_step(int i);
struct dill_chanclause;
static struct dill_chanclause *vla_(int n);
#define VF_VLA_ch(n) vla_(n)
#define VF_INV_d0_ENTER ({ tm_enter(ch, 0); })
#define VF_INV_d0_STEP ({ tm_step(0); })
#define VF_INV_d1_ENTER ({ tm_enter(ch, 1); })
#define VF_INV_d1_STEP ({ tm_step(1); })
#define VF_INV_sc_ENTER ({ sc_enter(&i); })
#define VF_INV_sc_STEP ({ sc_step(i); })
#define VF_INV_rg_ENTER ({ rg_enter(&i); })
#define VF_INV_rg_STEP ({ rg_step(i); })
#define memcpy vf_memcpy
#define malloc vf_malloc
#define free vf_free
#include "chan.c"
#undef memcpy
#undef malloc
#undef free

static struct dill_halfchan X[2], Y[2];
struct L { struct dill_list *l; struct dill_chanclause A, B, Z; int n; };
static char POOL;
#define ADDR() ((void*)(&POOL + (int64_t)NDR(0, 1 << 20)))
static struct L XI[2], XO[2], YI[2], YO[2];
static struct dill_list FR;   /* the frame between B and Z */
static void build(struct L *s, struct dill_list *l, int n) {
    s->l = l; s->n = n; struct dill_chanclause *c[3] = {&s->A, &s->B, &s->Z};
    for(int i = 0; i < 3; ++i) { c[i]->cl.cancel = dill_chcancel; c[i]->val = ADDR(); c[i]->len = ND(); }
    s->A.item.prev = l; l->next = n ? &s->A.item : l; s->A.item.next = n == 1 ? l : &s->B.item;
    s->B.item.prev = &s->A.item; s->B.item.next = n == 2 ? l : &FR; s->Z.item.prev = &FR; s->Z.item.next = l;
    l->prev = n == 0 ? l : n == 1 ? &s->A.item : n == 2 ? &s->B.item : &s->Z.item;
}
/* The list is as before, less its first element (drop), plus add at its end. */
static int is(struct L *s, int drop, struct dill_list *add) {
    struct dill_list *l = s->l; int n = s->n;
    struct dill_list *last = n - drop == 0 ? l : n == 1 ? &s->A.item : n == 2 ? &s->B.item : &s->Z.item;
    struct dill_list *first = n - drop == 0 ? (add ? add : l) : drop ? &s->B.item : &s->A.item;
    int r = l->next == first && first->prev == (first == l ? l->prev : l) && l->prev == (add ? add : last);
    if(first == l) r = r && l->prev == l;
    if(add) r = r && add->next == l && add->prev == last && last->next == add;
    else r = r && last->next == l;
    if(n >= 2 && !drop) r = r && s->A.item.next == &s->B.item && s->B.item.prev == &s->A.item;
    if(n == 3) r = r && s->B.item.next == &FR && s->Z.item.prev == &FR;
    return r;
}
/* Lengths of the four queues. */
static void mk(struct dill_halfchan *c, struct L *in, struct L *out, int i0, int o0, int i1, int o1) {
    int ni[2] = {i0, i1}, no[2] = {o0, o1};
    for(int i = 0; i < 2; ++i) {
        dill_halfchan_init(&c[i], i); c[i].done = VF_BOOL(); c[i].mem = VF_BOOL(); c[i].closed = 0;
        build(&in[i], &c[i].in, ni[i]); build(&out[i], &c[i].out, no[i]);
    }
}
/* Case split with constant cases: fn(0) .. fn(n-1). */
#define CASES(n, fn) do { int pick_ = (int)NDR(0, (n) - 1); for(int k_ = 0; k_ < (n); ++k_) if(pick_ == k_) { fn(k_); VF_END(); } } while(0)
/* ---- scheduler ---- */
static int canb; static int64_t DL;
int dill_canblock(void) { if(!canb) { errno = ECANCELED; return -1; } return 0; }
static struct { struct dill_clause *cl; int id; void (*cancel)(struct dill_clause*); } reg[4]; static int nreg, tmid, tmset, waits;
void dill_waitfor(struct dill_clause *cl, int id, void (*cancel)(struct dill_clause*)) { ENS(nreg < 4 && id >= 0, "clause"); reg[nreg].cl = cl; reg[nreg].id = id; reg[nreg].cancel = cancel; nreg++; }
static int PH, NCL;
void dill_timer(struct dill_tmclause *t, int id, int64_t deadline) {
#if defined VF_CHOOSE && defined VF_UNB
    if(PH == 1) { ENS(0, "INV choose register: not left early"); VF_END(); }
#endif
    ENS(!tmset && deadline == DL, "one timer with the given deadline"); tmset = 1; tmid = id; }
static struct dill_clause *trig; static int trigerr, ntrig;
void dill_trigger(struct dill_clause *cl, int err) {
    ENS(cl->cancel == dill_chcancel, "only registered clauses are triggered"); trig = cl; trigerr = err; ntrig++; dill_chcancel(cl); cl->cancel = NULL;
}
static void at_wait(void);
static int wid, werr;
int dill_wait(void) {
    waits++;
    for(int i = 0; i < nreg; ++i) ENS(reg[i].id != tmid || !tmset, "the timer is told apart from the clauses");
    ENS(tmset && ntrig == 0 && ncp == 0, "a blocking operation has not acted yet");
    at_wait();
    int k = (int)NDR(0, 5);
#if defined VF_CHOOSE && defined VF_UNB
    if(k < 4) { REQ(NCL > 0); wid = (int)NDR(0, NCL - 1); switch(NDR(0, 2)) { case 0: werr = 0; break; case 1: werr = EPIPE; break; default: werr = EMSGSIZE; } }
#else
    if(k < nreg) { wid = reg[k].id; switch(NDR(0, 2)) { case 0: werr = 0; break; case 1: werr = EPIPE; break; default: werr = EMSGSIZE; } }
#endif
    else if(k == 4) { REQ(DL >= 0); wid = tmid; werr = ETIMEDOUT; }
    else { REQ(k == 5); wid = -1; werr = ECANCELED; }
    for(int i = 0; i < nreg; ++i) { ENS(reg[i].cancel == dill_chcancel, "cancel function"); dill_chcancel(reg[i].cl); }
    errno = werr; return wid;
}
/* ---- handles: 10,11 are the ends of X, 20,21 those of Y ---- */
static int hm_fail; static int closed_h, made; static struct dill_hvfs *made_v[2];
static int HX;
void *dill_hquery(int h, const void *type) {
    ENS(type == dill_halfchan_type, "a channel is asked for");
#if defined VF_CHOOSE && defined VF_UNB
    ENS(h == HX, "the clause's own handle is looked up");
    if(HX == 10) return &X[0]; if(HX == 11) return &X[1];
#else
    if(h == 10) return &X[0]; if(h == 11) return &X[1];
    if(h == 20) return &Y[0]; if(h == 21) return &Y[1];
#endif
    errno = VF_BOOL() ? EBADF : ENOTSUP; return NULL;
}
int dill_hmake(struct dill_hvfs *v) { if(hm_fail == made + 1) { errno = EMFILE; return -1; } ENS(made < 2 && v->query && v->close, "two handles"); made_v[made] = v; return 100 + made++; }
int dill_hclose(int h) { ENS(h == 100 && made == 1, "the first handle is closed again"); closed_h++; ENS(made_v[0]->close == dill_halfchan_close, "close function"); dill_halfchan_close(made_v[0]); return 0; }
static void *blk; static int frees, mfail;
static struct dill_halfchan STO[2];
static void *vf_malloc(size_t n) { ENS(n == sizeof(struct dill_chstorage), "size"); if(mfail) return NULL; return blk = STO; }
static void vf_free(void *p) { ENS(p == blk, "the channel is released"); frees++; }

static void start(void) { canb = VF_BOOL(); DL = (int64_t)ND(); nreg = tmset = waits = ntrig = ncp = 0; }
static int SND, HH; static struct dill_halfchan *T; static struct L *QP, *QW; static void *VAL; static size_t LEN;
static int all_but(struct L *x, struct L *skip) { return x == skip || is(x, 0, NULL); }
static int others(struct L *skip) { return all_but(&XI[0], skip) && all_but(&XI[1], skip) && all_but(&XO[0], skip) && all_but(&XO[1], skip); }
#ifndef VF_CHOOSE
#define choosing 0
#define at_wait_choose() ((void)0)
#else
static int choosing;
static void at_wait_choose(void);
#endif
static void at_wait(void) {
    if(choosing) { at_wait_choose(); return; }
    ENS(DL != 0, "a zero deadline does not block");
    ENS(nreg == 1 && reg[0].cancel == dill_chcancel, "waits for the channel");
    struct dill_chanclause *c = dill_cont(reg[0].cl, struct dill_chanclause, cl);
    ENS(c->val == VAL && c->len == LEN, "peers see the message");
    ENS(is(QW, 0, &c->item) && others(QW), "queued behind all others on its side");
    REACH("blocks");
}
/* Contract of chsend and chrecv: direction, end and queue lengths by cases. */
static void sendrecv_(int k) {
    SND = k & 1; int e = k >> 1 & 1, np = k >> 2 & 3, nw = k >> 4 & 3, t = SND ? 1 - e : e;
    int ni = SND ? np : nw, no = SND ? nw : np;
    mk(X, XI, XO, t ? 2 : ni, t ? 2 : no, t ? ni : 2, t ? no : 2);
    int bad = k >> 6; HH = bad ? 5 : 10 + e; VAL = ADDR(); LEN = ND();
    T = &X[t]; QP = SND ? &XI[t] : &XO[t]; QW = SND ? &XO[t] : &XI[t];
    size_t plen = QP->A.len; void *pval = QP->A.val; int done = T->done;
    int rc = SND ? dill_chsend(HH, VAL, LEN, DL) : dill_chrecv(HH, VAL, LEN, DL);
    if(!canb) { ENS(rc == -1 && errno == ECANCELED && !ntrig && !waits && others(NULL), "a cancelled coroutine does nothing"); REACH("cancelled"); }
    else if(bad) { ENS(rc == -1 && (errno == EBADF || errno == ENOTSUP) && !ntrig && !waits && others(NULL), "bad handle"); REACH("bad handle"); }
    else if(done) { ENS(rc == -1 && errno == EPIPE && !ntrig && !waits && others(NULL), "a done channel gives EPIPE"); REACH("done"); }
    else if(QP->n) {
        ENS(ntrig == 1 && !waits && trig == &QP->A.cl && is(QP, 1, NULL) && others(QP), "exactly the first waiting peer is served");
        if(plen != LEN) { ENS(rc == -1 && errno == EMSGSIZE && trigerr == EMSGSIZE && ncp == 0, "different sizes: both fail, nothing is transferred"); REACH("size"); }
        else { ENS(rc == 0 && trigerr == 0 && ncp == 1 && cp_len == LEN && cp_dst == (SND ? pval : VAL) && cp_src == (SND ? VAL : pval), "the message is handed over once"); REACH("handed over"); }
    } else if(DL == 0) { ENS(rc == -1 && errno == ETIMEDOUT && !ntrig && !waits && others(NULL), "zero deadline: immediate timeout without a trace"); REACH("zero"); }
    else {
        ENS(waits == 1 && others(NULL), "no trace is left after the wait");
        if(wid == -1) ENS(rc == -1 && errno == ECANCELED, "cancelled while waiting");
        else if(wid == tmid) ENS(rc == -1 && errno == ETIMEDOUT, "deadline");
        else ENS(werr ? rc == -1 && errno == werr : rc == 0, "the outcome given by the peer is returned");
        REACH("waited");
    }
    ENS(X[0].closed == 0 && X[1].closed == 0 && T->done == done, "the channel state is kept");
}
#ifndef VF_CASE
#define VF_CASE -1
#endif
static void sendrecv_c(int k) { sendrecv_(k << 2 | VF_CASE); }
void sendrecv(void) { start(); if(VF_CASE < 0) CASES(68, sendrecv_); else CASES(17, sendrecv_c); }
/* ---- waking everybody: loop contract.  One iteration resumes the first
   peer of the list with EPIPE and touches nothing else; the loop ends when the
   list is empty.  Hence everybody is resumed once, in order. */
#ifdef VF_UNB
#define VF_NL 13
#else
#define VF_NL 1
#endif
static int LC; static struct L *loop_l;
static struct L *lof(struct dill_halfchan *h, int out) { int i = h == &X[1]; return out ? &XO[i] : &XI[i]; }
static int lseen[2][2];
static void tm_enter(struct dill_halfchan *ch, int out) {
    ENS(ch == &X[0] || ch == &X[1], "INV wake base"); int i = ch == &X[1]; loop_l = i ? out ? &XO[1] : &XI[1] : out ? &XO[0] : &XI[0];
    ENS(others(NULL), "INV wake base");
    int n = LC > 0 && (LC - 1) / 3 == i * 2 + out ? (LC - 1) % 3 + 1 : 0; build(loop_l, out ? &ch->out : &ch->in, n); ntrig = 0; lseen[i][out] = 1;
}
static void tm_step(int out) {
    ENS(ntrig == 1 && trig == &loop_l->A.cl && trigerr == EPIPE && is(loop_l, 1, NULL) && others(loop_l), "INV wake step: the first peer gets EPIPE");
    REACH("wake step");
}
/* LC (a constant in every case): which loop is iterated, with how long a list. */
static void chdone_(int k) {
#ifdef VF_UNB
    LC = k / 20; k %= 20; if(k / 2 != 4 && k < 18) return; /* the lists are replaced by arbitrary ones at the loops */
#endif
    int e = k & 1, ni = (k >> 1) % 3, no = (k >> 1) / 3 % 3, t = 1 - e; mk(X, XI, XO, t ? 1 : ni, t ? 2 : no, t ? ni : 1, t ? no : 2);
    int bad = k >= 18; int done = X[t].done, od = X[e].done;
    int rc = dill_chdone(bad ? 5 : 10 + e);
    if(bad) ENS(rc == -1 && others(NULL) && !ntrig, "bad handle");
    else if(done) ENS(rc == -1 && errno == EPIPE && others(NULL) && !ntrig, "done twice gives EPIPE");
    else { ENS(rc == 0 && X[t].done == 1 && X[e].done == od, "this direction is done, the other is not");
        ENS(X[t].in.next == &X[t].in && X[t].out.next == &X[t].out, "nobody is left blocked in this direction");
#ifdef VF_UNB
        ENS(lseen[t][0] && lseen[t][1], "both sides are resumed");
#else
        ENS(ntrig == XI[t].n + XO[t].n && (ntrig == 0 || trigerr == EPIPE), "everybody blocked in this direction gets EPIPE");
#endif
        ENS(is(&XI[e], 0, NULL) && is(&XO[e], 0, NULL), "the other direction is untouched"); REACH("chdone"); }
}
void chdone(void) { start(); CASES(VF_NL * 20, chdone_); }
static void chclose_(int k) {
    int e = k & 1, oc = k >> 1 & 1, n = k >> 2 & 15; LC = k >> 6;
#ifdef VF_UNB
    if(n != 15) return;
#endif
    mk(X, XI, XO, n & 1, n >> 1 & 1, n >> 2 & 1, n >> 3 & 1); X[0].mem = X[1].mem = 1; X[1 - e].closed = oc; blk = X; frees = 0;
    if(VF_BOOL()) X[0].mem = X[1].mem = 0; int mem = X[0].mem;
    int total = XI[0].n + XI[1].n + XO[0].n + XO[1].n;
    ENS(X[e].vfs.query == dill_halfchan_query && X[e].vfs.close == dill_halfchan_close, "handle functions");
    ENS(dill_halfchan_query(&X[e].vfs, dill_halfchan_type) == &X[e] && dill_halfchan_query(&X[e].vfs, &total) == NULL && errno == ENOTSUP, "query");
    dill_halfchan_close(&X[e].vfs);
    if(!oc) ENS(X[e].closed && !X[1 - e].closed && others(NULL) && !ntrig && !frees, "closing one end keeps the channel");
    else {
#ifdef VF_UNB
        ENS(lseen[0][0] && lseen[0][1] && lseen[1][0] && lseen[1][1] && frees == !mem, "closing both ends wakes everybody and releases the channel once");
#else
        ENS(ntrig == total && (total == 0 || trigerr == EPIPE) && frees == !mem, "closing both ends wakes everybody with EPIPE and releases the channel once");
#endif
        for(int i = 0; i < 2; ++i) ENS(X[i].in.next == &X[i].in && X[i].out.next == &X[i].out, "nobody is left blocked");
        REACH("both closed"); }
    REACH("chclose");
}
void chclose(void) { start(); CASES(VF_NL * 64, chclose_); }
static void chmake_(int k) {
    int mem = k & 1; hm_fail = (k >> 1) % 3; mfail = VF_BOOL(); made = closed_h = frees = 0; int hv[2]; int nul = VF_BOOL();
    blk = mem ? STO : NULL;
    int rc = mem ? dill_chmake_mem(nul ? NULL : (struct dill_chstorage*)STO, hv) : dill_chmake(hv);
    if(mem && nul) { ENS(rc == -1 && errno == EINVAL && !made, "null storage"); return; }
    if(!mem && mfail) { ENS(rc == -1 && errno == ENOMEM && !made, "no memory"); return; }
    if(hm_fail) { ENS(rc == -1 && errno == EMFILE && closed_h == hm_fail - 1 && frees == !mem, "a failure undoes everything"); REACH("chmake fail"); return; }
    struct dill_halfchan *c = STO;
    ENS(rc == 0 && hv[0] == 100 && hv[1] == 101 && made_v[0] == &c[0].vfs && made_v[1] == &c[1].vfs && frees == 0, "two handles for the two ends");
    for(int i = 0; i < 2; ++i) ENS(c[i].index == i && !c[i].done && !c[i].closed && c[i].mem == mem && c[i].in.next == &c[i].in && c[i].in.prev == &c[i].in && c[i].out.next == &c[i].out && c[i].out.prev == &c[i].out, "a fresh channel is open and empty");
    REACH("chmake");
}
void chmake(void) { start(); CASES(6, chmake_); }
#ifdef VF_CHOOSE
/* ---- choose ---- */
#ifndef NC
#define NC 3
#endif
static struct dill_chclause cls[NC]; static int ncl;
static struct L *lists[8]; static int allsame(struct L *skip) { int r = 1; for(int i = 0; i < 8; ++i) r = r && all_but(lists[i], skip); return r; }
static struct dill_halfchan *tgt(struct dill_chclause *c) {
    if(c->ch != 10 && c->ch != 11 && c->ch != 20 && c->ch != 21) return NULL;
    struct dill_halfchan *b = c->ch < 20 ? X : Y; int e = c->ch % 10; return &b[c->op == DILL_CHSEND ? 1 - e : e]; }
static struct L *lst(struct dill_halfchan *h, int in) { int y = h == &Y[0] || h == &Y[1]; int i = h == &Y[1] || h == &X[1]; return y ? (in ? &YI[i] : &YO[i]) : (in ? &XI[i] : &XO[i]); }
#ifndef VF_UNB
static void at_wait_choose(void) {
    ENS(DL != 0, "a zero deadline does not block");
    ENS(nreg == ncl, "every clause is waited for");
    for(int i = 0; i < NC; ++i) if(i < nreg) {
        ENS(reg[i].cancel == dill_chcancel && reg[i].id == i, "registered under its index");
        struct dill_chanclause *c = dill_cont(reg[i].cl, struct dill_chanclause, cl);
        ENS(c->val == cls[i].val && c->len == cls[i].len, "peers see the message");
        struct dill_halfchan *h = tgt(&cls[i]); struct dill_list *l = cls[i].op == DILL_CHSEND ? &h->out : &h->in;
        /* nodes after it on the same list are later clauses */
        int later = 0; for(int j = 0; j < NC; ++j) if(j > i && j < nreg && tgt(&cls[j]) == h && cls[j].op == cls[i].op && !later) { later = 1; ENS(c->item.next == &dill_cont(reg[j].cl, struct dill_chanclause, cl)->item, "queued in order"); }
        if(!later) ENS(c->item.next == l && l->prev == &c->item, "queued behind all others on its side");
    }
    REACH("choose blocks");
}
void choose(void) {
    start(); choosing = 1; mk(X, XI, XO, NDR(0, 3), NDR(0, 3), NDR(0, 3), NDR(0, 3)); mk(Y, YI, YO, NDR(0, 3), NDR(0, 3), NDR(0, 3), NDR(0, 3));
    struct L *a[8] = {&XI[0], &XI[1], &XO[0], &XO[1], &YI[0], &YI[1], &YO[0], &YO[1]}; for(int i = 0; i < 8; ++i) lists[i] = a[i];
    ncl = (int)NDR(0, NC); int n = VF_BOOL() ? ncl : -1; int nul = VF_BOOL();
    for(int i = 0; i < NC; ++i) { cls[i].op = (int)NDR(0, 3); cls[i].ch = (int)NDR(0, 4); cls[i].ch = cls[i].ch == 0 ? 5 : cls[i].ch < 3 ? 9 + cls[i].ch : 17 + cls[i].ch; cls[i].val = VF_BOOL() ? ADDR() : NULL; cls[i].len = ND(); }
    /* expected outcome */
    int act = -1, err = 0; struct L *peer = NULL;
    for(int i = 0; i < NC; ++i) if(i < ncl && act < 0) {
        struct dill_halfchan *h = tgt(&cls[i]); int snd = cls[i].op == DILL_CHSEND, rcv = cls[i].op == DILL_CHRECV;
        if(!h) { act = i; err = -1; }
        else if(cls[i].len > 0 && !cls[i].val) { act = i; err = EINVAL; }
        else if(!snd && !rcv) { act = i; err = EINVAL; }
        else if(h->done) { act = i; err = EPIPE; }
        else if(lst(h, snd)->n) { act = i; peer = lst(h, snd); err = peer->A.len == cls[i].len ? 0 : EMSGSIZE; }
    }
    void *pval = peer ? peer->A.val : NULL;
    int rc = dill_choose(nul && !n ? NULL : nul ? NULL : cls, n, DL);
    if(!canb) { ENS(rc == -1 && errno == ECANCELED && !ntrig && !waits && allsame(NULL), "a cancelled coroutine does nothing"); return; }
    if(n < 0 || (nul && n)) { ENS(rc == -1 && errno == EINVAL && !ntrig && !waits && allsame(NULL), "invalid arguments"); return; }
    if(nul) act = -1;
    if(act >= 0) {
        ENS(rc == act && !waits && (err < 0 ? errno == EBADF || errno == ENOTSUP : errno == err), "the first clause that can proceed or fails is reported");
        ENS(allsame(peer), "every other clause has no effect");
        if(peer) { ENS(ntrig == 1 && trig == &peer->A.cl && trigerr == err && is(peer, 1, NULL), "exactly the first waiting peer is served");
            if(err) ENS(ncp == 0, "different sizes: nothing is transferred");
            else ENS(ncp == 1 && cp_len == cls[act].len && (cls[act].op == DILL_CHSEND ? cp_dst == pval && cp_src == cls[act].val : cp_dst == cls[act].val && cp_src == pval), "the message is handed over once");
            REACH("choose acts"); }
        else ENS(ntrig == 0 && ncp == 0, "nothing is transferred");
    } else if(DL == 0) { ENS(rc == -1 && errno == ETIMEDOUT && !waits && !ntrig && allsame(NULL), "zero deadline: immediate timeout without a trace"); REACH("choose zero"); }
    else { ENS(waits == 1 && allsame(NULL), "no trace is left after the wait");
        if(wid == -1) ENS(rc == -1 && errno == ECANCELED, "cancelled while waiting");
        else if(wid == tmid) ENS(rc == -1 && errno == ETIMEDOUT, "deadline");
        else ENS(rc == wid && errno == werr, "the clause that was carried out is returned with its outcome");
        REACH("choose waited"); }
}

#endif

/* ---- choose, any number of clauses, by loop contracts.  GI is an arbitrary
   clause index and ONE is the clause there; the array is addressed so that
   only that element can be touched. ---- */
static struct dill_chclause ONE; static int GI, phase, scanned, scanstart; static struct dill_list *TGT_; static struct L *PEER; static int EXP;
static void sc_enter(int *i) { ENS(*i == 0 && others(NULL) && !ntrig && !ncp && !waits && !nreg, "INV choose scan base"); phase = 1; if(PH == 0) *i = GI; else *i = NCL; }
static void sc_step(int i) {
    ENS(i == GI + 1, "INV choose scan step: one clause after the other");
    ENS(others(NULL) && !ntrig && !ncp && !waits && !nreg, "INV choose scan step: a clause that cannot proceed has no effect");
    ENS(EXP == 1000, "INV choose scan step: only a valid clause that has to wait is passed over"); REACH("choose scan step");
}
static struct dill_chanclause CONE;
static struct dill_chanclause *vla_(int n) { ENS(n == NCL, "room for every clause"); return &CONE - GI; }
static void rg_enter(int *i) { if(PH == 0) { ENS(0, "INV choose scan: not left early"); VF_END(); } ENS(*i == 0 && phase == 1 && others(NULL) && !ntrig && !nreg && DL != 0, "INV choose register base"); phase = 2; if(PH == 1) *i = GI; else *i = NCL; }
static void rg_step(int i) {
    ENS(i == GI + 1, "INV choose register step: one clause after the other");
    ENS(nreg == 1 && reg[0].id == GI && reg[0].cancel == dill_chcancel, "INV choose register step: registered under its index");
    struct dill_chanclause *c = dill_cont(reg[0].cl, struct dill_chanclause, cl);
    ENS(c->val == ONE.val && c->len == ONE.len, "INV choose register step: peers see the message");
    ENS(is(QW, 0, &c->item) && others(QW), "INV choose register step: queued behind all others on its side");
    ENS(!ntrig && !ncp && !waits, "INV choose register step: nothing else happens"); REACH("choose register step");
}
#ifdef VF_UNB
static void at_wait_choose(void) { ENS(phase == 2 && DL != 0 && nreg == 0, "blocks only after every clause was registered"); }
/* Irrelevant combinations: an invalid handle or operation never looks at the
   peers; while registering (PH 1) every clause is known to be valid, and the
   queue to join varies instead; PH 2 only passes through. */
static void choose_u_(int k) {
#ifdef VF_PH
    if((VF_PH == 0) != (k >> 6 == 0)) return;
#endif
    { int e = k & 1, op = k >> 1 & 3, np = k >> 3 & 3, bad = k >> 5 & 1, ph = k >> 6, inv = op == 0 || op == 3;
      if(ph == 0 && ((bad && (np || e)) || (inv && (np || e)))) return;
      if(ph == 1 && (bad || inv)) return;
      if(ph == 2 && (bad || inv || np)) return; }
    int e = k & 1, op = k >> 1 & 3, np = k >> 3 & 3, bad = k >> 5 & 1; PH = k >> 6; SND = op == DILL_CHSEND; int rcv = op == DILL_CHRECV, t = SND ? 1 - e : e;
    ONE.op = op ? op : -7;
    ONE.ch = HX = bad ? 5 : 10 + e; ONE.val = VF_BOOL() ? ADDR() : NULL; ONE.len = ND();
    int nw = PH == 1 ? np : 2; np = PH == 1 ? 2 : np; int ni = SND ? np : nw, no = SND ? nw : np; mk(X, XI, XO, t ? 2 : ni, t ? 1 : no, t ? ni : 2, t ? no : 1);
    T = &X[t]; QP = SND ? &XI[t] : &XO[t]; QW = SND ? &XO[t] : &XI[t]; size_t plen = QP->A.len; void *pval = QP->A.val;
    NCL = (int)ND(); int nul = PH == 2 && e; REQ(PH == 2 || NCL > 0); GI = (int)NDR(0, INT_MAX - 1); REQ(NCL <= 0 ? 1 : GI < NCL); REQ(NCL < 1 << 20);
    EXP = bad ? -1 : ONE.len > 0 && !ONE.val ? EINVAL : !SND && !rcv ? EINVAL : T->done ? EPIPE : QP->n ? plen == ONE.len ? 0 : EMSGSIZE : 1000;
    phase = 0;
    int rc = dill_choose(nul ? NULL : &ONE - GI, NCL, DL);
    if(!canb) { ENS(rc == -1 && errno == ECANCELED && !ntrig && !waits && others(NULL), "a cancelled coroutine does nothing"); return; }
    if(NCL < 0 || (nul && NCL)) { ENS(rc == -1 && errno == EINVAL && !ntrig && !waits && others(NULL), "invalid arguments"); return; }
    if(phase == 1 && rc >= 0) {
        ENS(rc == GI && EXP != 1000 && !waits && (EXP < 0 ? errno == EBADF || errno == ENOTSUP : errno == EXP), "the first clause that can proceed or fails is reported");
        int peer = EXP == 0 || EXP == EMSGSIZE;
        ENS(others(peer ? QP : NULL), "no other effect");
        if(peer) { ENS(ntrig == 1 && trig == &QP->A.cl && trigerr == EXP && is(QP, 1, NULL), "exactly the first waiting peer is served");
            if(EXP) ENS(ncp == 0, "different sizes: nothing is transferred");
            else ENS(ncp == 1 && cp_len == ONE.len && (SND ? cp_dst == pval && cp_src == ONE.val : cp_dst == ONE.val && cp_src == pval), "the message is handed over once");
            REACH("choose acts"); }
        else ENS(ntrig == 0 && ncp == 0, "nothing is transferred");
    } else if(phase == 1) { ENS(rc == -1 && errno == ETIMEDOUT && DL == 0 && !waits && !ntrig && others(NULL), "zero deadline: immediate timeout without a trace"); REACH("choose zero"); }
    else { ENS(waits == 1, "one wait");
        if(wid == -1) ENS(rc == -1 && errno == ECANCELED, "cancelled while waiting");
        else if(wid == tmid) ENS(rc == -1 && errno == ETIMEDOUT, "deadline");
        else ENS(rc == wid && errno == werr, "the clause that was carried out is returned with its outcome");
        REACH("choose waited"); }
}
void choose_u(void) { start(); choosing = 1; CASES(192, choose_u_); }
#endif
#endif
#include "vf_native.h"
