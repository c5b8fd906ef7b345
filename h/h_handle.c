/* C01: contracts on dill_hmake, dill_hclose, dill_hown, dill_hquery (handle.c). */
#include "vf.h"

/* realloc is an assumed contract: either NULL and the old block intact, or a
   block of the new size whose old part has the old content. */
static void *vf_realloc(void *p, size_t n);
#define VF_INV_hmake_ENTER ({ ENS(INVhm(hndls, i, sz), "INV hmake base"); \
      i = (int)NDR(0, 2 * (u64)VF_MAXN); int gnx = (int)NDR(0, 2 * (u64)VF_MAXN) ; \
      REQ(i >= n && i <= sz - 1); REQ(g_wit < n || g_wit >= i || hndls[g_wit].next == g_wit + 1); })
#define VF_INV_hmake_STEP ENS(INVhm(hndls, i, sz), "INV hmake step")
static int INVhm(void *h, int i, int sz);
static int n, g_wit;
#define VF_MAXN (1 << 24)
#define realloc vf_realloc
#include "ctx.h"
#include "handle.c"
#undef realloc

struct dill_ctx dill_ctx_;
struct dill_ctx *dill_ctx_init(void) { ENS(0, "context is already initialised"); VF_END(); return 0; }

/* ---- dependencies from cr.c (contracts proved in C13) */
static int g_noblock, g_cancelled;
int dill_canblock(void) {
    if(g_noblock || g_cancelled) { errno = ECANCELED; return -1; }
    return 0;
}
int dill_no_blocking(int val) { int o = g_noblock; g_noblock = val; return o; }

/* ---- objects */
struct obj { struct dill_hvfs vfs; int id; int closed; int answers; };
static const int t_a = 0, t_b = 0;
#define NOBJ 4
static struct obj O[NOBJ];
static int g_nested;              /* what the destructor does */
static int g_nested_h = -1, g_nested_rc;
static int g_closing;
static int g_queries; static const void *g_qtype; static struct dill_hvfs *g_qself; static int g_qnull;
static void *g_qans;
static void *o_query(struct dill_hvfs *vfs, const void *type) {
    g_queries++; g_qtype = type; g_qself = vfs;
    if(g_qnull) { errno = ENOTSUP; return NULL; }
    /* the answer depends on object and type */
    return type == &t_a ? (void*)((char*)vfs + 1) : (void*)((char*)vfs + 2);
}
static void o_close(struct dill_hvfs *vfs) {
    struct obj *o = (struct obj*)vfs;
    o->closed++;
    ENS(g_noblock, "the destructor runs with blocking calls disabled");
    if(g_closing) return;         /* nested closure: nothing more */
    g_closing = 1;
    if(g_nested == 1) {
        /* Closing a coroutine runs others, which may create handles. */
        int save = g_noblock; g_noblock = 0;
        g_nested_h = dill_hmake(&O[3].vfs);
        g_noblock = save;
    }
    else if(g_nested == 2) g_nested_rc = dill_hclose(g_nested_h);
    g_closing = 0;
}

static struct dill_handle *T;
static int w;                     /* arbitrary witness slot: frame */
static struct dill_handle W;
static int q0, q1, ql, m, lost;   /* ghost: head, second, tail and length of the free queue */
#define C (&dill_ctx_.handle)
static int g_reallocs; static size_t g_resz; static int g_fail; static struct dill_handle *T2;

#ifdef VF_UNB
#define MAXN (1 << 24)
static void *vf_realloc(void *p, size_t sz) {
    g_reallocs++; g_resz = sz;
    ENS(p == T, "the existing table is the one resized");
    if(g_fail) { errno = ENOMEM; return NULL; }
    T2 = malloc(sz);
    REQ(T2 != NULL);
    if((size_t)w < sz / sizeof(struct dill_handle) && w < n) T2[w] = T[w];
    if((size_t)w < sz / sizeof(struct dill_handle) && w < n) W = T2[w];
    return T2;
}
#else
#ifndef MAXN
#define MAXN 4
#endif
#define CAP (MAXN * 8)
static void *vf_realloc(void *p, size_t sz) {
    g_reallocs++; g_resz = sz;
    if(g_fail) { errno = ENOMEM; return NULL; }
#if VF_NATIVE
    T2 = malloc(sz);
#else
    ENS(sz <= CAP * sizeof(struct dill_handle), "bounded table");
    T2 = malloc(CAP * sizeof(struct dill_handle));
#endif
    REQ(T2 != NULL);
    size_t k = sz / sizeof(struct dill_handle);
    for(int i = 0; i != C->nhandles; ++i) if((size_t)i < k) T2[i] = ((struct dill_handle*)p)[i];
    /* Fresh memory is not zeroed. */
    for(size_t i = C->nhandles; i < k; ++i) { T2[i].next = (int)NDR(0, 8) - 3; T2[i].vfs = 0; T2[i].type = 0; T2[i].ptr = 0; }
    free(p);
    return T2;
}
#endif

static void init_obj(void) {
    for(int i = 0; i < NOBJ; ++i) { O[i].vfs.query = o_query; O[i].vfs.close = o_close; O[i].id = i; O[i].closed = 0; }
}

/* Precondition: an arbitrary well-formed table of n slots. Well-formedness
   facts about the free queue are stated for the slots the operation may touch
   (head, second, tail, witness); the frame obligation on an arbitrary witness
   slot carries them over to every other slot. */
static void any_table(void) {
    init_obj();
#ifdef VF_UNB
    n = (int)NDR(256, MAXN);
#else
    n = MAXN;
#endif
    T = malloc(n * sizeof(struct dill_handle));
    REQ(T != NULL);
#ifndef VF_UNB
    for(int i = 0; i < n; ++i) { T[i].next = -2; T[i].vfs = &O[i % 2].vfs; T[i].type = VF_BOOL() ? &t_a : NULL; T[i].ptr = T[i].type ? (char*)T[i].vfs + 1 : NULL; }
    m = (int)NDR(0, n);
    /* free queue: an arbitrary injective sequence */
    int q[MAXN];
    for(int i = 0; i < m; ++i) {
        q[i] = (int)NDR(0, n - 1);
        REQ(T[q[i]].next == -2);
        T[q[i]].next = -1; T[q[i]].type = NULL; T[q[i]].ptr = NULL;
    }
    for(int i = 0; i + 1 < m; ++i) T[q[i]].next = q[i + 1];
    q0 = m > 0 ? q[0] : -1; q1 = m > 1 ? q[1] : -1; ql = m > 0 ? q[m - 1] : (int)NDR(0, n) - 1;
    lost = 0;
#else
    m = (int)NDR(0, n);
    lost = (int)NDR(0, 8);
    q0 = (int)NDR(0, n) - 1; q1 = (int)NDR(0, n) - 1; ql = (int)NDR(0, n) - 1;
    REQ(lost + m <= n);
    if(m == 0) REQ(q0 == -1);
    if(m >= 1) { REQ(q0 >= 0 && q0 < n && ql >= 0 && ql < n && T[ql].next == -1); }
    if(m == 1) REQ(q0 == ql && q1 == -1);
    if(m >= 2) { REQ(q0 != ql && q1 >= 0 && q1 < n && q1 != q0 && T[q0].next == q1); REQ((m == 2) == (q1 == ql)); REQ(T[q1].next != -2); }
#endif
    C->handles = T; C->nhandles = n; C->nused = n - m - lost; C->first = q0; C->last = ql;
    w = (int)NDR(0, n - 1);
    W = T[w];
    g_cancelled = VF_BOOL(); g_noblock = 0;
    g_fail = VF_BOOL();
    dill_ctx_.initialized = 1;
}
#define SAME(a, b) ((a).vfs == (b).vfs && (a).next == (b).next && (a).type == (b).type && (a).ptr == (b).ptr)

/* g_wit: arbitrary slot of the grown part */
static int INVhm(void *hh, int i, int sz) {
    struct dill_handle *h = hh;
    return i >= n && i <= sz - 1 && (g_wit < n || g_wit >= i || h[g_wit].next == g_wit + 1) && (w >= n || SAME(h[w], W));
}

/* Contract of dill_hmake. */
void hmake_contract(void) {
    any_table();
#ifdef VF_UNB
    g_wit = (int)NDR(0, 2 * (u64)MAXN - 1);
#else
    g_wit = (int)NDR(0, 2 * MAXN - 1);
#endif
    struct obj *o = &O[2];
    int bad = (int)NDR(0, 3);
    if(bad == 1) o->vfs.query = NULL;
    if(bad == 2) o->vfs.close = NULL;
    int first = C->first, last = C->last, nused = C->nused, in_use = m ? T[q0].next : 0;
    int grow = n - nused <= 8;
    int h = dill_hmake(bad == 3 ? NULL : &o->vfs);
    struct dill_handle *N = C->handles;
    if(bad || g_cancelled || (grow && g_fail)) {
        ENS(h == -1, "failed creation returns -1");
        ENS(errno == (bad ? EINVAL : g_cancelled ? ECANCELED : ENOMEM), "failed creation reports its error");
        ENS(N == T && C->nhandles == n && C->nused == nused && C->first == first && (m == 0 || C->last == last), "failed creation leaves the table alone");
        ENS(SAME(N[w], W), "failed creation leaves every slot alone");
        REACH("hmake failure");
        return;
    }
    ENS(h >= 0 && h < C->nhandles, "new handle in range");
    ENS(N[h].next == -2 && N[h].vfs == &o->vfs && N[h].ptr == NULL, "new handle designates the object and has no cached answer");
    ENS(C->nused == nused + 1, "one more handle in use");
    ENS(h >= n || W.next != -2 || w != h, "new handle was not in use");
    if(w != h) ENS(SAME(N[w], W), "every other slot unchanged");
    ENS(o->closed == 0, "no destructor runs");
    if(grow) {
        ENS(C->nhandles > n && C->nhandles - C->nused > 0, "table grown");
        ENS(g_resz >= C->nhandles * sizeof(struct dill_handle), "allocation covers the table");
        if(h >= n && g_wit >= n && g_wit < C->nhandles && g_wit != h)
            ENS(N[g_wit].next == (g_wit == C->nhandles - 1 ? -1 : g_wit + 1), "new slots are chained once each");
        if(h >= n && g_wit == h) ENS(C->first == h + 1 && h == n && C->last == C->nhandles - 1, "free queue is the rest of the new slots");
        REACH("hmake growth");
    } else {
        ENS(C->nhandles == n && N == T, "table not resized");
        ENS(m > 0 && h == q0, "handle taken from the head of the free queue");
        ENS(C->first == (m >= 2 ? q1 : -1), "head of the free queue removed");
        ENS(m < 2 || C->last == last, "tail of the free queue kept");
        REACH("hmake no growth");
    }
}

/* Well-formed free queue after h was released. */
static void released(int h, int x0, int x1, int xl, int xm, int grown) {
    struct dill_handle *N = C->handles;
    ENS(N[h].next == -1, "released slot is not in use and ends the free queue");
    ENS(N[h].ptr == NULL, "released slot keeps no cached answer");
    ENS(C->last == h, "released slot is the tail");
    if(xm == 0) ENS(C->first == h, "released slot is the head of an empty queue");
    else { ENS(C->first == x0, "head kept"); ENS(N[xl].next == h, "old tail links to the released slot"); }
}

/* Contract of dill_hclose. */
void hclose_contract(void) {
    any_table();
    REQ(m + lost < n);
    int h = (int)(int64_t)ND();
    int nused = C->nused;
    int valid = h >= 0 && h < n && T[h].next == -2;
#ifdef VF_UNB
    if(valid) T[h].vfs = &O[0].vfs;
    if(h >= 0 && h < n && m > 0) REQ(!(valid && (h == q0 || h == q1 || h == ql)));
    if(valid) { REQ(m == 0 || T[q0].next != -2); }
    W = T[w];
#endif
    g_nested = 0;
    int rc = dill_hclose(h);
    struct dill_handle *N = C->handles;
    if(!valid) {
        ENS(rc == -1 && errno == EBADF, "closing an invalid handle gives EBADF");
        ENS(SAME(N[w], W) && C->nused == nused && O[0].closed + O[1].closed + O[2].closed + O[3].closed == 0, "and touches nothing");
        ENS(C->first == q0 && C->last == ql, "and keeps the free queue");
        REACH("hclose invalid");
        return;
    }
    ENS(rc == 0, "closing a valid handle succeeds");
    ENS(((struct obj*)(h == w ? W.vfs : N[h].vfs))->closed == 1, "destructor ran exactly once");
    ENS(O[0].closed + O[1].closed + O[2].closed + O[3].closed == 1, "only that destructor ran");
    ENS(g_noblock == 0, "blocking state restored");
    ENS(C->nused == nused - 1, "one handle fewer in use");
    released(h, q0, q1, ql, m, 0);
    if(w != h && !(m > 0 && w == ql)) ENS(SAME(N[w], W), "every other slot unchanged");
    if(w != h && m > 0 && w == ql) ENS(N[w].next != -2 && N[w].ptr == W.ptr, "tail slot stays free");
    REACH("hclose valid");
}

/* Contract of dill_hown. */
void hown_contract(void) {
    any_table();
    int h = (int)(int64_t)ND();
    int nused = C->nused;
    int valid = h >= 0 && h < n && T[h].next == -2;
    g_wit = n;
#ifdef VF_UNB
    if(valid) T[h].vfs = &O[0].vfs;
    if(h >= 0 && h < n && m > 0) REQ(!(valid && (h == q0 || h == q1 || h == ql)));
    if(valid) { REQ(m == 0 || T[q0].next != -2); REQ(m + lost < n); }
    W = T[w];
#endif
    struct dill_hvfs *v = valid ? T[h].vfs : NULL;
#ifdef VF_UNB
    /* realloc copies the witness; the moved slot is a second relevant one */
    REQ(n - nused > 8 || g_fail || !valid || w == h);
#endif
    int grow = n - nused <= 8;
    int r = dill_hown(h);
    struct dill_handle *N = C->handles;
    int closed = O[0].closed + O[1].closed + O[2].closed + O[3].closed;
    if(!valid) {
        ENS(r == -1 && errno == EBADF && closed == 0 && SAME(N[w], W) && C->nused == nused, "moving an invalid handle gives EBADF and touches nothing");
        REACH("hown invalid"); return;
    }
    if(g_cancelled || (grow && g_fail)) {
        ENS(r == -1, "failed move reports failure");
        ENS(errno == (g_cancelled ? ECANCELED : ENOMEM), "failed move reports its error");
        ENS(closed == 1 && ((struct obj*)v)->closed == 1, "failed move closes the object once");
        ENS(N[h].next != -2 && C->nused == nused - 1, "failed move releases the handle");
        ENS(g_noblock == 0, "blocking state restored");
        REACH("hown failure"); return;
    }
    ENS(r >= 0 && r < C->nhandles && r != h, "moved to a different handle");
    ENS(N[r].next == -2 && N[r].vfs == v && N[r].ptr == NULL, "new handle designates the same object");
    ENS(N[h].next != -2, "old handle is not valid any more");
    ENS(N[h].ptr == NULL, "old slot keeps no cached answer");
    ENS(closed == 0, "the object stays alive");
    ENS(C->nused == nused, "number of handles unchanged");
    ENS(C->last == h && N[h].next == -1, "old slot is the tail of the free queue");
    if(!grow) {
        ENS(r == q0, "handle taken from the free queue");
        if(m == 1) ENS(C->first == h, "queue holds just the old slot");
        else { ENS(C->first == q1, "head removed"); ENS(N[ql].next == h, "old tail links to the old slot"); }
    }
    if(w != h && w != r && !(m > 0 && w == ql)) ENS(SAME(N[w], W), "every other slot unchanged");
    REACH("hown ok");
}

/* Contract of dill_hquery: the answer is what the object itself answers. The
   cache invariant (a cached pointer is the object's answer for the cached
   type) is assumed and re-established. */
void hquery_contract(void) {
    any_table();
    int h = (int)(int64_t)ND();
    const void *type = VF_BOOL() ? &t_a : &t_b;
    g_qnull = VF_BOOL();
    int valid = h >= 0 && h < n && T[h].next == -2;
#ifdef VF_UNB
    if(valid) {
        T[h].vfs = VF_BOOL() ? &O[0].vfs : &O[1].vfs;
        int c = (int)NDR(0, 2);
        T[h].type = c == 0 ? NULL : c == 1 ? (const void*)&t_a : (const void*)&t_b;
        T[h].ptr = c == 0 ? NULL : c == 1 ? (void*)((char*)T[h].vfs + 1) : (void*)((char*)T[h].vfs + 2);
    }
    W = T[w];
#endif
    if(valid && T[h].ptr) REQ(!g_qnull);
    struct dill_hvfs *v = valid ? T[h].vfs : NULL;
    int nused = C->nused;
    void *p = dill_hquery(h, type);
    struct dill_handle *N = C->handles;
    ENS(N == T && C->nused == nused && C->nhandles == n && C->first == q0 && C->last == ql, "a query does not change the table");
    if(w != h) ENS(SAME(N[w], W), "a query changes no other slot");
    if(!valid) {
        ENS(p == NULL && errno == EBADF && g_queries == 0, "querying an invalid handle gives EBADF and touches no object");
        ENS(SAME(N[w], W), "and changes nothing");
        REACH("hquery invalid"); return;
    }
    ENS(N[h].next == -2 && N[h].vfs == v, "the handle stays valid");
    if(g_qnull) {
        ENS(p == NULL && errno == ENOTSUP, "unsupported type is reported");
        REACH("hquery unsupported");
    } else {
        ENS(p == (void*)((char*)v + (type == &t_a ? 1 : 2)), "the answer is the object's own answer for that type");
        REACH("hquery ok");
    }
    ENS(N[h].ptr == NULL || N[h].ptr == (void*)((char*)v + (N[h].type == &t_a ? 1 : 2)), "the cache stays truthful");
    ENS(N[h].ptr == NULL || N[h].type == &t_a || N[h].type == &t_b, "the cache is keyed by the type asked for");
    if(g_queries) ENS(g_qself == v && g_qtype == type, "the object itself is asked for the type");
}

#ifndef VF_UNB
/* History over the real operations, with destructors that create or close
   other handles. The abstract state is a map handle -> object. */
#define H (8 * MAXN)
void handle_history(void) {
    any_table();
    REQ(m < n);
    g_fail = 0; g_cancelled = 0;
    struct dill_hvfs *map[H];
    for(int i = 0; i < H; ++i) map[i] = i < n && T[i].next == -2 ? T[i].vfs : NULL;
    int h = (int)NDR(0, n - 1), x = (int)NDR(0, n - 1);
    REQ(map[h]);
    map[h] = T[h].vfs = &O[0].vfs;
    T[h].ptr = NULL;
    g_nested = (int)NDR(0, 2);
    if(g_nested == 2) { REQ(map[x] && x != h); map[x] = T[x].vfs = &O[1].vfs; T[x].ptr = NULL; g_nested_h = x; }
    int rc = dill_hclose(h);
    ENS(rc == 0, "close succeeds");
    map[h] = NULL;
    ENS(O[0].closed == 1, "destructor ran once");
    if(g_nested == 1) {
        ENS(g_nested_h >= 0 && g_nested_h != h && g_nested_h < H && !map[g_nested_h], "handle created during the closure is fresh");
        map[g_nested_h] = &O[3].vfs;
        ENS(O[3].closed == 0, "and alive");
    }
    if(g_nested == 2) { ENS(g_nested_rc == 0 && O[1].closed == 1, "nested closure closes its own object once"); map[x] = NULL; }
    /* every handle answers according to the map */
    int nh = C->nhandles;
    for(int i = 0; i < H; ++i) {
        errno = 0;
        void *p = dill_hquery(i, &t_a);
        if(map[i]) ENS(p == (void*)((char*)map[i] + 1), "live handles keep designating their object");
        else ENS(p == NULL && errno == EBADF, "closed handles are invalid");
    }
    ENS(C->nused >= 0 && C->nused < C->nhandles, "use count in range");
    ENS(C->first >= 0 && C->first < C->nhandles && C->handles[C->first].next != -2, "next handle to be issued is free");
    REACH("history");
}
#endif
#include "vf_native.h"
