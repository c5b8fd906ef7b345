/* C14: contracts on rbtree.c.  The trees are all red-black trees of at most 7
   nodes (tables of shapes); the values are all order types, far apart. */
#include "vf.h"
#include "rbtree.c"
#include "rbt_shapes.h"
#define MX 9
static struct dill_rbtree T; static struct dill_rbtree_item N[MX];
static struct dill_rbtree_item *at(int i) { return i < 0 ? &T.nil : &N[i]; }
#define V(i) ((int64_t)(2 * (i) + 1) * ((int64_t)3 << 32))
static void build(int k) {
    int n = SHAPES[k].n; dill_rbtree_init(&T);
    T.root.left = at(SHAPES[k].root); if(n) T.root.left->up = &T.root;
    for(int i = 0; i < n; ++i) { N[i].val = V(i); N[i].red = SHAPES[k].nd[i].red; int l = SHAPES[k].nd[i].l, r = SHAPES[k].nd[i].r;
        N[i].left = at(l); N[i].right = at(r); if(l >= 0) N[l].up = &N[i]; if(r >= 0) N[r].up = &N[i]; }
}
/* The tree consists of exactly the given items in this order and is a
   well-formed red-black tree. */
static int seen[MX], ns, okk;
static int walk(struct dill_rbtree_item *x, struct dill_rbtree_item *up, int redup, int depth) {
    if(x == &T.nil) return 0;
    if(depth == 0) { okk = 0; return 0; }
    int i = -1; for(int j = 0; j < MX; ++j) if(x == &N[j]) i = j;
    if(i < 0 || x->up != up || (redup && x->red)) { okk = 0; return 0; }
    int a = walk(x->left, x, x->red, depth - 1);
    if(ns >= MX) { okk = 0; return 0; }
    seen[ns++] = i;
    int b = walk(x->right, x, x->red, depth - 1);
    if(a != b) okk = 0;
    return a + !x->red;
}
static void is(int n, const int *want) {
    ns = 0; okk = 1; walk(T.root.left, &T.root, T.root.red, 6);
    ENS(okk && !T.nil.red && !T.root.red, "a well-formed tree"); ENS(ns == n, "exactly the expected timers are pending");
    for(int i = 0; i < n; ++i) ENS(seen[i] == want[i], "in the order of their deadlines");
    struct dill_rbtree_item *f = dill_rbtree_first(&T); ENS(f == (n ? &N[want[0]] : NULL) && !dill_rbtree_empty(&T) == !!n, "the earliest one comes first");
    if(n) { for(int i = 0; i < n; ++i) { ENS(f == &N[want[i]], "successor"); f = dill_rbtree_next(&T, f); } ENS(f == NULL, "no further item"); }
}
static void ins_(int k) { /* all ranks, also equal to an existing value (then it comes after it) */
    int n = SHAPES[k].n, want[MX]; int r = (int)NDR(0, 2 * 7);
    for(int j = 0; j <= 14; ++j) if(r == j && j <= 2 * n) {
        build(k); int64_t v = (int64_t)j * ((int64_t)3 << 32); int c = 0;
        for(int i = 0; i < n; ++i) if(V(i) <= v) want[c++] = i;
        want[c++] = 8; for(int i = 0; i < n; ++i) if(V(i) > v) want[c++] = i;
        N[8].left = N[8].right = N[8].up = NULL; N[8].red = 0;
        dill_rbtree_insert(&T, v, &N[8]); ENS(N[8].val == v, "value stored"); is(n + 1, want); REACH("insert"); VF_END();
    }
}
static void era_(int k) {
    int n = SHAPES[k].n, want[MX]; int r = (int)NDR(0, 6);
    for(int j = 0; j < 7; ++j) if(r == j && j < n) {
        build(k); int c = 0; for(int i = 0; i < n; ++i) if(i != j) want[c++] = i;
        dill_rbtree_erase(&T, &N[j]); is(n - 1, want); for(int i = 0; i < n; ++i) ENS(N[i].val == V(i), "deadlines are kept"); REACH("erase"); VF_END();
    }
}
#define CASES(n, fn) do { int pick_ = (int)NDR(0, (n) - 1); for(int k_ = 0; k_ < (n); ++k_) if(pick_ == k_) { fn(k_); VF_END(); } } while(0)
#ifndef UPTO
#define UPTO NSHAPES
#endif
void rb_insert(void) { CASES(UPTO, ins_); }
void rb_erase(void) { CASES(UPTO, era_); }
void rb_init(void) { dill_rbtree_init(&T); is(0, NULL); REACH("init"); }
/* Native only: long histories. */
#define HN 40
static struct dill_rbtree_item H[HN]; static int in[HN], seq[HN];
void rb_history(void) {
    dill_rbtree_init(&T); int t = 0;
    for(int s = 0; s < 300; ++s) {
        int i = (int)NDR(0, HN - 1);
        if(in[i]) { dill_rbtree_erase(&T, &H[i]); in[i] = 0; } else { dill_rbtree_insert(&T, (int64_t)NDR(0, 30) << 33, &H[i]); in[i] = 1; seq[i] = t++; }
        struct dill_rbtree_item *f = dill_rbtree_first(&T); int cnt = 0, tot = 0; for(int j = 0; j < HN; ++j) tot += in[j];
        ENS(!f == dill_rbtree_empty(&T), "empty"); int64_t last = -1;
        for(; f; f = dill_rbtree_next(&T, f)) { ENS(f >= H && f < H + HN && in[f - H] && f->val >= last, "order"); last = f->val; ENS(++cnt <= tot, "no duplicates"); }
        ENS(cnt == tot, "nothing lost");
    }
}
#include "vf_native.h"
