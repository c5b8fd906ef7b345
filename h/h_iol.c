/* C03: contracts on the iolist functions (iol.c) and on the vectored entry
   points (bsock.c, msock.c). */
#include "vf.h"
#include "libdill.h"

/* ---------------------------------------------------------------------- */
/* Abstract list: GN nodes in the order in which they are reached from the
   first one; after the last node comes either nothing or node GC (a loop).
   Every list reachable from a pointer has this shape, so nothing is lost by
   laying the nodes out in an array. LN/OM/BS hold the original length, mark
   and buffer of each node; GP is the first node that is already marked. */
static struct dill_iolist *G; static size_t GN, GC, GP; static int glasso;
static size_t *LN; static int *OM; static size_t *BS;
static size_t w;                  /* arbitrary witness node */
static size_t gi, gj, gk, gS, gNB, gN0;
static char *POOL; static size_t POOLSZ;
#define BASE(i) (BS[i] ? (void*)(POOL + BS[i]) : NULL)
static struct dill_iolist *nxt(size_t i) { return i + 1 < GN ? &G[i + 1] : glasso ? &G[GC] : NULL; }
static int node_is(size_t i, int r) {
    return G[i].iol_next == nxt(i) && G[i].iol_len == LN[i] && G[i].iol_base == BASE(i) && G[i].iol_rsvd == r;
}
#define AT(i) ((i) < GN ? &G[i] : glasso ? &G[GC] : NULL)
#define OMF(i) REQ(((i) >= GP || OM[i] == 0) && ((i) != GP || OM[i] != 0))

#ifdef VF_UNB
/* loop 0 of dill_iolcheck: marking */
#define VF_INV_chk0_ENTER ({ gi = 0; gS = 0; ENS(it == AT(gi) && nbf == 0 && nbt == 0 && node_is(w, OM[w]), "INV iolcheck mark base"); \
    gi = NDR(0, 1 << 30); REQ(gi <= GN && gi <= GP); gS = ND(); __CPROVER_havoc_object(G); \
    it = AT(gi); nbf = gi; nbt = gS; \
    REQ(node_is(w, w < gi ? 1 : OM[w])); if(gi < GN) { OMF(gi); REQ(node_is(gi, OM[gi])); } else if(glasso) REQ(node_is(GC, 1)); else REQ(last == &G[GN - 1]); })
#define VF_INV_chk0_STEP ({ gS += LN[gi]; gi++; ENS(gi <= GN && gi <= GP && (gi < GN || glasso || last == &G[GN - 1]) && it == AT(gi) && nbf == gi && nbt == gS && node_is(w, w < gi ? 1 : OM[w]), "INV iolcheck mark step"); })
/* loop 1: unmarking after success */
#define VF_INV_chk1_ENTER ({ gj = 0; gS = nbt; gNB = nbf; ENS(it == &G[0] && nbf == GN && !glasso && GP >= GN && node_is(w, 1), "INV iolcheck unmark base"); \
    gj = NDR(0, 1 << 30); REQ(gj <= GN); __CPROVER_havoc_object(G); it = gj < GN ? &G[gj] : NULL; \
    REQ(node_is(w, w < gj ? 0 : 1)); if(gj < GN) REQ(node_is(gj, 1)); })
#define VF_INV_chk1_STEP ({ gj++; ENS(it == (gj < GN ? &G[gj] : NULL) && node_is(w, w < gj ? 0 : 1), "INV iolcheck unmark step"); })
/* loop 2: unmarking after failure */
#define VF_INV_chk2_ENTER ({ gk = 0; gNB = nbf; ENS(it2 == &G[0] && nbf <= GN && nbf <= GP && node_is(w, w < gNB ? 1 : OM[w]), "INV iolcheck undo base"); \
    gk = NDR(0, 1 << 30); REQ(gk <= gNB); __CPROVER_havoc_object(G); it2 = AT(gk); nbf = gNB - gk; \
    REQ(node_is(w, w < gk ? 0 : w < gNB ? 1 : OM[w])); if(gk < gNB) { REQ(node_is(gk, 1)); } })
#define VF_INV_chk2_STEP ({ gk++; ENS(it2 == AT(gk) && nbf == gNB - gk && node_is(w, w < gk ? 0 : w < gNB ? 1 : OM[w]), "INV iolcheck undo step"); })

/* dill_ioltoiov */
static struct iovec *V;
#define VW(i) (w >= (i) || (V[w].iov_base == BASE(w) && V[w].iov_len == LN[w]))
#define VF_INV_iov_ENTER ({ gi = 0; ENS(first == AT(0) && iov == V, "INV ioltoiov base"); gi = NDR(0, 1 << 30); REQ(gi <= GN); \
    first = AT(gi); iov = V + gi; __CPROVER_havoc_object(V); REQ(VW(gi)); if(gi < GN) REQ(node_is(gi, 0)); })
#define VF_INV_iov_STEP ({ gi++; ENS(first == AT(gi) && iov == V + gi && VW(gi), "INV ioltoiov step"); })
/* dill_ioltrim: gS bytes before node gi */
#define VF_INV_trim_ENTER ({ gi = 0; gS = 0; ENS(first == AT(0) && n == gN0, "INV ioltrim base"); gi = NDR(0, 1 << 30); gS = ND(); REQ(gi <= GN && gS <= gN0); \
    REQ(gi > 0 || gS == 0); REQ(gi == 0 || gS < gN0); first = AT(gi); n = gN0 - gS; if(gi < GN) { REQ(node_is(gi, 0)); REQ(BS[gi] <= POOLSZ && LN[gi] <= POOLSZ - BS[gi]); } })
#define VF_INV_trim_STEP ({ gS += LN[gi]; gi++; ENS(gi <= GN && gS < gN0 && first == AT(gi) && n == gN0 - gS, "INV ioltrim step"); })
/* dill_iolto / dill_iolfrom: gS bytes copied before node gi */
static const uint8_t *gsrc; static uint8_t *gdst;
static size_t g_copied_n; static int g_copies;
static void *vf_memcpy(void *d, const void *s, size_t n) {
    g_copies++;
    if(gsrc) {
        ENS(gi < GN && d == BASE(gi) && BS[gi], "copy goes to the buffer of the current element");
        ENS((const uint8_t*)s == gsrc + gS, "copy continues where the previous one ended");
        ENS(n == (LN[gi] < gN0 - gS ? LN[gi] : gN0 - gS), "copy has exactly the bytes that belong there");
    } else {
        ENS(gi < GN && s == BASE(gi) && n == LN[gi], "copy takes exactly the current element");
        ENS((uint8_t*)d == gdst + gS && n <= gN0 - gS, "copy is appended and fits");
    }
    g_copied_n = n;
    return d;
}
#define VF_INV_to_ENTER ({ gi = 0; gS = 0; ENS(first == AT(0) && p == gsrc && srclen == gN0, "INV iolto base"); gi = NDR(0, 1 << 30); gS = ND(); REQ(gi <= GN && gS <= gN0); \
    REQ(gi > 0 || gS == 0); first = AT(gi); p = gsrc + gS; srclen = gN0 - gS; if(gi < GN) REQ(node_is(gi, 0)); g_copies = 0; })
#define VF_INV_to_STEP ({ ENS(LN[gi] == 0 || (g_copies == 1) == (BS[gi] != 0), "each element is filled once"); gS += LN[gi]; gi++; ENS(gi <= GN && gS <= gN0 && first == AT(gi) && p == gsrc + gS && srclen == gN0 - gS, "INV iolto step"); })
#define VF_INV_from_ENTER ({ gi = 0; gS = 0; ENS(first == AT(0) && p == gdst && dstlen == gN0, "INV iolfrom base"); gi = NDR(0, 1 << 30); gS = ND(); REQ(gi <= GN && gS <= gN0); \
    REQ(gi > 0 || gS == 0); first = AT(gi); p = gdst + gS; dstlen = gN0 - gS; if(gi < GN) REQ(node_is(gi, 0)); g_copies = 0; })
#define VF_INV_from_STEP ({ ENS(g_copies == 1 || LN[gi] == 0, "each element is taken once"); gS += LN[gi]; gi++; ENS(gi <= GN && gS <= gN0 && first == AT(gi) && p == gdst + gS && dstlen == gN0 - gS, "INV iolfrom step"); })
#ifdef VF_MEMCPY
#define memcpy vf_memcpy
#endif
#endif

#include "iol.c"
#undef memcpy

#ifdef VF_UNB
static void any_list(int wellformed) {
    GN = NDR(1, 1 << 24);
    G = malloc(GN * sizeof(*G)); LN = malloc(GN * sizeof(size_t)); OM = malloc(GN * sizeof(int)); BS = malloc(GN * sizeof(size_t));
    POOLSZ = (size_t)1 << 40; POOL = malloc(POOLSZ);
    REQ(G && LN && OM && BS && POOL);
    glasso = wellformed ? 0 : VF_BOOL(); GC = NDR(0, 1 << 24); REQ(GC < GN);
    GP = wellformed ? GN : NDR(0, 1 << 24); REQ(GP <= GN);
    w = NDR(0, 1 << 24); REQ(w < GN);
    OMF(0); OMF(w); OMF(GN - 1);
    if(wellformed) REQ(OM[w] == 0);
    if(GP < GN) REQ(OM[GP] != 0);
    REQ(node_is(w, OM[w])); REQ(node_is(0, OM[0])); REQ(node_is(GN - 1, OM[GN - 1]));
}
/* Contract of dill_iolcheck, all lists. */
void iolcheck_u(void) {
    any_list(0);
    static struct dill_iolist X;  /* a node that is not in the list */
    size_t lx = NDR(0, 1 << 24); REQ(lx < GN); OMF(lx); REQ(node_is(lx, OM[lx]));
    int c = (int)NDR(0, 2), nofirst = VF_BOOL();
    struct dill_iolist *first = nofirst ? NULL : G, *last = c == 0 ? NULL : c == 1 ? &G[lx] : &X;
    size_t nb = 77, by = 78; int wn = VF_BOOL(), wb = VF_BOOL();
    int rc = dill_iolcheck(first, last, wn ? &nb : NULL, wb ? &by : NULL);
    if(nofirst && c == 0) {
        ENS(rc == 0 && (!wn || nb == 0) && (!wb || by == 0), "a null list is valid and empty");
        REACH("null list");
    } else if(!nofirst && c == 1 && lx == GN - 1 && !glasso && GP == GN) {
        ENS(rc == 0, "a well-formed list is accepted");
        ENS(!wn || nb == GN, "elements are counted");
        ENS(!wb || by == gS, "bytes are summed");
        REACH("good list");
    } else {
        ENS(rc == -1 && errno == EINVAL, "a malformed list is refused with EINVAL");
        REACH("bad list");
    }
    ENS(node_is(w, OM[w]), "the list is handed back unmodified");
    ENS(X.iol_rsvd == 0 && X.iol_next == NULL, "unrelated node untouched");
}
void ioltoiov_u(void) {
    any_list(1);
    V = malloc(GN * sizeof(struct iovec)); REQ(V);
    dill_ioltoiov(G, V);
    ENS(VW(GN), "every element is converted in order");
    ENS(node_is(w, 0), "the list is not modified");
    REACH("ioltoiov");
}
void ioltrim_u(void) {
    any_list(1);
    gN0 = ND(); REQ(gN0 < ((size_t)1 << 60));
    struct dill_iolist r;
    int rc = dill_ioltrim(G, gN0, &r);
    if(rc == 0) {
        ENS(gi < GN && gS <= gN0 && gN0 - gS <= LN[gi], "the cut lies within an element");
        ENS(r.iol_len == LN[gi] - (gN0 - gS), "exactly n bytes are skipped");
        ENS(BS[gi] ? r.iol_base == (void*)((char*)BASE(gi) + (gN0 - gS)) : r.iol_base == NULL, "the rest starts right after the skipped bytes");
        ENS(r.iol_next == nxt(gi) && r.iol_rsvd == 0, "the rest of the list follows");
        REACH("ioltrim ok");
    } else { ENS(rc == -1 && gi == GN && gS < gN0, "fails only if the list is too short"); REACH("ioltrim short"); }
    ENS(node_is(w, 0), "the list is not modified");
}
void iolto_u(void) {
    any_list(1);
    gN0 = ND(); REQ(gN0 < ((size_t)1 << 40));
    gsrc = malloc(1 << 20); REQ(gsrc); gN0 &= (1 << 20) - 1;
    int rc = dill_iolto(gsrc, gN0, G);
    if(rc == 0) {
        ENS(gS == gN0 || (gi < GN && LN[gi] >= gN0 - gS && (BS[gi] == 0 || (g_copies == 1 && g_copied_n == gN0 - gS))), "all bytes are placed");
        REACH("iolto ok");
    } else { ENS(rc == -1 && gi == GN && gS < gN0, "fails only if the bytes do not fit"); REACH("iolto short"); }
    ENS(node_is(w, 0), "the list is not modified");
}
void iolfrom_u(void) {
    any_list(1);
    gN0 = NDR(0, 1 << 20); gdst = malloc(1 << 20); REQ(gdst);
    int rc = dill_iolfrom(gdst, gN0, G);
    if(rc == 0) { ENS(gi == GN && gS <= gN0, "all elements are copied"); REACH("iolfrom ok"); }
    else { ENS(rc == -1 && gi < GN && LN[gi] > gN0 - gS, "fails only if the bytes do not fit"); REACH("iolfrom short"); }
    ENS(node_is(w, 0), "the list is not modified");
}
#else
/* ---------------------------------------------------------------------- */
/* Bounded stand-ins: arbitrary graphs of at most N nodes. */
#ifndef N
#define N 3
#endif
static struct dill_iolist nd[N + 1], cp[N + 1];
static struct dill_iolist *pick(uint64_t j) {
    switch(j) { case 0: return &nd[0]; case 1: return N > 1 ? &nd[1] : NULL; case 2: return N > 2 ? &nd[2] : NULL; case 3: return N > 3 ? &nd[3] : NULL; default: return NULL; }
}
static int idx(struct dill_iolist *p) { for(int i = 0; i < N; ++i) if(p == &nd[i]) return i; return -1; }
void iolcheck_b(void) {
    for(int i = 0; i < N; ++i) {
        nd[i].iol_base = NULL; nd[i].iol_len = ND(); nd[i].iol_next = pick(NDR(0, N)); nd[i].iol_rsvd = (int)NDR(0, 1); cp[i] = nd[i];
    }
    struct dill_iolist *first = pick(NDR(0, N)), *last = pick(NDR(0, N));
    size_t nb, by;
    int rc = dill_iolcheck(first, last, &nb, &by);
    int ok; size_t c = 0, b = 0;
    if(!first && !last) ok = 1;
    else if(!first || !last) ok = 0;
    else {
        ok = 0; int x = idx(first), seen[N] = {0};
        for(int i = 0; i <= N; ++i) {
            if(cp[x].iol_rsvd || seen[x]) break;
            seen[x] = 1; c++; b += cp[x].iol_len;
            if(!cp[x].iol_next) { ok = &nd[x] == last; break; }
            x = idx(cp[x].iol_next);
        }
    }
    ENS((rc == 0) == ok && (rc == 0 || (rc == -1 && errno == EINVAL)), "accepted exactly if well formed");
    for(int i = 0; i < N; ++i)
        ENS(nd[i].iol_rsvd == cp[i].iol_rsvd && nd[i].iol_next == cp[i].iol_next && nd[i].iol_len == cp[i].iol_len && nd[i].iol_base == cp[i].iol_base, "the list is handed back unmodified");
    if(ok) ENS(nb == c && by == b, "elements and bytes are counted");
    REACH("iolcheck_b");
}
/* Lists of up to N elements with real buffers of up to 3 bytes. */
#ifndef BL
#define BL 3
#endif
static uint8_t *bufs[N]; static size_t total; static int cnt; static uint8_t flat[N * BL + 1]; static int isnull[N];
static void mklist(int allownull) {
    cnt = (int)NDR(1, N); total = 0;
    for(int i = 0; i < cnt; ++i) {
        size_t l = NDR(0, BL);
        isnull[i] = allownull ? VF_BOOL() : 0;
        bufs[i] = malloc(VF_NATIVE ? (l ? l : 1) : BL + 2); REQ(bufs[i]);
        for(int k = 0; k < (VF_NATIVE ? (int)l : BL + 2); ++k) bufs[i][k] = (uint8_t)ND();
        for(int k = 0; k < BL; ++k) if((size_t)k < l) flat[total + k] = bufs[i][k];
        nd[i].iol_base = isnull[i] ? NULL : bufs[i]; nd[i].iol_len = l; nd[i].iol_next = NULL; nd[i].iol_rsvd = 0;
        if(i) nd[i - 1].iol_next = &nd[i];
        total += l;
    }
    for(int i = 0; i < N; ++i) cp[i] = nd[i];
}
static void unchanged(void) {
    for(int i = 0; i < N; ++i) ENS(nd[i].iol_rsvd == cp[i].iol_rsvd && nd[i].iol_next == cp[i].iol_next && nd[i].iol_len == cp[i].iol_len && nd[i].iol_base == cp[i].iol_base, "the list is not modified");
}
void ioltoiov_b(void) {
    mklist(1);
    struct iovec v[N + 1]; v[cnt].iov_len = 4711; v[cnt].iov_base = NULL;
    dill_ioltoiov(nd, v);
    for(int i = 0; i < cnt; ++i) ENS(v[i].iov_base == cp[i].iol_base && v[i].iov_len == cp[i].iol_len, "every element is converted in order");
    ENS(v[cnt].iov_len == 4711, "nothing beyond");
    unchanged(); REACH("ioltoiov_b");
}
void ioltrim_b(void) {
    mklist(1);
    size_t n = NDR(0, N * BL + 1);
    struct dill_iolist r;
    int rc = dill_ioltrim(nd, n, &r);
    ENS((rc == 0) == (n <= total), "fails exactly if the list is too short");
    if(rc == 0) {
        /* bytes described by r = flat + n */
        size_t pos = n; struct dill_iolist *it = &r; int steps = 0;
        while(it) {
            ENS(steps++ <= cnt, "the rest is finite");
            for(int k = 0; k < BL; ++k) if((size_t)k < it->iol_len) { ENS(pos + k < total, "the rest is not longer"); if(it->iol_base) ENS(((uint8_t*)it->iol_base)[k] == flat[pos + k], "the rest starts right after the skipped bytes"); }
            pos += it->iol_len; it = it->iol_next;
        }
        ENS(pos == total && r.iol_rsvd == 0, "exactly n bytes are skipped");
    }
    unchanged(); REACH("ioltrim_b");
}
void iolto_b(void) {
    mklist(1);
    uint8_t src[N * BL + 1]; size_t n = NDR(0, N * BL + 1);
    for(int i = 0; i < N * BL + 1; ++i) src[i] = (uint8_t)ND();
    uint8_t before[N][BL + 2];
    for(int i = 0; i < cnt; ++i) for(int k = 0; k < (VF_NATIVE ? (int)cp[i].iol_len : BL + 2); ++k) before[i][k] = bufs[i][k];
    int rc = dill_iolto(src, n, nd);
    ENS((rc == 0) == (n <= total), "fails exactly if the bytes do not fit");
    if(rc == 0) {
        size_t pos = 0;
        for(int i = 0; i < cnt; ++i) {
            for(int k = 0; k < (VF_NATIVE ? (int)cp[i].iol_len : BL + 2); ++k) {
                int inside = (size_t)k < cp[i].iol_len && pos + k < n && !isnull[i];
                ENS(bufs[i][k] == (inside ? src[pos + k] : before[i][k]), "exactly the bytes that belong there are written");
            }
            pos += cp[i].iol_len;
        }
    }
    unchanged(); REACH("iolto_b");
}
void iolfrom_b(void) {
    mklist(0);
    size_t n = NDR(0, N * BL + 1);
    uint8_t dst[N * BL + 3];
    for(int i = 0; i < N * BL + 3; ++i) dst[i] = 0xa5;
    int rc = dill_iolfrom(dst, n, nd);
    ENS((rc == 0) == (n >= total), "fails exactly if the bytes do not fit");
    for(int i = 0; i < N * BL + 3; ++i) {
        if(rc == 0) ENS(dst[i] == ((size_t)i < total ? flat[i] : 0xa5), "the concatenation is copied");
        else ENS((size_t)i < n || dst[i] == 0xa5, "nothing is written beyond the buffer");
    }
    unchanged(); REACH("iolfrom_b");
}
#endif
#include "vf_native.h"
