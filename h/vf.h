/* Dual-mode verification prelude.

   Under goto-cc (CBMC) a harness is a Hoare triple over the real code: every
   ND()/NDR() is a universally quantified input, REQ() is the precondition
   (requires), ENS() is an obligation (ensures / invariant / callee
   precondition), REACH() is the vacuity guard (an assertion that must FAIL,
   i.e. the point must be reachable under the preconditions).

   Compiled natively (gcc + sanitizers) the very same file replays a concrete
   counterexample (VF_VALUES) or searches for one (VF_FUZZ); it is only used
   after an obligation has failed. */
#ifndef VF_H
#define VF_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <assert.h>
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <setjmp.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/param.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <net/if.h>
#include <ifaddrs.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint8_t u8;

#ifdef VF_CBMC

uint64_t nondet_vf_u64(void);
static inline uint64_t ND(void) { uint64_t nd_v = nondet_vf_u64(); return nd_v; }
#define REQ(c) __CPROVER_assume(c)
#define ENS(c, msg) __CPROVER_assert((c), msg)
#define REACH(msg) __CPROVER_assert(0, "REACH " msg)
/* Value in [lo,hi]. */
static inline uint64_t NDR(uint64_t lo, uint64_t hi) {
    uint64_t nd_v = nondet_vf_u64();
    __CPROVER_assume(nd_v >= lo && nd_v <= hi);
    return nd_v;
}
#define VF_NATIVE 0
#define vf_vals 0
#define VF_END() __CPROVER_assume(0)
static inline void vf_errno(void) { errno = (int)nondet_vf_u64(); }
/* Undefined-content object; contents are universally quantified. */
#define VF_HAVOC(p, n) __CPROVER_havoc_slice((p), (n))

#else

#define VF_NATIVE 1
#define VF_HAVOC(p, n) vf_fill((p), (n))
static FILE *vf_vals, *vf_logf; static int vf_random; static uint64_t vf_state;
static int vf_mode;
static uint64_t vf_rnd(void) {
    uint64_t z = (vf_state += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static uint64_t vf_next(uint64_t lo, uint64_t hi, int ranged) {
    uint64_t v;
    if(vf_vals) {
        unsigned long long x;
        if(fscanf(vf_vals, "%llu", &x) != 1) { x = ranged ? lo : 0; }
        v = x;
    } else {
        uint64_t r = vf_rnd();
        if(ranged) {
            uint64_t span = hi - lo;
            switch(r % 8) {
            case 0: v = lo; break;
            case 1: v = hi; break;
            case 2: v = lo + (vf_rnd() % 4 > span ? 0 : vf_rnd() % 4);
                if(v > hi) v = hi; break;
            default: v = span == UINT64_MAX ? vf_rnd() : lo + vf_rnd() % (span + 1);
            }
        } else {
            switch(r % 8) {
            case 0: v = 0; break;
            case 1: v = vf_rnd() & 1; break;
            case 2: v = vf_rnd() % 8; break;
            case 3: v = vf_rnd() % 256; break;
            case 4: v = (uint64_t)-1 - vf_rnd() % 4; break;
            default: v = vf_rnd();
            }
        }
    }
    if(vf_logf) { fprintf(vf_logf, "%llu\n", (unsigned long long)v); fflush(vf_logf); }
    return v;
}
static inline uint64_t ND(void) { return vf_next(0, 0, 0); }
#define VF_DONE(code) do { fflush(stdout); fflush(stderr); _exit(code); } while(0)
static inline uint64_t NDR(uint64_t lo, uint64_t hi) {
    uint64_t v = vf_next(lo, hi, 1);
    if(v < lo || v > hi) VF_DONE(77);
    return v;
}
#define REQ(c) do { if(!(c)) VF_DONE(77); } while(0)
#define ENS(c, msg) do { if(!(c)) { \
    fprintf(stderr, "OBLIGATION FAILED: %s  [%s] at %s:%d\n", msg, #c, __FILE__, __LINE__); \
    VF_DONE(99); } } while(0)
#define REACH(msg) ((void)0)
#define VF_END() VF_DONE(0)
static void vf_fill(void *p, size_t n) {
    for(size_t i = 0; i < n; ++i) ((uint8_t*)p)[i] = (uint8_t)vf_rnd();
}
#endif

/* abort() ends a path silently in CBMC; make it an obligation instead. The
   library's own assertion macro ends in abort(). */
static void vf_abort(void) { ENS(0, "library abort is unreachable"); VF_END(); }
#define abort vf_abort

#define VF_BOOL() ((int)NDR(0, 1))

/* The entry point selected by the driver. */
#ifndef VF_ENTRY
#define VF_ENTRY vf_main
#endif
void VF_ENTRY(void);

#endif
