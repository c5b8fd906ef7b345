/* C14, C16: msleep, fdin, fdout, fdclean over the contracts of the scheduler
   (C13) and of the pollset (C16); now.c over clock_gettime. */
#include "vf.h"
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
#include "cr.h"
#include "ctx.h"
struct dill_ctx dill_ctx_ = {1};
struct dill_ctx *dill_ctx_init(void) { return &dill_ctx_; }
static int canb; static int64_t DL; static int FD, polls, pfail, pin, pid, tmid, waits, wid, werr, tset, nclean, crc;
int dill_canblock(void) { if(!canb) { errno = ECANCELED; return -1; } return 0; }
static int reg(int in, int id, int fd) { ENS(fd == FD && !waits && !tset, "waits for this descriptor"); polls++; pin = in; pid = id; if(pfail) { errno = pfail; return -1; } return 0; }
int dill_pollset_in(struct dill_fdclause *f, int id, int fd) { return reg(1, id, fd); }
int dill_pollset_out(struct dill_fdclause *f, int id, int fd) { return reg(0, id, fd); }
int dill_pollset_clean(int fd) { ENS(fd == FD, "this descriptor"); nclean++; errno = EBUSY; return crc; }
void dill_timer(struct dill_tmclause *t, int id, int64_t deadline) { ENS(deadline == DL && !tset && !waits, "one timer with the given deadline"); tset = 1; tmid = id; ENS(id >= 0 && (!polls || id != pid), "the timer is told apart"); }
int dill_wait(void) {
    waits++; ENS(tset, "the deadline is observed");
    switch(NDR(0, 2)) { case 0: wid = -1; werr = ECANCELED; break; case 1: REQ(DL >= 0); wid = tmid; werr = ETIMEDOUT; break; default: REQ(polls); wid = pid; werr = 0; }
    errno = werr; return wid;
}
#include "libdill.c"
static void start(void) { canb = VF_BOOL(); DL = (int64_t)ND(); FD = (int)ND(); polls = waits = tset = 0; pid = -1; pfail = VF_BOOL() ? 0 : VF_BOOL() ? EBADF : EBUSY; crc = VF_BOOL() ? 0 : -1; nclean = 0; }
void msleep_c(void) {
    start(); int rc = dill_msleep(DL);
    if(!canb) ENS(rc == -1 && errno == ECANCELED && !waits, "a cancelled coroutine does not sleep");
    else { ENS(waits == 1 && !polls, "one suspension"); if(wid == -1) ENS(rc == -1 && errno == ECANCELED, "cancelled"); else { ENS(rc == 0, "sleeps until the deadline"); REACH("slept"); } }
}
void fdwait_c(void) {
    start(); int in = VF_BOOL(); int rc = in ? dill_fdin(FD, DL) : dill_fdout(FD, DL);
    if(!canb) { ENS(rc == -1 && errno == ECANCELED && !waits && !polls, "a cancelled coroutine does not wait"); return; }
    ENS(polls == 1 && pin == in, "the right direction");
    if(pfail) { ENS(rc == -1 && errno == pfail && !waits && !tset, "nothing remains registered"); return; }
    ENS(waits == 1, "one suspension");
    if(wid == -1) ENS(rc == -1 && errno == ECANCELED, "cancelled");
    else if(wid == tmid) { ENS(rc == -1 && errno == ETIMEDOUT, "deadline"); REACH("deadline"); }
    else { ENS(rc == 0, "the event is reported"); REACH("event"); }
}
void fdclean_c(void) { start(); int rc = dill_fdclean(FD); ENS(nclean == 1 && rc == crc && (rc == 0 || errno == EBUSY), "the outcome is passed on"); REACH("clean"); }
#ifdef VF_NOW
static struct timespec TS; static int clk, nclk; static uint64_t TSC;
static int vf_clock_gettime(clockid_t id, struct timespec *ts) { nclk++; clk = id; *ts = TS; return 0; }
#define clock_gettime vf_clock_gettime
static uint64_t vf_rdtsc(void) { return TSC; }
#include <x86intrin.h>
#undef __rdtsc
#define __rdtsc vf_rdtsc
#include "now.c"
#undef clock_gettime
#ifdef VF_MNOW
void mnow_c(void) {
    TS.tv_sec = NDR(0, (uint64_t)1 << 40); TS.tv_nsec = NDR(0, 999999999); nclk = 0;
    int64_t r = dill_mnow();
    ENS(nclk == 1 && (clk == CLOCK_MONOTONIC || clk == CLOCK_MONOTONIC_COARSE), "a clock that never jumps");
    int64_t ms = r - (int64_t)TS.tv_sec * 1000;
    ENS(ms >= 0 && ms <= 999 && ms * 1000000 <= TS.tv_nsec && TS.tv_nsec < (ms + 1) * 1000000, "milliseconds, rounded down (never ahead of the clock)"); REACH("mnow");
}
#else
static int64_t WANT; static int nm;
int64_t vf_mnow(void) { nm++; return WANT; }
void now_c(void) {
#ifdef VF_CBMC
    WANT = (int64_t)NDR(0, (uint64_t)1 << 60);
#else
    TS.tv_sec = NDR(0, (uint64_t)1 << 40); TS.tv_nsec = NDR(0, 999999999); WANT = (int64_t)TS.tv_sec * 1000 + TS.tv_nsec / 1000000;
#endif
    TSC = NDR(0, (uint64_t)1 << 62); struct dill_ctx_now *c = &dill_ctx_.now; c->last_tsc = NDR(0, (uint64_t)1 << 62); int64_t lt = c->last_time = NDR(0, WANT);
    uint64_t d = TSC > c->last_tsc ? TSC - c->last_tsc : c->last_tsc - TSC;
    int64_t r = dill_now();
    ENS(r <= WANT && r >= lt, "never ahead of the clock, never going back");
    if(d >= 1000000) { ENS(r == WANT, "a stale time is refreshed"); REACH("fresh"); } else { ENS(r == lt || r == WANT, "recent time"); REACH("cached"); }
    ENS(r == lt || (c->last_time == r && c->last_tsc == TSC), "the time is remembered with its moment");
    ENS(dill_ctx_now_init(c) == 0 && c->last_time == WANT && c->last_tsc == TSC, "initial time");
}
#endif
#endif
#include "vf_native.h"
