#pragma once
// clocks under the harness's control: gettimeofday/time/clock_gettime(REALTIME) give (now_s, now_us), clock_gettime(MONOTONIC) gives (mono_s, mono_ns)
#include "hcommon.h"
#include <pthread.h>
#include <sys/time.h>
#include <time.h>
#include <errno.h>
static long now_s = 1000, now_us = 0, mono_s = 50, mono_ns = 0;
extern "C" {
extern uint64_t lce_deadline[4]; // count, clock, sec, nsec of the last timed wait
#ifdef LCE_SYMBOLIC_BUILD
uint64_t lce_deadline[4];
#endif
int gettimeofday(struct timeval* __restrict t, void* __restrict) throw() { t->tv_sec = now_s; t->tv_usec = now_us; return 0; }
time_t time(time_t* t) throw() { if (t) *t = now_s; return now_s; }
int clock_gettime(clockid_t c, struct timespec* t) throw() {
  if (c == CLOCK_REALTIME) { t->tv_sec = now_s; t->tv_nsec = now_us * 1000; } else { t->tv_sec = mono_s; t->tv_nsec = mono_ns; }
  return 0;
}
}
#ifdef LCE_TM
// calendar without months or leap years: any injective mapping of days to dates serves the uses here
static void lce_tm(time_t t, struct tm* r) { memset(r, 0, sizeof *r); r->tm_year = 124; r->tm_mon = (int)(t / 86400 / 28 % 12); r->tm_mday = 1 + (int)(t / 86400 % 28); r->tm_hour = (int)(t / 3600 % 24); r->tm_min = (int)(t / 60 % 60); r->tm_sec = (int)(t % 60); }
static struct tm lce_static_tm;
extern "C" struct tm* localtime(const time_t* t) throw() { lce_tm(*t, &lce_static_tm); return &lce_static_tm; }
extern "C" struct tm* localtime_r(const time_t* __restrict t, struct tm* __restrict r) throw() { lce_tm(*t, r); return r; }
#endif
static void sym_clock() {
  now_s = (long)sym_range(1, 4000000000ull, "sec"); now_us = (long)sym_range(0, 999999, "usec"); mono_s = (long)sym_range(1, 100000000ull, "msec"); mono_ns = (long)sym_range(0, 999999999, "mnsec");
}
// the last timed wait's deadline, relative to "now" on the clock the wait uses, is ms milliseconds (to within the clock's 1 us resolution)
static void check_deadline(long ms) {
  long s = lce_deadline[1] == CLOCK_REALTIME ? now_s : mono_s, ns = lce_deadline[1] == CLOCK_REALTIME ? now_us * 1000 : mono_ns;
  CHECK(lce_deadline[3] < 1000000000ull, "the deadline is well formed");
  long d = ((long)lce_deadline[2] - s) * 1000000000l + ((long)lce_deadline[3] - ns);
  if (ms < 0) { CHECK(d <= 1000000, "a timeout already past does not wait"); return; }
  CHECK(d >= ms * 1000000l - 1000 && d <= ms * 1000000l + 1000000, "the wait's deadline is now + timeout");
}
// a timeout of up to 2^17 s either way: a chosen number of seconds and an arbitrary number of milliseconds
static int sym_timeout() { static const int S[] = {0, 1, 2, 59, 86400}; int q = S[sym_choice(5, "tsec")], ms = q * 1000 + (int)sym_range(0, 999, "tms"); return sym_bool("past") ? -ms : ms; }
