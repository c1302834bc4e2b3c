// Deterministic scheduler for the replay build: the pthread calls of the code under test are wrapped, one thread runs at a time, and every
// scheduling decision is read from the solver's assignment ("sched", "wake").  The real pthread objects are used underneath so that
// ThreadSanitizer / AddressSanitizer see them; this file is compiled without sanitizers and hands the baton over with raw futexes, which
// adds no happens-before edge to what ThreadSanitizer sees.
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <stdint.h>
#include <unistd.h>
#include <time.h>
#include <sys/syscall.h>
#include <linux/futex.h>
extern "C" {
uint64_t sym_next_in(const char*);
void sym_replay_die(int);
uint64_t lce_deadline[4] __attribute__((weak));
int lce_thread_fault __attribute__((weak));
}
#define REAL(r, n, a) extern "C" r __real_##n a;
REAL(int, pthread_create, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)) REAL(int, pthread_join, (pthread_t, void**)) REAL(int, pthread_detach, (pthread_t))
REAL(int, pthread_mutex_init, (pthread_mutex_t*, const pthread_mutexattr_t*)) REAL(int, pthread_mutex_destroy, (pthread_mutex_t*)) REAL(int, pthread_mutex_lock, (pthread_mutex_t*)) REAL(int, pthread_mutex_trylock, (pthread_mutex_t*)) REAL(int, pthread_mutex_unlock, (pthread_mutex_t*))
REAL(int, pthread_spin_lock, (pthread_spinlock_t*)) REAL(int, pthread_spin_trylock, (pthread_spinlock_t*)) REAL(int, pthread_spin_unlock, (pthread_spinlock_t*))
REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t*)) REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t*)) REAL(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t*)) REAL(int, pthread_rwlock_trywrlock, (pthread_rwlock_t*)) REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t*))
REAL(int, pthread_cond_init, (pthread_cond_t*, const pthread_condattr_t*)) REAL(int, pthread_cond_destroy, (pthread_cond_t*))
enum { Run, Mtx, Cond, Join, Done, RwR, Slp, All };
struct Th { int stat; void* on; void* mx; bool timed, woken, cancelReq; int joinT; pthread_t id; void* (*fn)(void*); void* arg; int futex; bool granted, detached, udetached, ujoined; };
static Th th[8]; static int nth = 1, cur = 0; static bool ready;
struct Lk { void* p; int owner, count, readers, type; }; static Lk lk[256]; static int nlk;
struct Cc { void* p; int clock; }; static Cc cc[64]; static int ncc;
static Lk& L(void* p) { for (int i = 0; i < nlk; i++) if (lk[i].p == p) return lk[i]; if (nlk == 256) { fprintf(stderr, "REPLAY-DIVERGED: too many locks\n"); sym_replay_die(98); } lk[nlk] = Lk{p, -1, 0, 0, 0}; return lk[nlk++]; }
static void fwait(int* f) { while (!__atomic_load_n(f, __ATOMIC_ACQUIRE)) syscall(SYS_futex, f, FUTEX_WAIT, 0, 0, 0, 0); __atomic_store_n(f, 0, __ATOMIC_RELEASE); }
static void fwake(int* f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE, 1, 0, 0, 0); }
static int alive() { int n = 0; for (int i = 0; i < nth; i++) if (th[i].stat != Done) n++; return n; }
static bool canRun(int t) {
  Th& x = th[t];
  switch (x.stat) {
    case Run: return true;
    case Done: return false;
    case Mtx: { Lk& l = L(x.on); return l.owner < 0 && l.readers == 0; }
    case RwR: return L(x.on).owner < 0;
    case Cond: return x.timed || x.cancelReq;
    case All: return alive() == 1;
    case Join: return th[x.joinT].stat == Done;
    default: return true;
  }
}
static thread_local int me = 0;
static void handOver(int t) { // give the baton to t and wait for it to come back (t != me)
  cur = t; int m = me; fwake(&th[t].futex); if (th[m].stat != Done) fwait(&th[m].futex);
}
static int choose() {
  int t = (int)sym_next_in("sched"); if (t < 0 || t >= nth || th[t].stat == Done) { fprintf(stderr, "REPLAY-DIVERGED: sched %d\n", t); sym_replay_die(98); }
  return t;
}
static void point() { // a scheduling point before a synchronisation operation
  if (nth == 1 || alive() == 1) return;
  int t = choose(); if (t == me) return; if (!canRun(t)) { fprintf(stderr, "REPLAY-DIVERGED: thread %d cannot run\n", t); sym_replay_die(98); }
  handOver(t);
}
static void blocked() { // the current thread cannot go on
  bool any = false; for (int i = 0; i < nth; i++) if (canRun(i)) any = true;
  if (!any) { printf("REPLAY-VIOLATION deadlock:"); for (int i = 0; i < nth; i++) printf(" T%d:%s", i, (const char*[]){"run", "mutex", "cond", "join", "done", "rwlock", "sleep", "join-all"}[th[i].stat]); printf("\n"); sym_replay_die(77); }
  int t = choose(); if (t != me) handOver(t);
}
static void bad(const char* m) { printf("REPLAY-VIOLATION %s\n", m); sym_replay_die(77); }
static void finish(void*) { th[me].stat = Done; if (me == 0) { fwait(&th[0].futex); } bool any = false; for (int i = 0; i < nth; i++) if (canRun(i)) any = true; if (!any) blocked(); int t = choose(); cur = t; fwake(&th[t].futex); }
static void* tramp(void* p) {
  me = (int)(intptr_t)p; fwait(&th[me].futex); void* r = 0;
  pthread_cleanup_push(finish, 0); r = th[me].fn(th[me].arg); pthread_cleanup_pop(1); return r;
}
static void cancelMe() { Th& x = th[me]; if (!x.cancelReq) return; x.cancelReq = false; pthread_exit(PTHREAD_CANCELED); }
extern "C" {
void sym_yield(void) { point(); }
void sym_join_all(void) { if (alive() > 1) { th[me].stat = All; blocked(); th[me].stat = Run; } for (int i = 1; i < nth; i++) if (!th[i].detached) { th[i].detached = true; __real_pthread_join(th[i].id, 0); } }
int __wrap_pthread_create(pthread_t* o, const pthread_attr_t* a, void* (*f)(void*), void* arg) { // handles are numbers that are never used twice
  if (nth >= 6) { fprintf(stderr, "REPLAY-DIVERGED: threads\n"); sym_replay_die(98); }
  if (lce_thread_fault && --lce_thread_fault == 0) { *o = (pthread_t)0xdead0000; return EAGAIN; }
  int t = nth; th[t] = Th(); th[t].fn = f; th[t].arg = arg; int r = __real_pthread_create(&th[t].id, 0, tramp, (void*)(intptr_t)t); if (r) return r; *o = (pthread_t)(t + 1); nth++; return 0;
}
static int tidOk(pthread_t p, const char* what) {
  long t = (long)p - 1; static char b[99]; const char* w = 0; if (t < 0 || t >= nth) w = "of a thread that was never started"; else if (th[t].ujoined) w = "of a thread that was joined before"; else if (th[t].udetached && th[t].stat == Done) w = "of a detached thread that has ended";
  if (w) { snprintf(b, sizeof b, "%s %s", what, w); bad(b); } return (int)t;
}
pthread_t __wrap_pthread_self(void) { return (pthread_t)(me + 1); }
int __wrap_pthread_join(pthread_t p, void** rv) {
  point(); int t = tidOk(p, "join"); if (th[t].udetached) return EINVAL; if (th[t].stat != Done) { th[me].stat = Join; th[me].joinT = t; blocked(); th[me].stat = Run; }
  th[t].ujoined = true; if (th[t].detached) return 0; th[t].detached = true; return __real_pthread_join(th[t].id, rv);
}
int __wrap_pthread_detach(pthread_t p) { int t = tidOk(p, "detach"); if (th[t].udetached) return EINVAL; th[t].udetached = true; return 0; } // kept joinable underneath
int __wrap_pthread_cancel(pthread_t p) { point(); int t = tidOk(p, "cancel"); if (th[t].stat == Done) return ESRCH; th[t].cancelReq = true; return 0; }
void __wrap_pthread_testcancel(void) { cancelMe(); }
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { int ty = 0; if (a) pthread_mutexattr_gettype(a, &ty); Lk& l = L(m); l.owner = -1; l.count = l.readers = 0; l.type = ty; return __real_pthread_mutex_init(m, a); }
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) { Lk& l = L(m); if (l.owner >= 0) return EBUSY; l.type = 0; return __real_pthread_mutex_destroy(m); }
static int lockIt(void* m, int (*real)(void*)) {
  point(); Lk& l = L(m);
  if (l.owner == me && l.type == PTHREAD_MUTEX_RECURSIVE) { l.count++; return real(m); }
  if (l.owner == me && l.type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  while (l.owner >= 0 || l.readers) { if (nth == 1) bad("lock acquired twice by the only thread"); th[me].stat = Mtx; th[me].on = m; blocked(); th[me].stat = Run; }
  l.owner = me; l.count = 1; return real(m);
}
static int tryIt(void* m, int (*real)(void*)) {
  point(); Lk& l = L(m); if (l.owner == me && l.type == PTHREAD_MUTEX_RECURSIVE) { l.count++; return real(m); }
  if (l.owner >= 0 || l.readers) return EBUSY; l.owner = me; l.count = 1; return real(m);
}
static int unlockIt(void* m, int (*real)(void*)) {
  Lk& l = L(m); if (l.readers > 0 && l.owner < 0) { l.readers--; return real(m); }
  if (l.owner != me) bad("unlock of a lock the thread does not hold"); if (--l.count == 0) l.owner = -1; return real(m);
}
typedef int (*LF)(void*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return lockIt(m, (LF)__real_pthread_mutex_lock); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return tryIt(m, (LF)__real_pthread_mutex_trylock); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return unlockIt(m, (LF)__real_pthread_mutex_unlock); }
int __wrap_pthread_spin_lock(pthread_spinlock_t* m) { return lockIt((void*)m, (LF)__real_pthread_spin_lock); }
int __wrap_pthread_spin_trylock(pthread_spinlock_t* m) { return tryIt((void*)m, (LF)__real_pthread_spin_trylock); }
int __wrap_pthread_spin_unlock(pthread_spinlock_t* m) { return unlockIt((void*)m, (LF)__real_pthread_spin_unlock); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return lockIt(m, (LF)__real_pthread_rwlock_wrlock); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return tryIt(m, (LF)__real_pthread_rwlock_trywrlock); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { return unlockIt(m, (LF)__real_pthread_rwlock_unlock); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  point(); Lk& l = L(m); while (l.owner >= 0) { if (nth == 1) bad("deadlock: rwlock"); th[me].stat = RwR; th[me].on = m; blocked(); th[me].stat = Run; } l.readers++; return __real_pthread_rwlock_rdlock(m);
}
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { point(); Lk& l = L(m); if (l.owner >= 0) return EBUSY; l.readers++; return __real_pthread_rwlock_tryrdlock(m); }
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { clockid_t k = 0; if (a) pthread_condattr_getclock(a, &k); int i; for (i = 0; i < ncc && cc[i].p != c; i++) ; if (i == ncc && ncc < 64) ncc++; cc[i] = Cc{c, (int)k}; return __real_pthread_cond_init(c, a); }
int __wrap_pthread_cond_destroy(pthread_cond_t* c) { return __real_pthread_cond_destroy(c); }
static int waitIt(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  point(); Lk& l = L(m); if (l.owner != me) bad("condition wait without holding the mutex"); cancelMe();
  if (ts) { int k = 0; for (int i = 0; i < ncc; i++) if (cc[i].p == c) k = cc[i].clock; lce_deadline[0]++; lce_deadline[1] = k; lce_deadline[2] = ts->tv_sec; lce_deadline[3] = ts->tv_nsec; if ((unsigned long)ts->tv_nsec >= 1000000000ul) return EINVAL; }
  if (nth == 1) { if (!ts) bad("condition wait with no other thread"); return ETIMEDOUT; }
  l.owner = -1; l.count = 0; __real_pthread_mutex_unlock(m); Th& x = th[me]; x.stat = Cond; x.on = c; x.mx = m; x.timed = ts != 0; x.woken = false; blocked();
  int how = x.woken ? 0 : x.cancelReq ? 2 : x.timed ? 1 : 0; bool tm = x.timed; x.timed = false; x.stat = Run; (void)tm;
  while (l.owner >= 0) { x.stat = Mtx; x.on = m; blocked(); x.stat = Run; }
  l.owner = me; l.count = 1; __real_pthread_mutex_lock(m); if (how == 2) cancelMe(); return how == 1 ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return waitIt(c, m, 0); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return waitIt(c, m, t); }
static void wakeT(int t) { th[t].stat = Mtx; th[t].on = th[t].mx; th[t].woken = true; th[t].timed = false; }
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
  point(); int n = 0; for (int i = 0; i < nth; i++) if (th[i].stat == Cond && th[i].on == c) n++;
  if (n) { int t = (int)sym_next_in("wake"); if (t < 0 || t >= nth || th[t].stat != Cond || th[t].on != c) { fprintf(stderr, "REPLAY-DIVERGED: wake\n"); sym_replay_die(98); } wakeT(t); } return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { point(); for (int i = 0; i < nth; i++) if (th[i].stat == Cond && th[i].on == c) wakeT(i); return 0; }
static int sleepIt() { if (nth == 1) return 0; cancelMe(); th[me].stat = Slp; blocked(); th[me].stat = Run; cancelMe(); return 0; }
int __wrap_usleep(useconds_t) { return sleepIt(); }
unsigned __wrap_sleep(unsigned) { return sleepIt(); }
int __wrap_nanosleep(const struct timespec*, struct timespec*) { return sleepIt(); }
}
#include "stdthreads.h"
extern "C" int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { // as in rt.cpp
  static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t c = PTHREAD_COND_INITIALIZER;
  pthread_mutex_lock(&m); while (*o == 1) pthread_cond_wait(&c, &m); if (*o == 2) { pthread_mutex_unlock(&m); return 0; } *o = 1; pthread_mutex_unlock(&m);
  try { f(); } catch (...) { pthread_mutex_lock(&m); *o = 0; pthread_cond_broadcast(&c); pthread_mutex_unlock(&m); throw; }
  pthread_mutex_lock(&m); *o = 2; pthread_cond_broadcast(&c); pthread_mutex_unlock(&m); return 0;
}
