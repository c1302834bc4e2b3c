// C14 blocking queue, C39 locks
#include "tenv.h"
#if HT <= 4
#include "CBlockQueue.h"
using namespace lce;
struct It { int prod, seq; uint32_t pay; It() : prod(-1), seq(-1), pay(0) {} It(int p, int s, uint32_t v) : prod(p), seq(s), pay(v) {} };
#endif
#if HT == 1 // producers and consumers
#ifndef NP
#define NP 2
#endif
#ifndef NC
#define NC 1
#endif
#ifndef TIMED
#define TIMED 0
#endif
static CBlockQueue<It>* q; static uint32_t pay[NP][K]; static int cap; static It got[NC][NP * K]; static int ngot[NC]; static int want[NC];
static void* producer(void* a) { int p = (int)(intptr_t)a; for (int i = 0; i < K; i++) { CHECK(q->push(It(p, i, pay[p][i])), "push succeeds"); } return 0; }
static void* consumer(void* a) {
  int c = (int)(intptr_t)a; for (int i = 0, tries = 0; i < want[c];) {
    It x;
    if (TIMED && tries < 1) { tries++; if (!q->pop(x, 1500)) { sym_reach("timedout"); CHECK(x.prod == -1, "a timed-out pop leaves the output alone"); continue; } sym_reach("timedpop"); }
    else CHECK(q->pop(x), "pop succeeds");
    CHECK(q->size() <= cap, "capacity respected"); got[c][ngot[c]++] = x; i++;
  }
  return 0;
}
void harness() {
  cap = 1 + sym_choice(CAPS, "cap"); q = new CBlockQueue<It>(cap); pthread_t t[NP + NC]; for (int p = 0; p < NP; p++) for (int i = 0; i < K; i++) pay[p][i] = sym_u32("pay");
  for (int c = 0; c < NC; c++) want[c] = NP * K / NC + (c < NP * K % NC);
  for (int p = 0; p < NP; p++) pthread_create(&t[p], 0, producer, (void*)(intptr_t)p);
  for (int c = 1; c < NC; c++) pthread_create(&t[NP + c], 0, consumer, (void*)(intptr_t)c);
  consumer(0);
  for (int p = 0; p < NP; p++) pthread_join(t[p], 0); for (int c = 1; c < NC; c++) pthread_join(t[NP + c], 0);
  int seen[NP][K]; for (int p = 0; p < NP; p++) for (int i = 0; i < K; i++) seen[p][i] = 0;
  for (int c = 0; c < NC; c++) {
    CHECK(ngot[c] == want[c], "every element arrived"); int last[NP]; for (int p = 0; p < NP; p++) last[p] = -1;
    for (int i = 0; i < ngot[c]; i++) { It& x = got[c][i]; CHECK(x.prod >= 0 && x.prod < NP && x.seq >= 0 && x.seq < K, "a popped element was pushed"); CHECK(x.pay == pay[x.prod][x.seq], "with its value"); seen[x.prod][x.seq]++; CHECK(x.seq > last[x.prod], "in the producer's order"); last[x.prod] = x.seq; }
  }
  for (int p = 0; p < NP; p++) for (int i = 0; i < K; i++) CHECK(seen[p][i] == 1, "each element is taken exactly once");
  CHECK(q->empty() && q->size() == 0, "and nothing is left"); delete q; sym_reach("done");
}
#elif HT == 2 // timed pop: the deadline
void harness() {
  sym_clock(); CBlockQueue<It> q(2); int ms = sym_timeout(); It x;
  if (sym_bool("have")) { q.push(It(1, 2, 3)); CHECK(q.pop(x, ms) && x.prod == 1 && x.seq == 2 && x.pay == 3 && lce_deadline[0] == 0, "a waiting element is returned at once"); sym_reach("have"); return; }
  CHECK(!q.pop(x, ms), "an empty queue times out"); CHECK(x.prod == -1, "output untouched"); CHECK(lce_deadline[0] >= 1, "after waiting"); check_deadline(ms); CHECK(q.size() == 0 && q.empty(), "and stays empty"); sym_reach("timeout");
}
#elif HT == 3 // a producer blocked on a full queue is let go by clear()
static CBlockQueue<It>* q; static void* producer(void*) { q->push(It(0, 0, 1)); q->push(It(0, 1, 2)); return 0; }
void harness() {
  q = new CBlockQueue<It>(1); pthread_t t; pthread_create(&t, 0, producer, 0); It x; q->clear();
  CHECK(q->pop(x) && x.prod == 0 && (x.seq == 0 || x.seq == 1), "an element pushed after the clear arrives");
  if (x.seq == 0) { CHECK(q->pop(x) && x.seq == 1, "then the next"); sym_reach("kept"); } else sym_reach("dropped");
  pthread_join(t, 0); CHECK(q->empty(), "nothing else");
}
#elif HT == 4 // single thread: contents, front, back, size
void harness() {
  int cap = 1 + sym_choice(CAPS, "cap"); CBlockQueue<It> q(cap); It m[16]; int n = 0; CHECK(q.max_size() == cap, "capacity");
  for (int o = 0; o < OPS; o++) {
    int k = sym_choice(3, "op"); It x;
    if (k == 0 && n < cap) { It v(1, o, sym_u32("v")); CHECK(q.push(v), "push"); m[n++] = v; }
    else if (k == 1 && n > 0) { CHECK(q.pop(x) && x.seq == m[0].seq && x.pay == m[0].pay, "pop returns the oldest"); for (int i = 1; i < n; i++) m[i - 1] = m[i]; n--; sym_reach("pop"); }
    else if (k == 2) { q.clear(); n = 0; }
    CHECK(q.size() == n && q.empty() == (n == 0) && q.full() == (n == cap), "size, empty, full");
    It f, b; bool bf = q.front(f), bb = q.back(b); CHECK(bf == (n > 0) && bb == (n > 0), "front/back refuse when empty");
    if (n) { CHECK(f.seq == m[0].seq && f.pay == m[0].pay && b.seq == m[n - 1].seq && b.pay == m[n - 1].pay, "front is the oldest, back the newest"); sym_reach("front"); }
  }
}
#elif HT >= 5
#include "CLock.h"
using namespace lce;
static int inside = 0, writers = 0, readers = 0, total = 0;
#endif
#if HT == 5 // mutual exclusion: MODE 0 mutex, 1 spin lock; explicit, guard, try
#if MODE == 0
static CMutex L;
#else
static CSpinLock L;
#endif
static int ok[3], how[3][K];
static void section() { CHECK(inside == 0, "one thread at a time"); inside = 1; sym_yield(); total++; inside = 0; }
static void guarded() { CAutoLock g(L); section(); if (total >= 0) throw 1; }
static void* worker(void* a) {
  int id = (int)(intptr_t)a;
  for (int i = 0; i < K; i++) switch (how[id][i]) {
    case 0: CHECK(L.lock(), "lock"); section(); CHECK(L.unlock(), "unlock"); ok[id]++; break;
    case 1: { CAutoLock g(L); section(); ok[id]++; break; }
    case 2: if (L.tryLock()) { section(); CHECK(L.unlock(), "unlock"); ok[id]++; sym_reach("try"); } else sym_reach("busy"); break;
    case 3: { bool t = false; try { guarded(); } catch (int) { t = true; } CHECK(t, "thrown"); ok[id]++; break; }
  }
  return 0;
}
void harness() {
  pthread_t t[NT]; int n = 0; for (int i = 0; i < NT; i++) for (int k = 0; k < K; k++) how[i][k] = sym_choice(4, "how");
  for (int i = 1; i < NT; i++) pthread_create(&t[i], 0, worker, (void*)(intptr_t)i); worker(0); for (int i = 1; i < NT; i++) pthread_join(t[i], 0);
  for (int i = 0; i < NT; i++) n += ok[i]; CHECK(n == total, "every section entered once"); CHECK(L.tryLock(), "the lock is free at the end"); CHECK(!L.tryLock(), "and exclusive"); L.unlock(); sym_reach("done");
}
#elif HT == 6 // readers / writers
static CReadWriteLock L; static int how[3][K], shared;
static void* worker(void* a) {
  int id = (int)(intptr_t)a;
  for (int i = 0; i < K; i++) {
    int h = how[id][i]; bool w = h & 1, got = h < 2 ? (w ? L.writeLock() : L.readLock()) : (w ? L.tryWriteLock() : L.tryReadLock()); if (h < 2) CHECK(got, "lock"); if (!got) { sym_reach("busy"); continue; }
    if (w) { __atomic_add_fetch(&writers, 1, __ATOMIC_SEQ_CST); CHECK(writers == 1 && readers == 0, "a writer is alone"); shared++; sym_yield(); CHECK(writers == 1 && readers == 0, "a writer stays alone"); __atomic_sub_fetch(&writers, 1, __ATOMIC_SEQ_CST); }
    else { __atomic_add_fetch(&readers, 1, __ATOMIC_SEQ_CST); CHECK(__atomic_load_n(&writers, __ATOMIC_SEQ_CST) == 0, "no writer beside a reader"); int v = shared; sym_yield(); CHECK(v == shared, "data is stable while reading"); if (__atomic_load_n(&readers, __ATOMIC_SEQ_CST) > 1) sym_reach("two_readers"); __atomic_sub_fetch(&readers, 1, __ATOMIC_SEQ_CST); }
    CHECK(L.unlock(), "unlock");
  }
  return 0;
}
void harness() {
  pthread_t t[NT]; for (int i = 0; i < NT; i++) for (int k = 0; k < K; k++) how[i][k] = sym_choice(4, "how");
  for (int i = 1; i < NT; i++) pthread_create(&t[i], 0, worker, (void*)(intptr_t)i); worker(0); for (int i = 1; i < NT; i++) pthread_join(t[i], 0);
  CHECK(L.tryWriteLock(), "free at the end"); CHECK(!L.tryReadLock() && !L.tryWriteLock(), "exclusive"); L.unlock(); CHECK(L.tryReadLock() && L.tryReadLock() && !L.tryWriteLock(), "shared"); sym_reach("done");
}
#elif HT == 7 // condition: notification is not lost
static CMutex M; static Condition C; static int flag = 0, woke = 0, how, nw;
static void* waiter(void*) {
  int n = 0; M.lock(); while (!flag) { bool tm = how == 2 && n++ == 0, r = tm ? C.wait(M, 100) : C.wait(M); if (!tm) CHECK(r, "wait returns true when notified"); CHECK(!M.tryLock(), "the mutex is held after the wait"); }
  woke++; M.unlock(); return 0;
}
void harness() {
  nw = 1 + sym_choice(NT - 1, "waiters"); how = sym_choice(3, "how"); pthread_t t[NT]; for (int i = 0; i < nw; i++) pthread_create(&t[i], 0, waiter, 0);
  M.lock(); flag = 1; M.unlock(); if (how == 1 || nw > 1) { CHECK(C.broadcast(), "broadcast"); } else CHECK(C.signal(), "signal");
  for (int i = 0; i < nw; i++) pthread_join(t[i], 0); CHECK(woke == nw, "every waiter woke"); CHECK(M.tryLock(), "mutex free"); sym_reach("done");
}
#elif HT == 8 // timed wait deadline
void harness() {
  sym_clock(); CMutex m; Condition c; int ms = sym_timeout(); m.lock(); bool r = c.wait(m, ms); CHECK(!r, "no notification: the wait times out"); CHECK(lce_deadline[0] == 1, "after waiting"); check_deadline(ms);
  CHECK(!m.tryLock(), "the mutex is held afterwards"); m.unlock(); CHECK(m.tryLock(), "and can be released"); sym_reach("done");
}
#endif
