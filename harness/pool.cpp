// C35 thread pool
#include "hcommon.h"
#include <pthread.h>
#include "CTask.h"
#include <atomic>
extern "C" { extern int lce_thread_fault; int lce_thread_fault; } // n: the n-th next creation of a thread fails
using namespace lce;
static pthread_mutex_t mu; static pthread_cond_t cv; static int total = 0, expect = 0;
struct Rec { int runs, type, idx, order; void* data; };
#ifndef RN
#define RN 12
#define RBITS 4
#endif
static Rec rec[RN]; static int cells[RN];
struct Pool : CTask {
  void onWork(int type, void* data, int idx) {
    pthread_mutex_lock(&mu); int i = type & ((1 << RBITS) - 1); CHECK(i < RN, "a dispatched task"); rec[i].runs++; rec[i].type = type; rec[i].data = data; rec[i].idx = idx; rec[i].order = total++; if (total >= expect) pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mu);
  }
};
static void wait_all(int n) { pthread_mutex_lock(&mu); expect = n; while (total < n) pthread_cond_wait(&cv, &mu); pthread_mutex_unlock(&mu); }
static uint32_t hi[RN];
static int tag(int i) { return (int)(hi[i] << RBITS) | i; }
static Pool* P; static void* other(void*) { return 0; }
static bool accepted[RN];
static void disp(int i) { accepted[i] = P->dispatch(tag(i), &cells[i]) == 0; }
#if HT == 1 // dispatchers and workers run concurrently; ends by stop()
static void* dispatcher(void*) { for (int i = 0; i < D1; i++) disp(6 + i); return 0; }
void harness() {
  pthread_mutex_init(&mu, 0); pthread_cond_init(&cv, 0); for (int i = 0; i < 12; i++) hi[i] = sym_u32("type");
  P = new Pool; int w = 1 + sym_choice(W, "workers"); CHECK(P->init(w, 100) == 0, "init"); bool early = sym_bool("early"); pthread_t t; if (early) for (int i = 0; i < D0; i++) disp(i);
  CHECK(P->run() == 0, "run"); if (D1) pthread_create(&t, 0, dispatcher, 0);
  if (!early) for (int i = 0; i < D0; i++) disp(i);
  if (D1) pthread_join(t, 0); wait_all(D0 + D1);
  pthread_mutex_lock(&mu);
  for (int k = 0; k < D0 + D1; k++) { int i = k < D0 ? k : 6 + k - D0; CHECK(accepted[i], "accepted"); CHECK(rec[i].runs == 1, "each task runs exactly once"); CHECK(rec[i].type == tag(i) && rec[i].data == &cells[i], "with its own type and data"); CHECK(rec[i].idx >= 0 && rec[i].idx < w, "by one of the workers");
    if (w == 1 && k + 1 < D0) CHECK(rec[k].order < rec[k + 1].order, "one worker runs them in order"); if (w == 1 && k >= D0 && k + 1 < D0 + D1) CHECK(rec[i].order < rec[i + 1].order, "one worker runs them in order"); }
  CHECK(total == D0 + D1, "and nothing else"); pthread_mutex_unlock(&mu);
  sym_reach("ran"); CHECK(P->stop() == 0 || true, "stop"); sym_join_all(); sym_reach("stopped"); CHECK(total == D0 + D1, "nothing runs twice"); delete P; sym_reach("done");
}
#elif HT == 2 // the queue bound: nothing runs while the pool is not started
void harness() {
  pthread_mutex_init(&mu, 0); pthread_cond_init(&cv, 0); for (int i = 0; i < 12; i++) hi[i] = sym_u32("type");
  P = new Pool; int max = 1 + sym_choice(3, "max"); CHECK(P->init(1, max) == 0, "init"); int n = max + 2;
  for (int i = 0; i < n; i++) { disp(i); CHECK(accepted[i] == (i < max), "exactly the configured number of tasks is accepted"); }
  P->run(); wait_all(max); disp(n); CHECK(accepted[n], "room again"); wait_all(max + 1);
  pthread_mutex_lock(&mu); for (int i = 0; i <= n; i++) { int r = i < max || i == n; CHECK(rec[i].runs == r, "accepted tasks run once, refused ones never"); if (r) CHECK(rec[i].type == tag(i) && rec[i].data == &cells[i], "own data"); if (i && i < max) CHECK(rec[i - 1].order < rec[i].order, "in order"); }
  pthread_mutex_unlock(&mu); P->stop(); sym_join_all(); CHECK(total == max + 1, "nothing else ran"); delete P; sym_reach("done");
}
#elif HT == 7 // many tasks
void harness() {
  pthread_mutex_init(&mu, 0); pthread_cond_init(&cv, 0); for (int i = 0; i < RN; i++) hi[i] = i % 10 ? i * 0x10203 : sym_u32("type"); static const int MAXQ[] = {1, 31, 64, 100};
  P = new Pool; int max = MAXQ[sym_choice(4, "max")], n = max + 3; CHECK(P->init(1, max) == 0, "init"); for (int i = 0; i < n; i++) { disp(i); CHECK(accepted[i] == (i < max), "exactly the configured number of tasks is accepted"); }
  CHECK(P->run() == 0, "run"); wait_all(max); int m = n + max; if (m > RN) m = RN; for (int i = n; i < m; i++) { disp(i); CHECK(accepted[i], "room again"); } wait_all(max + m - n);
  pthread_mutex_lock(&mu); int before = -1; for (int i = 0; i < m; i++) { int r = i < max || i >= n; CHECK(rec[i].runs == r, "accepted tasks run once, refused ones never"); if (r) { CHECK(rec[i].type == tag(i) && rec[i].data == &cells[i], "own data"); CHECK(rec[i].order > before, "in order"); before = rec[i].order; } }
  pthread_mutex_unlock(&mu); P->stop(); sym_join_all(); CHECK(total == max + m - n, "nothing else ran"); delete P; sym_reach("done");
}
#elif HT == 3 // stop at any moment: threads end, no task twice, no deadlock, dispatch still works
void harness() {
  pthread_mutex_init(&mu, 0); pthread_cond_init(&cv, 0); expect = 99; for (int i = 0; i < 12; i++) hi[i] = i;
  P = new Pool; int w = 1 + sym_choice(W, "workers"); P->init(w, 10); P->run(); for (int i = 0; i < D0; i++) disp(i);
  P->stop(); P->dispatch(tag(5), 0); sym_join_all(); for (int i = 0; i < 12; i++) CHECK(rec[i].runs <= 1, "no task runs twice"); for (int i = 6; i < 12; i++) CHECK(rec[i].runs == 0, "only dispatched tasks run");
  CHECK(P->dispatch(tag(4), 0) == 0, "the queue lock is free after stop"); delete P; sym_reach("done");
}
#elif HT == 4 // a thread object: started once, run once, joined, destroyed
struct Th : CThread { int ran; Th() : ran(0) {} int run() { ran++; if (loop) while (!isStoped()) usleep(1000); return 0; } static int loop; }; int Th::loop = 0;
void harness() {
  Th::loop = sym_bool("loop"); Th* t = new Th; CHECK(t->start() == 0, "start"); if (Th::loop) { t->stop(); CHECK(t->isStoped(), "stopped"); } CHECK(t->join() == 0, "join");
  CHECK(t->ran <= 1, "run once"); if (!Th::loop) CHECK(t->ran == 1, "run once"); delete t; sym_reach(Th::loop ? "loop" : "once");
}
#elif HT == 5 // C46: histories of one thread object, any of whose starts may fail
static pthread_t mainthread; static std::atomic<int> begun(0), ended(0); static std::atomic<bool> loop(false);
struct Th : CThread { int run() { CHECK(!pthread_equal(pthread_self(), mainthread), "the body runs on a thread of its own"); begun++; if (loop) while (!isStoped()) usleep(1000); ended++; return 0; } };
void harness() {
  mainthread = pthread_self(); Th* t = new Th; int starts = 0; bool live = false, stopped = false, detached = false; loop = sym_bool("loop"); CHECK(!t->isStoped(), "not stopped at first");
  for (int i = 0; i < OPS; i++) switch (sym_choice(4, "op")) {
    case 0: if (live && (!detached || (loop && !stopped))) break; if (live) { sym_join_all(); live = false; sym_reach("again"); } { lce_thread_fault = sym_choice(2, "fault"); int f = lce_thread_fault; int r = t->start(); CHECK((r != 0) == (f != 0), "a failed start is reported"); CHECK(!t->isStoped(), "a start clears the stop"); stopped = false; if (f) sym_reach("failed"); else { starts++; live = true; detached = false; sym_reach("started"); } } break;
    case 1: t->stop(); stopped = true; CHECK(t->isStoped(), "stopped"); break;
    case 2: if (live && loop && !stopped) break; { int r = t->join(); if (!live || !detached) { CHECK(r == 0, "join"); if (live && !stopped) CHECK(ended == starts, "join waits for the body"); live = false; sym_reach("joined"); } else CHECK(r != 0, "a detached thread is not joined"); } break;
    default: CHECK(t->detach() == 0, "detach"); if (live) { detached = true; sym_reach("detached"); } break;
  }
  if (live && loop && !stopped) t->stop(), stopped = true; sym_join_all();
  CHECK(begun <= starts && ended <= begun, "the body runs once per start"); pthread_t o; int r = pthread_create(&o, 0, other, 0); CHECK(r == 0, "another thread"); delete t; CHECK(pthread_join(o, 0) == 0, "is not affected by the end of the object"); sym_reach("done");
}
#elif HT == 6 // C46: a pool some of whose threads cannot be started
void harness() {
  pthread_mutex_init(&mu, 0); pthread_cond_init(&cv, 0); for (int i = 0; i < 12; i++) hi[i] = i; int w = 1 + sym_choice(W, "workers"), f = sym_choice(w + 1, "fault"); P = new Pool; CHECK(P->init(w, 4) == 0, "init"); lce_thread_fault = f;
  int r = P->run(); CHECK((r != 0) == (f != 0), "a pool without one of its threads is reported"); bool some = w > 1 || f == 0; if (f) sym_reach("failed"); else sym_reach("started");
  if (some) { disp(0); CHECK(accepted[0], "accepted"); wait_all(1); CHECK(rec[0].runs == 1, "the threads that there are work"); }
  P->stop(); sym_join_all(); pthread_t o; r = pthread_create(&o, 0, other, 0); CHECK(r == 0, "another thread"); delete P; CHECK(pthread_join(o, 0) == 0, "is not affected by the end of the pool"); sym_reach("done");
}
#endif
