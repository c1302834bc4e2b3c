// C43: the first uses of a singleton from several threads
#include "tenv.h"
#include "CSingleton.h"
#include "CCommMgr.h"
using namespace lce;
#if HT == 1
static int made = 0, kept[3];
struct Obj { int a, b; int* p; Obj() : a(7) { made++; sym_yield(); b = 9; p = new int(11); } };
#if FAILS
static int throws_left = 1; struct Boom {};
struct Obj2 : Obj { Obj2() { if (throws_left > 0) { throws_left--; throw Boom(); } } };
typedef Obj2 T;
#else
typedef Obj T;
#endif
static T* got[3]; static int fails[3];
static void use(int w) {
  for (int i = 0; i < 2; i++) { try { T& o = CSingleton<T>::getInstance(); CHECK(o.a == 7 && o.b == 9 && o.p && *o.p == 11, "every caller gets a fully constructed object"); CHECK(!got[w] || got[w] == &o, "always the same object"); got[w] = &o; }
#if FAILS
    catch (Boom&) { fails[w]++; }
#endif
    catch (int) {} }
}
static void* th(void* a) { use((int)(intptr_t)a); return 0; }
void harness() {
  pthread_t t[3]; for (int w = 1; w < N; w++) pthread_create(&t[w], 0, th, (void*)(intptr_t)w); use(0); for (int w = 1; w < N; w++) pthread_join(t[w], 0);
  for (int w = 1; w < N; w++) CHECK(got[w] == got[0], "all threads share one object"); int f = 0; for (int w = 0; w < N; w++) f += fails[w];
  CHECK(got[0] && made == 1 + f, "it is constructed once"); sym_reach("done");
}
#else
static CCommMgr* got[3];
static void* th(void* a) { got[(int)(intptr_t)a] = &CCommMgr::getInstance(); return 0; }
void harness() {
  pthread_t t[3]; for (int w = 1; w < N; w++) pthread_create(&t[w], 0, th, (void*)(intptr_t)w); th(0); for (int w = 1; w < N; w++) pthread_join(t[w], 0);
  for (int w = 0; w < N; w++) CHECK(got[w] && got[w] == got[0], "all threads share one object"); CHECK(&CCommMgr::getInstance() == got[0], "always the same object"); sym_reach("done");
}
#endif
