// Replay build: feeds the solver's assignment to the real code, compiled natively with sanitizers.
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <exception>
#include <signal.h>
#include <sys/resource.h>
#include <atomic>
static FILE* rf; static char line[65536]; static long pos = 0;
extern "C" {
void __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, size_t), void (*f)(const volatile void*)) __attribute__((weak));
void sym_replay_die(int code) { fflush(stdout); fflush(stderr); _exit(code); }
struct In { char n[48]; unsigned long long v; }; static In* ins; static long nin = 0;
static void load() { // all inputs up front: nothing is read from a file while threads run
  long cap = 0; while (fgets(line, sizeof line, rf)) { char n[64]; unsigned w; unsigned long long v; if (sscanf(line, "in %47s %u %llx", n, &w, &v) != 3) continue; if (nin == cap) { cap = cap ? cap * 2 : 1024; ins = (In*)realloc(ins, cap * sizeof(In)); } strcpy(ins[nin].n, n); ins[nin++].v = v; }
  fclose(rf);
}
static bool same(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return *a == *b; }
uint64_t sym_next_in(const char* nm) {
  if (pos >= nin) { fprintf(stderr, "REPLAY-DIVERGED: out of inputs asking %s\n", nm); sym_replay_die(98); }
  if (!same(ins[pos].n, nm)) { fprintf(stderr, "REPLAY-DIVERGED: input %ld is %s, asked %s\n", pos, ins[pos].n, nm); sym_replay_die(98); }
  return ins[pos++].v;
}
uint64_t sym_u64(const char* n) { return sym_next_in(n); }
uint32_t sym_u32(const char* n) { return (uint32_t)sym_next_in(n); }
uint16_t sym_u16(const char* n) { return (uint16_t)sym_next_in(n); }
uint8_t sym_u8(const char* n) { return (uint8_t)sym_next_in(n); }
int sym_bool(const char* n) { return (int)sym_next_in(n) & 1; }
void sym_bytes(void* p, size_t k, const char* n) { for (size_t i = 0; i < k; i++) ((unsigned char*)p)[i] = (unsigned char)sym_next_in(n); }
int sym_eq(const void* a, const void* b, size_t n) { unsigned d = 0; for (size_t i = 0; i < n; i++) d |= ((const unsigned char*)a)[i] ^ ((const unsigned char*)b)[i]; return d == 0; }
void sym_pattern(void* p, size_t n, uint64_t salt, uint64_t text) { for (uint64_t i = 0; i < n; i++) { uint32_t v = (uint32_t)(i * 7 + i / 251 + i / 65536 * 3 + salt); ((unsigned char*)p)[i] = (unsigned char)(text ? 'a' + v % 26 : v); } }
uint64_t sym_range(uint64_t lo, uint64_t hi, const char* n) { uint64_t v = sym_next_in(n); if (v < lo || v > hi) { fprintf(stderr, "REPLAY-DIVERGED: range %s\n", n); sym_replay_die(98); } return v; }
int sym_choice(uint64_t k, const char* n) { uint64_t v = sym_next_in(n); if (v >= k) { fprintf(stderr, "REPLAY-DIVERGED: choice %s\n", n); sym_replay_die(98); } return (int)v; }
void sym_assume(int c) { if (!c) { fprintf(stderr, "REPLAY-DIVERGED: assumption false\n"); sym_replay_die(98); } }
void sym_assert(int c, const char* m) { if (!c) { printf("REPLAY-VIOLATION assertion: %s\n", m); sym_replay_die(77); } }
void sym_fail(const char* m) { printf("REPLAY-VIOLATION assertion: %s\n", m); sym_replay_die(77); }
void sym_reach(const char*) {}
void sym_end(void) { printf("REPLAY-OK\n"); sym_replay_die(0); }
void sym_observe(const char* n, uint64_t v) { printf("obs %s %llx\n", n, (unsigned long long)v); }
uint64_t sym_concretize(uint64_t v) { return v; }
int sym_is_symbolic(void) { return 0; }
void sym_note(const char*, uint64_t) {}
static std::atomic<long> live;
static void mh(const volatile void*, size_t) { live++; }
static void fh(const volatile void* p) { if (p) live--; }
int64_t sym_heap_live(void) { return live; }
#ifndef SYM_THREADS
void sym_yield(void) {}
void sym_join_all(void) {}
#endif
static void onTerm() { printf("REPLAY-VIOLATION uncaught exception (std::terminate)\n"); sym_replay_die(79); }
static void onSig(int s) { printf("REPLAY-VIOLATION signal %d\n", s); sym_replay_die(80); }
static void setsig(int n, void (*h)(int)) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = h; sigaction(n, &a, 0); } // not signal(): harnesses may model it
void sym_replay_threads_init(void) __attribute__((weak));
}
int main(int argc, char** argv) {
  const char* f = argc > 1 ? argv[1] : getenv("SYM_REPLAY"); rf = f ? fopen(f, "r") : 0; if (!rf) { fprintf(stderr, "no replay file\n"); return 97; }
  load();
  struct rlimit rl = {64u << 20, 64u << 20}; setrlimit(RLIMIT_STACK, &rl);
  std::set_terminate(onTerm); setsig(SIGALRM, onSig); setsig(SIGABRT, onSig); setsig(SIGPIPE, SIG_IGN);
  if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(mh, fh);
  if (sym_replay_threads_init) sym_replay_threads_init();
  harness(); printf("REPLAY-OK\n"); fflush(stdout); sym_replay_die(0); return 0;
}
