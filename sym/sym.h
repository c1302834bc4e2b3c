// Harness API.  In the symbolic build these are engine builtins; in the replay build native.cpp implements
// them by reading the solver's assignment from a file.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t sym_u64(const char *name);
uint32_t sym_u32(const char *name);
uint16_t sym_u16(const char *name);
uint8_t sym_u8(const char *name);
int sym_bool(const char *name);
void sym_bytes(void *p, size_t n, const char *name);
uint64_t sym_range(uint64_t lo, uint64_t hi, const char *name);   // lo..hi inclusive, stays symbolic
int sym_choice(uint64_t n, const char *name);                     // 0..n-1, one path per value
void sym_assume(int c);
void sym_assert(int c, const char *msg);
void sym_fail(const char *msg);
void sym_reach(const char *label);        // reachability witness (vacuity guard)
void sym_end(void) __attribute__((noreturn)); // end this path successfully
void sym_observe(const char *name, uint64_t v); // compared between encoding and real code on sampled paths
uint64_t sym_concretize(uint64_t v);      // one path per value
int sym_is_symbolic(void);
int64_t sym_heap_live(void);              // live heap blocks
void sym_yield(void);                     // scheduling point
void sym_join_all(void);                  // wait until every other thread has ended
int sym_eq(const void *a, const void *b, size_t n);                 // are the n bytes equal
void sym_pattern(void *p, size_t n, uint64_t salt, uint64_t text);  // fixed bytes, every one different from its neighbours (text: lower case letters)
void sym_note(const char *msg, uint64_t v);
void harness(void);
#ifdef __cplusplus
}
#endif
