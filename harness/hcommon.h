#pragma once
#include "sym.h"
#include <string.h>
#include <stdlib.h>
#include <string>
#include <vector>
#include <map>
// exact-size heap copy: any read outside [0,n) is a violation in both builds
struct Exact { char* p; size_t n; explicit Exact(size_t k) : p((char*)malloc(k)), n(k) {} ~Exact() { free(p); } };
// a std::string of n symbolic bytes
static inline std::string sym_string(size_t n, const char* name) { std::string s(n, 'x'); if (n) sym_bytes(&s[0], n, name); return s; }
// a std::string of n symbolic bytes, none of them NUL
static inline std::string sym_cstring(size_t n, const char* name) { std::string s = sym_string(n, name); for (size_t i = 0; i < n; i++) sym_assume(s[i] != 0); return s; }
// a decimal number as text and magnitude: 1..9 digits, 10..18 digits, or near the ends of the 32- and 64-bit ranges
static inline std::string sym_number(unsigned long& v) {
  static const char* NUMPRE[] = {"", "123456789", "21474836", "42949672", "92233720368547758", "184467440737095516"}; int k = sym_choice(6, "shape"), nd = k < 2 ? 1 + sym_choice(9, "nd") : 2; std::string d = NUMPRE[k]; v = 0; for (size_t i = 0; i < d.size(); i++) v = v * 10 + (d[i] - '0');
  for (int i = 0; i < nd; i++) { int x = (int)sym_range(i || nd == 1 || k ? 0 : 1, k == 5 && !i ? 1 : 9, "d"); if (k == 5 && i) sym_assume(x <= 5); d += (char)('0' + x); v = v * 10 + x; } return d;
}
#define CHECK(c, msg) sym_assert(!!(c), msg)
static inline bool bytes_eq(const char* a, const char* b, size_t n) { return sym_eq(a, b, n) != 0; }
static inline bool str_eq(const std::string& a, const std::string& b) { return a.size() == b.size() && bytes_eq(a.data(), b.data(), a.size()); }
