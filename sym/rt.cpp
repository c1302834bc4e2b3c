// Model runtime for the symbolic build: the parts of libc / libstdc++ that live outside the headers.
#include <map>
#include <list>
#include <unordered_map>
#include <string>
#include <stdexcept>
#include <new>
#include <stdint.h>
#include <errno.h>
#include <stdarg.h>
#include <strings.h>
#include <sys/types.h>

#include <time.h>
#include <chrono>
#include <mutex>

namespace std {
  // ---- red-black tree: same ordering semantics, no rebalancing (balance is unobservable)
  typedef _Rb_tree_node_base* BP;
  void _Rb_tree_insert_and_rebalance(const bool left, BP x, BP p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  }
  // the end() node is recognised by its parent's parent being itself (header) with red colour, as in libstdc++
  static BP inc(BP x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else { BP y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
    return x;
  }
  static BP dec(BP x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) { BP y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
    else { BP y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
    return x;
  }
  BP _Rb_tree_increment(BP x) throw() { return inc(x); }
  const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<BP>(x)); }
  BP _Rb_tree_decrement(BP x) throw() { return dec(x); }
  const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<BP>(x)); }
  BP _Rb_tree_rebalance_for_erase(BP const z, _Rb_tree_node_base& h) throw() {
    BP& root = h._M_parent; BP& lm = h._M_left; BP& rm = h._M_right; BP y = z, x = 0;
    if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
      z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
      if (y != z->_M_right) { if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
      if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
      y->_M_parent = z->_M_parent;
    } else {
      if (x) x->_M_parent = y->_M_parent;
      if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
      if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { BP m = x; while (m->_M_left) m = m->_M_left; lm = m; } }
      if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { BP m = x; while (m->_M_right) m = m->_M_right; rm = m; } }
    }
    return z;
  }
  namespace __detail {
    void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
    void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
    void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
      if (x._M_next != &x) { if (y._M_next != &y) { _List_node_base* t = x._M_next; x._M_next = y._M_next; y._M_next = t; t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
      else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
    }
    void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
      if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
    }
    // hash containers: a single bucket and a constant hash (any hash function is admissible)
    size_t _Prime_rehash_policy::_M_next_bkt(size_t) const { return 1; }
    pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return pair<bool, size_t>(false, 0); }
  }
  size_t _Hash_bytes(const void*, size_t, size_t) { return 0; }
  size_t _Fnv_hash_bytes(const void*, size_t, size_t) { return 0; }
  void __throw_length_error(const char* m) { throw length_error(m); }
  void __throw_out_of_range(const char* m) { throw out_of_range(m); }
  void __throw_out_of_range_fmt(const char* m, ...) { throw out_of_range(m); }
  void __throw_logic_error(const char* m) { throw logic_error(m); }
  void __throw_runtime_error(const char* m) { throw runtime_error(m); }
  void __throw_invalid_argument(const char* m) { throw invalid_argument(m); }
  void __throw_bad_function_call() { throw runtime_error("bad_function_call"); }
  void __throw_bad_cast() { throw runtime_error("bad_cast"); }
  const nothrow_t nothrow = nothrow_t();
}
extern "C" {
#define IS(c, a, b) ((unsigned)(c) - (a) <= (unsigned)(b) - (a))
int isdigit(int c) { return IS(c, '0', '9'); }
int isxdigit(int c) { return IS(c, '0', '9') | IS(c, 'a', 'f') | IS(c, 'A', 'F'); }
int isalpha(int c) { return IS(c, 'a', 'z') | IS(c, 'A', 'Z'); }
int isalnum(int c) { return IS(c, '0', '9') | IS(c, 'a', 'z') | IS(c, 'A', 'Z'); }
int isupper(int c) { return IS(c, 'A', 'Z'); }
int islower(int c) { return IS(c, 'a', 'z'); }
int isspace(int c) { return (c == ' ') | IS(c, 9, 13); }
int iscntrl(int c) { return IS(c, 0, 31) | (c == 127); }
int isprint(int c) { return IS(c, 32, 126); }
int isgraph(int c) { return IS(c, 33, 126); }
int isblank(int c) { return (c == ' ') | (c == 9); }
int isascii(int c) { return IS(c, 0, 127); }
int ispunct(int c) { return IS(c, 33, 126) & !isalnum(c); }
int tolower(int c) { return IS(c, 'A', 'Z') ? c + 32 : c; }
int toupper(int c) { return IS(c, 'a', 'z') ? c - 32 : c; }
size_t __lce_skip(const void*, int, size_t);
size_t strlen(const char* s) { size_t n = __lce_skip(s, 0, ~0ul); while (s[n]) { n++; n += __lce_skip(s + n, 0, ~0ul); } return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) ; return r; }
char* stpcpy(char* d, const char* s) { while ((*d = *s)) { d++; s++; } return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
int strcmp(const char* a, const char* b) { while (*a == *b) { if (!*a) return 0; a++; b++; } return (unsigned char)*a < (unsigned char)*b ? -1 : 1; }
int strncmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; if (!a[i]) return 0; } return 0; }
int strcasecmp(const char* a, const char* b) { for (;;) { int x = tolower((unsigned char)*a++), y = tolower((unsigned char)*b++); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; n--) { int x = tolower((unsigned char)*a++), y = tolower((unsigned char)*b++); if (x != y) return x - y; if (!x) return 0; } return 0; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { i += __lce_skip(s + i, (unsigned char)c, n - i); if (i < n && s[i] == (unsigned char)c) return (void*)(s + i); } return 0; }
void* memrchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; while (n--) if (s[n] == (unsigned char)c) return (void*)(s + n); return 0; }
char* strstr(const char* h, const char* n) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char*)h; if (!*h) return 0; } }
char* strcasestr(const char* h, const char* n) { for (;; h++) { size_t i = 0; while (n[i] && tolower((unsigned char)h[i]) == tolower((unsigned char)n[i])) i++; if (!n[i]) return (char*)h; if (!*h) return 0; } }
int memcmp(const void*, const void*, size_t); void* memset(void*, int, size_t); void* memcpy(void*, const void*, size_t);
void* memmem(const void* h, size_t hl, const void* n, size_t nl) { const char* p = (const char*)h; for (size_t i = 0; i + nl <= hl; i++) if (memcmp(p + i, n, nl) == 0) return (void*)(p + i); return 0; }
char* strpbrk(const char* s, const char* a) { for (; *s; s++) if (strchr(a, *s)) return (char*)s; return 0; }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char* strtok_r(char* s, const char* d, char** sp) { if (!s) s = *sp; s += strspn(s, d); if (!*s) { *sp = s; return 0; } char* e = s + strcspn(s, d); if (*e) *e++ = 0; *sp = e; return s; }
static char* tokp; char* strtok(char* s, const char* d) { return strtok_r(s, d, &tokp); }
char* strsep(char** sp, const char* d) { char* s = *sp; if (!s) return 0; char* e = s + strcspn(s, d); if (*e) { *e = 0; *sp = e + 1; } else *sp = 0; return s; }
int strcoll(const char* a, const char* b) { return strcmp(a, b); }
char* index(const char* s, int c) { return strchr(s, c); }
char* rindex(const char* s, int c) { return strrchr(s, c); }
void* memccpy(void* d, const void* p, int c, size_t n) { char* o = (char*)d; const char* s = (const char*)p; for (size_t i = 0; i < n; i++) { o[i] = s[i]; if (s[i] == (char)c) return o + i + 1; } return 0; }
void qsort(void* b, size_t n, size_t z, int (*f)(const void*, const void*)) { char* p = (char*)b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && f(p + j * z, p + (j - 1) * z) < 0; j--) for (size_t k = 0; k < z; k++) { char t = p[j * z + k]; p[j * z + k] = p[(j - 1) * z + k]; p[(j - 1) * z + k] = t; } }
void* bsearch(const void* k, const void* b, size_t n, size_t z, int (*f)(const void*, const void*)) { const char* p = (const char*)b; size_t l = 0, h = n; while (l < h) { size_t m = (l + h) / 2; int r = f(k, p + m * z); if (r == 0) return (void*)(p + m * z); if (r < 0) h = m; else l = m + 1; } return 0; }
char* getenv(const char*) { return 0; }
int posix_memalign(void** o, size_t, size_t n) { void* malloc(size_t); *o = malloc(n); return 0; }
double trunc(double); double floor(double); double ceil(double);
double round(double d) { return d < 0 ? -floor(-d + 0.5) : floor(d + 0.5); }
long lround(double d) { return (long)round(d); } long long llround(double d) { return (long long)round(d); }
int getpid() { return 4242; }
void* malloc(size_t);
int asprintf(char** o, const char* f, ...) { char b[4096]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); *o = (char*)malloc(n + 1); strcpy(*o, b); return n; }
void lce_no_scanf(char); void lce_no_strftime(char); // conversions without a model
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* r = (char*)malloc(n); for (size_t i = 0; i < n; i++) r[i] = s[i]; return r; }
static int digv(int c) { if (IS(c, '0', '9')) return c - '0'; if (IS(c, 'a', 'z')) return c - 'a' + 10; if (IS(c, 'A', 'Z')) return c - 'A' + 10; return 99; }
static unsigned long long scan(const char* s, char** e, int base, int* neg, int* ovf) {
  const char* p = s; while (isspace((unsigned char)*p)) p++; *neg = 0; *ovf = 0; if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digv(p[2]) < 16) { p += 2; base = 16; } else if (base == 0) base = p[0] == '0' ? 8 : 10;
  unsigned long long v = 0; int n = 0;
  for (; digv(*p) < base; p++, n++) { unsigned d = digv(*p); if (n >= 11 && v > (~0ull - 64) / base) { if (v > (~0ull - d) / base) *ovf = 1; } v = v * base + d; }
  if (e) *e = (char*)(n ? p : s); return v;
}
static unsigned long long xstrtoull(const char* s, char** e, int b) { int neg, o; unsigned long long v = scan(s, e, b, &neg, &o); if (o) { errno = ERANGE; return ~0ull; } return neg ? -v : v; }
static long long xstrtoll(const char* s, char** e, int b) { int neg, o; unsigned long long v = scan(s, e, b, &neg, &o); if (o || v > 0x7fffffffffffffffull + (neg ? 1 : 0)) { errno = ERANGE; return neg ? (long long)0x8000000000000000ull : 0x7fffffffffffffffll; } return neg ? -v : v; }
#define DU(id, nm) unsigned long long id(const char*, char**, int) asm(nm); unsigned long long id(const char* s, char** e, int b) { return xstrtoull(s, e, b); }
#define DS(id, nm) long long id(const char*, char**, int) asm(nm); long long id(const char* s, char** e, int b) { return xstrtoll(s, e, b); }
DU(u1, "strtoull") DU(u2, "strtoul") DU(u3, "__isoc23_strtoull") DU(u4, "__isoc23_strtoul") DU(u5, "strtouq")
DS(s1, "strtoll") DS(s2, "strtol") DS(s3, "__isoc23_strtoll") DS(s4, "__isoc23_strtol") DS(s5, "strtoq")
// scanf for what programs use: integers, strings, characters, sets, widths, suppression, %n
static int scanset(const char** f, unsigned char* set) { memset(set, 0, 256); const char* p = *f; int inv = 0; if (*p == '^') { inv = 1; p++; } bool first = true; while (*p && (first || *p != ']')) { first = false; unsigned a = (unsigned char)*p++, b = a; if (*p == '-' && p[1] && p[1] != ']') { b = (unsigned char)p[1]; p += 2; } for (; a <= b; a++) set[a] = 1; } if (*p) p++; *f = p; return inv; }

static int scf(const char* s, const char* f, va_list ap) {
  const char* b = s; int n = 0; 
  while (*f) {
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; f++; continue; }
    if (*f != '%') { if (*s != *f) return n || *s ? n : -1; s++; f++; continue; }
    f++; bool sup = *f == '*'; if (sup) f++; int w = 0; while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0'); int l = 0; while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j') { l += *f == 'h' ? -1 : *f == 'l' ? 1 : 2; f++; } char c = *f++;
    if (c == 'n') { if (!sup) *va_arg(ap, int*) = (int)(s - b); continue; }
    if (c == '%') { while (isspace((unsigned char)*s)) s++; if (*s != '%') return n; s++; continue; }
    if (c != 'c' && c != '[') while (isspace((unsigned char)*s)) s++;
    if (!*s) return n ? n : -1;
    if (c == 'd' || c == 'u' || c == 'x' || c == 'X' || c == 'o' || c == 'i') {
      char t[64]; int k = 0; while (k < 63 && (!w || k < w) && s[k] && !isspace((unsigned char)s[k])) { t[k] = s[k]; k++; } t[k] = 0; char* e; int neg, o; unsigned long long v = scan(t, &e, c == 'x' || c == 'X' ? 16 : c == 'o' ? 8 : c == 'i' ? 0 : 10, &neg, &o); if (e == t) return n; s += e - t; if (neg) v = -v;
      if (!sup) { if (l >= 1) *va_arg(ap, unsigned long long*) = v; else if (l == -1) *va_arg(ap, unsigned short*) = (unsigned short)v; else if (l <= -2) *va_arg(ap, unsigned char*) = (unsigned char)v; else *va_arg(ap, unsigned*) = (unsigned)v; n++; }
    } else if (c == 's' || c == '[') {
      unsigned char set[256]; int inv = 0; if (c == '[') inv = scanset(&f, set); char* o = sup ? 0 : va_arg(ap, char*); int k = 0; while (s[k] && (!w || k < w) && (c == 's' ? !isspace((unsigned char)s[k]) : (set[(unsigned char)s[k]] != 0) != (inv != 0))) { if (o) o[k] = s[k]; k++; } if (!k) return n; if (o) { o[k] = 0; n++; } s += k;
    } else if (c == 'c') { if (!w) w = 1; char* o = sup ? 0 : va_arg(ap, char*); for (int k = 0; k < w; k++) { if (!*s) return n ? n : -1; if (o) o[k] = *s; s++; } if (o) n++; }
    else lce_no_scanf(c);
  }
  return n;
}
#define SCF(id, nm) int id(const char*, const char*, ...) asm(nm); int id(const char* s, const char* f, ...) { va_list a; va_start(a, f); int r = scf(s, f, a); va_end(a); return r; }
SCF(sc1, "sscanf") SCF(sc2, "__isoc99_sscanf") SCF(sc3, "__isoc23_sscanf")
// dates and addresses as text
size_t strftime(char* o, size_t m, const char* f, const struct tm* t) {
  std::string r; char b[32]; for (; *f; f++) { if (*f != '%') { r += *f; continue; } f++; b[0] = 0; const char* q = 0;
    switch (*f) { case 'Y': snprintf(b, 32, "%d", t->tm_year + 1900); break; case 'm': snprintf(b, 32, "%02d", t->tm_mon + 1); break; case 'd': snprintf(b, 32, "%02d", t->tm_mday); break; case 'H': snprintf(b, 32, "%02d", t->tm_hour); break; case 'M': snprintf(b, 32, "%02d", t->tm_min); break; case 'S': snprintf(b, 32, "%02d", t->tm_sec); break; case 'y': snprintf(b, 32, "%02d", t->tm_year % 100); break;
      case 'e': snprintf(b, 32, "%2d", t->tm_mday); break; case 'j': snprintf(b, 32, "%03d", t->tm_yday + 1); break; case '%': b[0] = '%'; b[1] = 0; break; case 'F': snprintf(b, 32, "%d-%02d-%02d", t->tm_year + 1900, t->tm_mon + 1, t->tm_mday); break; case 'T': snprintf(b, 32, "%02d:%02d:%02d", t->tm_hour, t->tm_min, t->tm_sec); break; default: lce_no_strftime(*f); }
    r += b; }
  if (r.size() + 1 > m) return 0; strcpy(o, r.c_str()); return r.size();
}
static int parse4(const char* s, unsigned char* o) { for (int i = 0; i < 4; i++) { unsigned v = 0; int k = 0; while (*s >= '0' && *s <= '9' && k < 4) { v = v * 10 + (*s++ - '0'); k++; } if (!k || k > 3 || v > 255) return 0; o[i] = (unsigned char)v; if (i < 3 && *s++ != '.') return 0; } return *s == 0; }
int inet_pton(int af, const char* s, void* d) { if (af != 2) { errno = EAFNOSUPPORT; return -1; } unsigned char o[4]; if (!parse4(s, o)) return 0; memcpy(d, o, 4); return 1; }
int inet_aton(const char* s, void* d) { unsigned char o[4]; if (!parse4(s, o)) return 0; memcpy(d, o, 4); return 1; }
double atof(const char*);
double strtod(const char* s, char** e) { const char* p = s; while (isspace((unsigned char)*p)) p++; if (*p == '-' || *p == '+') p++; int n = 0; while (isdigit((unsigned char)*p)) { p++; n++; } if (*p == '.') { p++; while (isdigit((unsigned char)*p)) { p++; n++; } } if (!n) { if (e) *e = (char*)s; return 0; } if ((*p | 32) == 'e') { const char* q = p + 1; if (*q == '-' || *q == '+') q++; if (isdigit((unsigned char)*q)) { while (isdigit((unsigned char)*q)) q++; p = q; } } if (e) *e = (char*)p; return atof(s); }
float strtof(const char* s, char** e) { return (float)strtod(s, e); }
const char* inet_ntop(int af, const void* a, char* d, unsigned n) { const unsigned char* o = (const unsigned char*)a; char b[20]; int k = snprintf(b, 20, "%d.%d.%d.%d", o[0], o[1], o[2], o[3]); if (af != 2 || (unsigned)k >= n) { errno = af != 2 ? EAFNOSUPPORT : ENOSPC; return 0; } strcpy(d, b); return d; }
long atol(const char* s) { return xstrtoll(s, 0, 10); }
long long atoll(const char* s) { return xstrtoll(s, 0, 10); }
int atoi(const char* s) { return (int)xstrtoll(s, 0, 10); }
uint32_t htonl(uint32_t x) { return __builtin_bswap32(x); }
uint32_t ntohl(uint32_t x) { return __builtin_bswap32(x); }
uint16_t htons(uint16_t x) { return __builtin_bswap16(x); }
uint16_t ntohs(uint16_t x) { return __builtin_bswap16(x); }
char* strerror(int) { static char e[] = "error"; return e; }
}
// ---- standard exceptions: a message kept outside the heap, and what()
struct LceExc { virtual ~LceExc(); virtual const char* what() const noexcept; const char* msg; };
LceExc::~LceExc() {}
const char* LceExc::what() const noexcept { return msg ? msg : "exception"; }
extern "C" char excVT[] asm("_ZTV6LceExc");
static __thread char excBuf[8][96]; static __thread unsigned excNext;
static void excSet(LceExc* e, const char* m) { char* b = excBuf[excNext++ % 8]; strncpy(b, m, 95); b[95] = 0; *(void**)e = excVT + 16; e->msg = b; }
#define EXC(id, mangled) \
  extern "C" void id##a(LceExc*, const char*) asm("_ZNSt" mangled "C1EPKc"); void id##a(LceExc* e, const char* m) { excSet(e, m); } \
  extern "C" void id##b(LceExc*, const char*) asm("_ZNSt" mangled "C2EPKc"); void id##b(LceExc* e, const char* m) { excSet(e, m); } \
  extern "C" void id##c(LceExc*, const std::string&) asm("_ZNSt" mangled "C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); void id##c(LceExc* e, const std::string& m) { excSet(e, m.c_str()); } \
  extern "C" void id##d(LceExc*, const std::string&) asm("_ZNSt" mangled "C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); void id##d(LceExc* e, const std::string& m) { excSet(e, m.c_str()); } \
  extern "C" void id##e(LceExc*, const LceExc&) asm("_ZNSt" mangled "C1ERKS_"); void id##e(LceExc* e, const LceExc& m) { excSet(e, m.msg); } \
  extern "C" void id##f(LceExc*, const LceExc&) asm("_ZNSt" mangled "C2ERKS_"); void id##f(LceExc* e, const LceExc& m) { excSet(e, m.msg); }
EXC(xrt, "13runtime_error") EXC(xlo, "11logic_error") EXC(xoo, "12out_of_range") EXC(xle, "12length_error") EXC(xia, "16invalid_argument") EXC(xre, "11range_error") EXC(xov, "14overflow_error") EXC(xdo, "12domain_error")
extern "C" const char* xw1(const LceExc*) asm("_ZNKSt13runtime_error4whatEv"); const char* xw1(const LceExc* e) { return e->msg; }
extern "C" const char* xw2(const LceExc*) asm("_ZNKSt11logic_error4whatEv"); const char* xw2(const LceExc* e) { return e->msg; }
extern "C" const char* xw3(const LceExc*) asm("_ZNKSt9exception4whatEv"); const char* xw3(const LceExc*) { return "std::exception"; }
// ---- in-memory file system behind the stream stubs
struct LceFile { std::string name, data; bool used; };
enum { FSN = 100 }; static LceFile g_fs[FSN];
static int fsFind(const char* n) { for (int i = 0; i < FSN; i++) if (g_fs[i].used && g_fs[i].name == n) return i; return -1; }
extern "C" {
int lce_fs_faults; // set by a harness: 1 opening for writing, 2 writing, 4 renaming, 8 removing fails
int lce_fs_open(const char* n, int mode) {
  if (mode > 1 && (lce_fs_faults & 1)) { errno = EACCES; return -1; }
  int i = fsFind(n); const char* sl = strrchr(n, '/'); if (strncmp(n, "nodir/", 6) == 0 || (sl && !sl[1])) return -1;
  if (i < 0) { if (mode == 1) return -1; for (i = 0; i < FSN && g_fs[i].used; i++) ; if (i == FSN) return -1; g_fs[i].used = true; g_fs[i].name = n; g_fs[i].data.clear(); }
  if (mode == 2) g_fs[i].data.clear();
  return i;
}
int lce_fs_put(int h, const char* p, size_t n) { if (lce_fs_faults & 2) { errno = ENOSPC; return -1; } g_fs[h].data.append(p, n); return 0; }
int lce_fs_get(int h, size_t pos) { return pos < g_fs[h].data.size() ? (unsigned char)g_fs[h].data[pos] : -1; }
void lce_fs_read(int h, char* p) { memcpy(p, g_fs[h].data.data(), g_fs[h].data.size()); }
long lce_fs_size(int h) { return g_fs[h].data.size(); }
int lce_fs_stat(const char* n, long* sz) { int i = fsFind(n); if (i < 0) { errno = ENOENT; return -1; } *sz = g_fs[i].data.size(); return 0; }
int access(const char* n, int) { if (fsFind(n) < 0) { errno = ENOENT; return -1; } return 0; }
int unlink(const char* n) { if (lce_fs_faults & 8) { errno = EACCES; return -1; } int i = fsFind(n); if (i < 0) { errno = ENOENT; return -1; } g_fs[i].name = "\001deleted"; return 0; }
int remove(const char* n) { return unlink(n); }
int rename(const char* a, const char* b) { if (lce_fs_faults & 4) { errno = EACCES; return -1; } int i = fsFind(a), j = fsFind(b); if (i < 0) { errno = ENOENT; return -1; } if (i == j) return 0; if (j >= 0) g_fs[j].name = "\001deleted"; g_fs[i].name = b; return 0; }
}

// ---- C streams on the same files
struct LceCFile { int h; size_t pos; int mode; int eof, err; };
extern "C" {
#define CF(f) ((LceCFile*)(f))
void* cfopen(const char*, const char*) asm("fopen"); void* cfopen(const char* n, const char* m) { int md = *m == 'r' ? 1 : *m == 'w' ? 2 : 3; int h = lce_fs_open(n, md); if (h < 0) { if (md == 1) errno = ENOENT; return 0; } LceCFile* f = new LceCFile; f->h = h; f->pos = 0; f->mode = md; f->eof = f->err = 0; return f; }
int cfclose(void*) asm("fclose"); int cfclose(void* f) { delete CF(f); return 0; }
size_t cfwrite(const void*, size_t, size_t, void*) asm("fwrite"); size_t cfwrite(const void* p, size_t z, size_t n, void* f) { if (CF(f)->mode == 1 || lce_fs_put(CF(f)->h, (const char*)p, z * n) < 0) { CF(f)->err = 1; return 0; } return n; }
int cfputs(const char*, void*) asm("fputs"); int cfputs(const char* s, void* f) { size_t n = strlen(s); return cfwrite(s, 1, n, f) == n ? 1 : -1; }
int cfputc(int, void*) asm("fputc"); int cfputc(int c, void* f) { char b = (char)c; return cfwrite(&b, 1, 1, f) == 1 ? (unsigned char)b : -1; }
int cputc(int, void*) asm("putc"); int cputc(int c, void* f) { return cfputc(c, f); }
int cfgetc(void*) asm("fgetc"); int cfgetc(void* f) { int c = lce_fs_get(CF(f)->h, CF(f)->pos); if (c < 0) CF(f)->eof = 1; else CF(f)->pos++; return c; }
int cgetc(void*) asm("getc"); int cgetc(void* f) { return cfgetc(f); }
char* cfgets(char*, int, void*) asm("fgets"); char* cfgets(char* b, int n, void* f) { int k = 0; while (k + 1 < n) { int c = cfgetc(f); if (c < 0) break; b[k++] = (char)c; if (c == 10) break; } if (!k) return 0; b[k] = 0; return b; }
size_t cfread(void*, size_t, size_t, void*) asm("fread"); size_t cfread(void* p, size_t z, size_t n, void* f) { size_t k = 0; while (k < z * n) { int c = cfgetc(f); if (c < 0) break; ((char*)p)[k++] = (char)c; } return z ? k / z : 0; }
int cfeof(void*) asm("feof"); int cfeof(void* f) { return CF(f)->eof; }
int cferror(void*) asm("ferror"); int cferror(void* f) { return CF(f)->err; }
int cfseek(void*, long, int) asm("fseek"); int cfseek(void* f, long o, int w) { CF(f)->pos = w == 0 ? o : w == 1 ? CF(f)->pos + o : lce_fs_size(CF(f)->h) + o; CF(f)->eof = 0; return 0; }
long cftell(void*) asm("ftell"); long cftell(void* f) { return CF(f)->mode == 1 ? CF(f)->pos : lce_fs_size(CF(f)->h); }
void crewind(void*) asm("rewind"); void crewind(void* f) { CF(f)->pos = 0; CF(f)->eof = CF(f)->err = 0; }
int cvfprintf(void*, const char*, va_list) asm("vfprintf"); int cvfprintf(void* f, const char* m, va_list a) { char b[4096]; int n = vsnprintf(b, sizeof b, m, a); if (f == 0) return n; cfwrite(b, 1, n, f); return n; }
int cfprintf(void*, const char*, ...) asm("fprintf"); int cfprintf(void* f, const char* m, ...) { va_list a; va_start(a, m); int n = cvfprintf(f, m, a); va_end(a); return n; }
static LceCFile cOut; void* cstdout asm("stdout") = 0; void* cstderr asm("stderr") = 0;
int clock_gettime(clockid_t, struct timespec*) throw();
}
std::chrono::steady_clock::time_point stnow() asm("_ZNSt6chrono3_V212steady_clock3nowEv"); std::chrono::steady_clock::time_point stnow() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(t.tv_sec * 1000000000l + t.tv_nsec)); }
std::chrono::system_clock::time_point synow() asm("_ZNSt6chrono3_V212system_clock3nowEv"); std::chrono::system_clock::time_point synow() { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); return std::chrono::system_clock::time_point(std::chrono::nanoseconds(t.tv_sec * 1000000000l + t.tv_nsec)); }
// std::call_once
namespace std { __thread void* __once_callable; __thread void (*__once_call)(); }
extern "C" void __once_proxy() { std::__once_call(); }
extern "C" int pthread_once(pthread_once_t* o, void (*f)()) { // 0 not yet, 1 running, 2 done
  static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t c = PTHREAD_COND_INITIALIZER;
  pthread_mutex_lock(&m); while (*o == 1) pthread_cond_wait(&c, &m); if (*o == 2) { pthread_mutex_unlock(&m); return 0; } *o = 1; pthread_mutex_unlock(&m);
  try { f(); } catch (...) { pthread_mutex_lock(&m); *o = 0; pthread_cond_broadcast(&c); pthread_mutex_unlock(&m); throw; }
  pthread_mutex_lock(&m); *o = 2; pthread_cond_broadcast(&c); pthread_mutex_unlock(&m); return 0;
}
#include "stdthreads.h"
