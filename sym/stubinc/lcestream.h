// Symbolic build only: iostreams over plain strings and an in-memory file system (same observable behaviour for the uses in the project).
#pragma once
#include <iosfwd>
#define _STREAMBUF_ITERATOR_H 1
#include <string>
#include <stdio.h>
#include <string.h>
#include <ctime>
#include <cstdlib>
#include <cerrno>
#include <cctype>
#include <exception>
#include <stdexcept>
#include <bits/stl_iterator_base_types.h>
extern "C" {
  int lce_fs_open(const char* name, int mode);              // 1 read, 2 truncate+write, 3 append; -1 on failure
  int lce_fs_put(int h, const char* p, size_t n);            // -1 on failure: nothing is written
  int lce_fs_get(int h, size_t pos);                        // next byte or -1
  long lce_fs_size(int h);
}
namespace std {
  class ios_base {
  public:
    typedef int openmode; typedef int fmtflags; typedef int iostate;
    static const openmode in = 8, out = 16, app = 1, trunc = 32, ate = 2, binary = 4;
    static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static const fmtflags hexf = 1, upperf = 2; 
    typedef int seekdir; static const seekdir beg = 0, cur = 1, end = 2;
    static const fmtflags fixed = 4, scientific = 8, dec = 16, boolalpha = 32, left = 64, right = 128, floatfield = 12, basefield = 17, hex = 1, uppercase = 2, skipws = 256, showbase = 512;
    int st_, base_, up_, w_, prec_, flt_, ba_, left_; char fill_;
    ios_base() : st_(0), base_(10), up_(0), w_(0), prec_(6), flt_(0), ba_(0), left_(0), fill_(' ') {}
    int precision(int p) { int o = prec_; prec_ = p; return o; } int precision() const { return prec_; }
    int flags() const { return (base_ == 16 ? 1 : 16) | (up_ ? 2 : 0) | flt_ | (ba_ ? 32 : 0) | (left_ ? 64 : 0); }
    int flags(int f) { int o = flags(); base_ = f & 1 ? 16 : 10; up_ = f & 2 ? 1 : 0; flt_ = f & 12; ba_ = f & 32 ? 1 : 0; left_ = f & 64 ? 1 : 0; return o; }
    int setf(int f) { return flags(flags() | f); } int setf(int f, int m) { int o = flags(); flags((o & ~m) | (f & m)); return o; } void unsetf(int f) { flags(flags() & ~f); }
    static bool sync_with_stdio(bool) { return true; }
    bool good() const { return st_ == 0; } bool eof() const { return st_ & eofbit; } bool fail() const { return st_ & (failbit | badbit); } bool bad() const { return st_ & badbit; }
    void clear(int s = 0) { st_ = s; } void setstate(int s) { st_ |= s; } int rdstate() const { return st_; }
    bool operator!() const { return fail(); } explicit operator bool() const { return !fail(); }
    int width(int w) { int o = w_; w_ = w; return o; }
  };
  template <> class basic_streambuf<char, char_traits<char>> { public: virtual ~basic_streambuf() {} virtual int sgetc() = 0; virtual int sbumpc() = 0; };
  template <> class basic_ios<char, char_traits<char>> : public ios_base { public: char fill(char c) { char o = fill_; fill_ = c; return o; } };
  template <> class basic_ostream<char, char_traits<char>> : public virtual ios {
  public:
    virtual ~basic_ostream() {}
    virtual void put_(const char* p, size_t n) = 0;
    void pad_(const char* p, size_t n) { if (left_) { put_(p, n); while ((size_t)w_ > n) { put_(&fill_, 1); w_--; } w_ = 0; return; } while ((size_t)w_ > n) { put_(&fill_, 1); w_--; } w_ = 0; put_(p, n); }
    basic_ostream& num_(const char* f, unsigned long long v) { char b[40]; int n = snprintf(b, sizeof b, f, v); pad_(b, n); return *this; }
    basic_ostream& i_(long long v, unsigned long long u) { return base_ == 16 ? num_(up_ ? "%llX" : "%llx", u) : num_("%lld", v); }
    basic_ostream& u_(unsigned long long u) { return base_ == 16 ? num_(up_ ? "%llX" : "%llx", u) : num_("%llu", u); }
    basic_ostream& operator<<(int v) { return i_(v, (unsigned)v); } basic_ostream& operator<<(unsigned v) { return u_(v); }
    basic_ostream& operator<<(long v) { return i_(v, (unsigned long)v); } basic_ostream& operator<<(unsigned long v) { return u_(v); }
    basic_ostream& operator<<(long long v) { return i_(v, v); } basic_ostream& operator<<(unsigned long long v) { return u_(v); }
    basic_ostream& operator<<(short v) { return i_(v, (unsigned short)v); } basic_ostream& operator<<(unsigned short v) { return u_(v); }
    basic_ostream& operator<<(bool v) { if (ba_) { pad_(v ? "true" : "false", v ? 4 : 5); return *this; } return i_(v, v); }
    basic_ostream& operator<<(double v) { char b[400]; int n = flt_ == 4 ? snprintf(b, sizeof b, "%.*f", prec_, v) : flt_ == 8 ? snprintf(b, sizeof b, "%.*e", prec_, v) : snprintf(b, sizeof b, "%.*g", prec_, v); pad_(b, n); return *this; }
    basic_ostream& operator<<(streambuf* sb) { int c; bool any = false; while ((c = sb->sbumpc()) >= 0) { char x = (char)c; put_(&x, 1); any = true; } if (!any) st_ |= failbit; return *this; }
    basic_ostream& operator<<(float v) { return *this << (double)v; }
    basic_ostream& operator<<(const void* v) { char b[40]; int n = snprintf(b, sizeof b, "%p", v); pad_(b, n); return *this; }
    basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
    basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    basic_ostream& write(const char* p, long n) { put_(p, n); return *this; }
    basic_ostream& put(char c) { put_(&c, 1); return *this; }
    virtual basic_ostream& flush() { return *this; }
  };
  inline ostream& operator<<(ostream& o, const string& s) { o.pad_(s.data(), s.size()); return o; }
  inline ostream& operator<<(ostream& o, const char* s) { o.pad_(s, strlen(s)); return o; }
  inline ostream& operator<<(ostream& o, char c) { o.pad_(&c, 1); return o; }
  inline ostream& operator<<(ostream& o, unsigned char c) { o.pad_((char*)&c, 1); return o; }
  inline ostream& operator<<(ostream& o, signed char c) { o.pad_((char*)&c, 1); return o; }
  inline ostream& endl(ostream& o) { o.put_("\n", 1); return o.flush(); }
  inline ostream& flush(ostream& o) { return o.flush(); }
  inline ios_base& hex(ios_base& b) { b.base_ = 16; return b; }
  inline ios_base& dec(ios_base& b) { b.base_ = 10; return b; }
  inline ios_base& uppercase(ios_base& b) { b.up_ = 1; return b; }
  inline ios_base& nouppercase(ios_base& b) { b.up_ = 0; return b; }
  inline ios_base& fixed(ios_base& b) { b.flt_ = 4; return b; }
  inline ios_base& scientific(ios_base& b) { b.flt_ = 8; return b; }
  inline ios_base& boolalpha(ios_base& b) { b.ba_ = 1; return b; }
  inline ios_base& noboolalpha(ios_base& b) { b.ba_ = 0; return b; }
  inline ios_base& left(ios_base& b) { b.left_ = 1; return b; }
  inline ios_base& right(ios_base& b) { b.left_ = 0; return b; }
  inline ios_base& noskipws(ios_base& b) { return b; }
  inline ios_base& skipws(ios_base& b) { return b; }
  struct SetP_ { int p; }; inline SetP_ setprecision(int p) { SetP_ s = {p}; return s; } inline ostream& operator<<(ostream& o, SetP_ s) { o.prec_ = s.p; return o; }
  inline ostream& ends(ostream& o) { o.put_("", 1); return o; }
  struct SetW_ { int w; }; struct SetF_ { char c; };
  inline SetW_ setw(int w) { SetW_ s = {w}; return s; } inline SetF_ setfill(char c) { SetF_ s = {c}; return s; }
  inline ostream& operator<<(ostream& o, SetW_ s) { o.w_ = s.w; return o; }
  inline ostream& operator<<(ostream& o, SetF_ s) { o.fill_ = s.c; return o; }
  template <> class basic_istream<char, char_traits<char>> : public virtual ios {
  public:
    virtual ~basic_istream() {}
    virtual int next_() = 0; virtual int look_() = 0;
    size_t gc_; struct SB_ : basic_streambuf<char, char_traits<char>> { basic_istream* i; int sgetc() { return i->look_(); } int sbumpc() { return i->next_(); } } sb_;
    streambuf* rdbuf() { sb_.i = this; return &sb_; } long gcount() const { return gc_; }
    virtual long seek_(long, int) { return -1; } virtual long tell_() { return -1; }
    basic_istream& seekg(long p, int w = 0) { st_ &= ~eofbit; if (!fail() && seek_(p, w) < 0) st_ |= failbit; return *this; } long tellg() { return fail() ? -1 : tell_(); }
    basic_istream& get(char& c) { int x = get(); if (x >= 0) c = (char)x; return *this; }
    basic_istream& read(char* b, long n) { gc_ = 0; if (st_) { st_ |= failbit; return *this; } int c; while ((long)gc_ < n && (c = next_()) >= 0) b[gc_++] = (char)c; if ((long)gc_ < n) st_ |= eofbit | failbit; return *this; }
    basic_istream& getline(char* b, long n, char d = '\n') { gc_ = 0; long k = 0; if (st_) { st_ |= failbit; if (n > 0) *b = 0; return *this; } int c; for (;;) { c = look_(); if (c < 0) { st_ |= eofbit; if (!gc_) st_ |= failbit; break; } if (c == (unsigned char)d) { next_(); gc_++; break; } if (k + 1 >= n) { st_ |= failbit; break; } next_(); gc_++; b[k++] = (char)c; } if (n > 0) b[k] = 0; return *this; }
    basic_istream& ignore(long n = 1, int d = -1) { int c; while (n-- > 0) { c = next_(); if (c < 0) { st_ |= eofbit; break; } if (c == d) break; } return *this; }
    basic_istream& operator>>(char& v) { int c; while ((c = next_()) >= 0 && (c == ' ' || (c >= 9 && c <= 13))) ; if (c < 0) st_ |= eofbit | failbit; else v = (char)c; return *this; }
    basic_istream& operator>>(short& v) { long x; int_(x); v = (short)x; return *this; } basic_istream& operator>>(unsigned short& v) { long x; int_(x); v = (unsigned short)x; return *this; }
    basic_istream& operator>>(double& v) { int c; while ((c = look_()) >= 0 && (c == ' ' || (c >= 9 && c <= 13))) next_(); string t; while ((c = look_()) >= 0 && ((c >= '0' && c <= '9') || c == '.' || c == '-' || c == '+' || c == 'e' || c == 'E')) { t += (char)c; next_(); } if (c < 0) st_ |= eofbit; char* e; v = strtod(t.c_str(), &e); if (t.empty() || *e) st_ |= failbit; return *this; }
    basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    int get() { int c = next_(); if (c < 0) st_ |= eofbit | failbit; return c; }
    int peek() { int c = look_(); if (c < 0) st_ |= eofbit; return c; }
    basic_istream& operator>>(string& s) { s.clear(); int c; while ((c = look_()) >= 0 && (c == ' ' || (c >= 9 && c <= 13))) next_(); while ((c = look_()) >= 0 && !(c == ' ' || (c >= 9 && c <= 13))) { s += (char)c; next_(); } if (c < 0) st_ |= eofbit; if (s.empty()) st_ |= failbit; return *this; }
    template <class I> basic_istream& int_(I& v) { int c; while ((c = look_()) >= 0 && (c == ' ' || (c >= 9 && c <= 13))) next_(); bool neg = false, any = false; if (c == '-') { neg = true; next_(); } else if (c == '+') next_(); unsigned long long r = 0; while ((c = look_()) >= '0' && c <= '9') { r = r * 10 + (c - '0'); any = true; next_(); } if (c < 0) st_ |= eofbit; if (!any) { st_ |= failbit; v = 0; } else v = (I)(neg ? -r : r); return *this; }
    basic_istream& operator>>(int& v) { return int_(v); } basic_istream& operator>>(unsigned& v) { return int_(v); } basic_istream& operator>>(long& v) { return int_(v); } basic_istream& operator>>(unsigned long& v) { return int_(v); } basic_istream& operator>>(long long& v) { return int_(v); } basic_istream& operator>>(unsigned long long& v) { return int_(v); }
  };
  inline istream& ws(istream& i) { int c; while ((c = i.look_()) >= 0 && (c == ' ' || (c >= 9 && c <= 13))) i.next_(); return i; }
  // stream buffer iterators
  template <> class istreambuf_iterator<char, char_traits<char>> { streambuf* s_; public: typedef input_iterator_tag iterator_category; typedef char value_type; typedef long difference_type; typedef char* pointer; typedef char reference;
    istreambuf_iterator() : s_(0) {} istreambuf_iterator(istream& i) : s_(i.rdbuf()) {} istreambuf_iterator(streambuf* s) : s_(s) {} char operator*() const { return (char)s_->sgetc(); } istreambuf_iterator& operator++() { s_->sbumpc(); return *this; } struct P_ { char c; char operator*() const { return c; } }; P_ operator++(int) { P_ p = {**this}; s_->sbumpc(); return p; }
    bool end_() const { return !s_ || s_->sgetc() < 0; } bool equal(const istreambuf_iterator& o) const { return end_() == o.end_(); } };
  inline bool operator==(const istreambuf_iterator<char, char_traits<char>>& a, const istreambuf_iterator<char, char_traits<char>>& b) { return a.equal(b); } inline bool operator!=(const istreambuf_iterator<char, char_traits<char>>& a, const istreambuf_iterator<char, char_traits<char>>& b) { return !a.equal(b); }
  template <> class ostreambuf_iterator<char, char_traits<char>> { ostream* o_; public: typedef output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference; ostreambuf_iterator(ostream& o) : o_(&o) {} ostreambuf_iterator& operator=(char c) { o_->put_(&c, 1); return *this; } ostreambuf_iterator& operator*() { return *this; } ostreambuf_iterator& operator++() { return *this; } ostreambuf_iterator& operator++(int) { return *this; } };
  inline istream& getline(istream& i, string& s, char d) { s.clear(); if (i.st_) { i.st_ |= ios_base::failbit; return i; } int c; bool any = false; while ((c = i.next_()) >= 0) { any = true; if (c == (unsigned char)d) break; s += (char)c; } if (c < 0) { i.st_ |= ios_base::eofbit; if (!any) i.st_ |= ios_base::failbit; } return i; }
  inline istream& getline(istream& i, string& s) { return getline(i, s, '\n'); }
  template <> class basic_ostringstream<char, char_traits<char>, allocator<char>> : public ostream { string s_; public: basic_ostringstream() {} void put_(const char* p, size_t n) { s_.append(p, n); } string str() const { return s_; } void str(const string& s) { s_ = s; } };
  template <> class basic_istringstream<char, char_traits<char>, allocator<char>> : public istream { string s_; size_t p_; public: basic_istringstream(const string& s = "") : s_(s), p_(0) {} void str(const string& s) { s_ = s; p_ = 0; } long tell_() { return p_; } long seek_(long o, int w) { p_ = w == 0 ? o : w == 1 ? p_ + o : s_.size() + o; return p_; } int next_() { return p_ < s_.size() ? (unsigned char)s_[p_++] : -1; } int look_() { return p_ < s_.size() ? (unsigned char)s_[p_] : -1; } string str() const { return s_; } };
  template <> class basic_iostream<char, char_traits<char>> : public istream, public ostream {};
  template <> class basic_stringstream<char, char_traits<char>, allocator<char>> : public iostream { string s_; size_t p_; public: basic_stringstream() : p_(0) {} basic_stringstream(const string& s) : s_(s), p_(0) {} void put_(const char* p, size_t n) { s_.append(p, n); } int next_() { return p_ < s_.size() ? (unsigned char)s_[p_++] : -1; } int look_() { return p_ < s_.size() ? (unsigned char)s_[p_] : -1; } string str() const { return s_; } void str(const string& s) { s_ = s; p_ = 0; } };
  template <> class basic_ofstream<char, char_traits<char>> : public ostream {
    int h_; public: basic_ofstream() : h_(-1) {} basic_ofstream(const char* n, int m = out) : h_(-1) { open(n, m); } basic_ofstream(const string& n, int m = out) : h_(-1) { open(n.c_str(), m); }
    void open(const char* n, int m = out) { if (h_ >= 0) { st_ |= failbit; return; } h_ = lce_fs_open(n, m & app ? 3 : 2); if (h_ < 0) st_ |= failbit; else st_ = 0; }
    void open(const string& n, int m = out) { open(n.c_str(), m); }
    string b_; // what is written reaches the file at flush, close, destruction or when the buffer is full
    bool sync_() { if (h_ < 0 || b_.empty()) return true; if (lce_fs_put(h_, b_.data(), b_.size()) < 0) return false; b_.clear(); return true; } // after a failure the bytes stay pending until close
    basic_ostream& flush() { if (!fail() && !sync_()) st_ |= badbit; return *this; }
    ~basic_ofstream() { sync_(); }
    bool is_open() const { return h_ >= 0; } void close() { if (h_ < 0 || !sync_()) st_ |= failbit; h_ = -1; b_.clear(); }
    void put_(const char* p, size_t n) { if (st_ & (badbit | failbit)) return; if (h_ < 0) { st_ |= badbit; return; } b_.append(p, n); if (b_.size() >= 8191 && !sync_()) st_ |= badbit; }
    long tellp() { flush(); return h_ < 0 ? -1 : lce_fs_size(h_); }
  };
  template <> class basic_ifstream<char, char_traits<char>> : public istream {
    int h_; size_t p_; public: basic_ifstream() : h_(-1), p_(0) {} basic_ifstream(const char* n, int m = in) : h_(-1), p_(0) { open(n, m); } basic_ifstream(const string& n, int m = in) : h_(-1), p_(0) { open(n.c_str(), m); }
    void open(const char* n, int m = in) { if (h_ >= 0) { st_ |= failbit; return; } h_ = lce_fs_open(n, 1); p_ = m & ate && h_ >= 0 ? lce_fs_size(h_) : 0; if (h_ < 0) st_ |= failbit; else st_ = 0; }
    void open(const string& n, int m = in) { open(n.c_str(), m); }
    bool is_open() const { return h_ >= 0; } void close() { if (h_ < 0) st_ |= failbit; h_ = -1; } long tell_() { return h_ < 0 ? -1 : (long)p_; } long seek_(long o, int w) { if (h_ < 0) return -1; p_ = w == 0 ? o : w == 1 ? p_ + o : lce_fs_size(h_) + o; return p_; }
    int next_() { int c = h_ < 0 ? -1 : lce_fs_get(h_, p_); if (c >= 0) p_++; return c; } int look_() { return h_ < 0 ? -1 : lce_fs_get(h_, p_); }
  };
  struct NullOut_ : public ostream { void put_(const char*, size_t) {} };
  static NullOut_ cout, cerr, clog;
}
