// C07: STX/ETX framed and raw package filters
#include "hcommon.h"
#include <arpa/inet.h>
#include "CPackageFilter.h"
#include "CH2T3PackageFilter.h"
#include "CH2ShortT3PackageFilter.h"
#include "CRawPackageFilter.h"
using namespace lce;
#if SHORTF
typedef CH2ShortT3PackageFilter F; enum { L = 2, OH = 4 };
#else
typedef CH2T3PackageFilter F; enum { L = 4, OH = 6 };
#endif
static uint32_t be(const unsigned char* p) { uint32_t v = 0; for (int i = 0; i < L; i++) v = v << 8 | p[i]; return v; }
static void put(unsigned char* p, uint32_t v) { for (int i = L - 1; i >= 0; i--) { p[i] = v & 255; v >>= 8; } }

#if HT == 1   // arbitrary bytes: verdict equals an independent reading of the frame format, nothing read outside the chunk
void harness() {
  int n = sym_choice(N + 1, "n"); Exact b(n); unsigned char* p = (unsigned char*)b.p; sym_bytes(p, n, "b");
  F f; int real = -7, pkg = -7; int r = f.isWholePkg(b.p, n, real, pkg);
  if (n == 0) { CHECK(r == -1, "empty chunk is incomplete"); return; }
  if (p[0] != 2) { CHECK(r == -2, "wrong start mark must be rejected"); sym_reach("badmark"); return; }
  if (n < 1 + L) { CHECK(r == -1, "start mark only: must wait for more"); sym_reach("short"); return; }
  if (n < OH) { CHECK(r == -1 || (be(p + 1) < OH && r == -2), "header incomplete: must wait for more"); return; }
  uint32_t len = be(p + 1);
  if (L == 4 && len > 0x7fffffffu) { CHECK(r == -2, "length beyond INT_MAX must be rejected"); sym_reach("huge"); return; }
  if (len < OH) { CHECK(r == -2, "length below the envelope must be rejected"); sym_reach("tiny"); return; }
  if (len > (uint32_t)n) { CHECK(r == -1, "incomplete frame must wait for more"); sym_reach("partial"); return; }
  if (p[len - 1] != 3) { CHECK(r == -2, "wrong end mark must be rejected"); sym_reach("badtail"); return; }
  CHECK(r == 0, "complete frame must be accepted"); CHECK(pkg == (int)len, "frame length"); CHECK(real == (int)len - OH, "payload length");
  CHECK(f.getRealPkgData(b.p, pkg) == b.p + 1 + L, "payload position"); sym_reach("ok");
}
#elif HT == 2 // a stream of K framed messages, cut into arbitrary chunks, comes back message by message
void harness() {
  std::string pay[K], stream;
  for (int i = 0; i < K; i++) {
    int n = sym_choice(M + 1, "paylen"); pay[i] = sym_string(n, "pay");
    unsigned char h[8]; h[0] = 2; put(h + 1, n + OH); stream.append((char*)h, 1 + L); stream += pay[i]; stream += '\x03';
  }
  F f; size_t fed = 0; int got = 0; std::string acc;
  for (int step = 0; step < CUTS + 1; step++) {
    size_t upto = step == CUTS ? stream.size() : fed + sym_choice(stream.size() - fed + 1, "cut");
    acc.append(stream, fed, upto - fed); fed = upto;
    for (;;) {
      Exact e(acc.size()); memcpy(e.p, acc.data(), acc.size());
      int real = 0, pkg = 0, r = f.isWholePkg(e.p, acc.size(), real, pkg);
      CHECK(r != -2, "well-formed stream must never be rejected");
      if (r != 0) break;
      CHECK(got < K, "more messages than were sent"); if (got >= K) return;
      CHECK(real == (int)pay[got].size(), "message length"); if (real != (int)pay[got].size()) return;
      CHECK(bytes_eq(f.getRealPkgData(e.p, pkg), pay[got].data(), real), "message bytes");
      CHECK(pkg > 0 && pkg <= (int)acc.size(), "consumed length"); acc.erase(0, pkg); got++;
    }
  }
  CHECK(got == K && acc.empty(), "every message delivered exactly once"); sym_reach("all");
}
#elif HT == 3 // raw filter: every non-empty chunk is one message
void harness() {
  int n = sym_choice(N + 1, "n"); Exact b(n); sym_bytes(b.p, n, "b"); CRawPackageFilter f; int real = -7, pkg = -7;
  int r = f.isWholePkg(b.p, n, real, pkg);
  if (n == 0) { CHECK(r == -1, "empty chunk is incomplete"); return; }
  CHECK(r == 0 && real == n && pkg == n, "raw chunk is the message"); CHECK(f.getRealPkgData(b.p, n) == b.p, "raw payload position"); sym_reach("ok");
}
#elif HT == 4 // symbolic declared length, large frame: acceptance depends only on the frame, for every length up to BIG
void harness() {
  const int BIGN = BIG; Exact b(BIGN); unsigned char* p = (unsigned char*)b.p; sym_bytes(p, BIGN, "b"); p[0] = 2;
  uint32_t len = sym_range(OH, BIGN, "len"); put(p + 1, len); p[len - 1] = 3;
  F f; int real = 0, pkg = 0; int r = f.isWholePkg(b.p, BIGN, real, pkg); CHECK(r == 0 && pkg == (int)len && real == (int)len - OH, "frame of symbolic length accepted");
  int cut = (int)sym_range(1, BIGN - 1, "cut"); sym_assume(cut < (int)len);
  r = f.isWholePkg(b.p, cut, real, pkg); CHECK(r == -1, "every proper prefix waits"); sym_reach("ok");
}
#endif
