#include "h.h"
#include "podio/podioVersion.h"
#undef UINT64_C
#define UINT64_C(x) ((unsigned long)(x))   // the macro pastes a suffix to literals; this allows variables
using namespace h;
using podio::version::Version;
using T3 = std::array<unsigned, 3>;
template <unsigned long V> static Version dec() { return podio::version::decode_version(V); }
static uint64_t enc(unsigned a, unsigned b, unsigned c) { return PODIO_VERSION(a, b, c); }
static void cmp(Rng& r) {
  static const unsigned edge[] = {0, 1, 2, 9, 10, 127, 128, 255, 256, 32767, 32768, 65534, 65535};
  auto part = [&]() { return r.flip(3) ? unsigned(r(65536)) : edge[r(13)]; };
  T3 a{part(), part(), part()}, b{part(), part(), part()};
  for (int i = 0; i < 3; ++i)
    if (r.flip())
      b[i] = a[i];
  log("compare ", a[0], ".", a[1], ".", a[2], " with ", b[0], ".", b[1], ".", b[2]);
  Version x{uint16_t(a[0]), uint16_t(a[1]), uint16_t(a[2])}, y{uint16_t(b[0]), uint16_t(b[1]), uint16_t(b[2])};
  CHECK("order", (x < y) == (a < b), "<");
  CHECK("order", (x <= y) == (a <= b), "<=");
  CHECK("order", (x > y) == (a > b), ">");
  CHECK("order", (x >= y) == (a >= b), ">=");
  CHECK("order", (x == y) == (a == b), "==");
  CHECK("order", (x != y) == (a != b), "!=");
  auto e = enc(a[0], a[1], a[2]), f = enc(b[0], b[1], b[2]);
  CHECK("encoded-order", (e < f) == (a < b) && (e == f) == (a == b));
  CHECK("round-trip", PODIO_MAJOR_VERSION(e) == a[0] && PODIO_MINOR_VERSION(e) == a[1] && PODIO_PATCH_VERSION(e) == a[2], " got ", PODIO_MAJOR_VERSION(e), ".", PODIO_MINOR_VERSION(e), ".", PODIO_PATCH_VERSION(e));
  CHECK("text", std::string(x) == cat(a[0], ".", a[1], ".", a[2]), std::string(x));
}
#define RT(a, b, c)                                                                                                    \
  do {                                                                                                                 \
    constexpr auto v = podio::version::decode_version(PODIO_VERSION(a, b, c));                                         \
    log("decode " #a "." #b "." #c);                                                                                   \
    CHECK("round-trip", v.major == a && v.minor == b && v.patch == c, v.major, ".", v.minor, ".", v.patch);            \
  } while (0)
static void decode(Rng&) {
  RT(0, 0, 0); RT(1, 2, 3); RT(65535, 0, 0); RT(0, 65535, 0); RT(0, 0, 65535); RT(65535, 65535, 65535); RT(256, 255, 128);
  RT(32768, 1, 32768); RT(0, 0, 1); RT(0, 1, 0); RT(1, 0, 0); RT(1, 7, 99); RT(0, 16, 7); RT(4660, 22136, 39612); RT(43981, 61185, 8704);
  auto b = podio::version::build_version;
  CHECK("build", b == podio::version::decode_version(PODIO_BUILD_VERSION));
  CHECK("build", PODIO_BUILD_VERSION == enc(b.major, b.minor, b.patch));
}
int main(int argc, char** argv) { return run(argc, argv, {{"decode", 1, decode}, {"compare", 4000, cmp}}); }
