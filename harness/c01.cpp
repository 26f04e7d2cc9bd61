#include "h.h"
#include "podio/CollectionIDTable.h"
#include "podio/Frame.h"
#include "podio/UserDataCollection.h"
#include "vmodel/HitCollection.h"
#include "vmodel/HitHitLinkCollection.h"
using namespace h;
using podio::CollectionIDTable;

// independent reference implementation
static uint32_t rotl(uint32_t x, int r) { return (x << r) | (x >> (32 - r)); }
static uint32_t mmref(const std::string& s, uint32_t seed = 0) {
  uint32_t hh = seed;
  size_t n = s.size();
  auto b = [&](size_t i) { return uint32_t((unsigned char)s[i]); };
  for (size_t i = 0; i + 4 <= n; i += 4) {
    uint32_t k = b(i) | b(i + 1) << 8 | b(i + 2) << 16 | b(i + 3) << 24;
    k = rotl(k * 0xcc9e2d51u, 15) * 0x1b873593u;
    hh = rotl(hh ^ k, 13) * 5 + 0xe6546b64u;
  }
  uint32_t k = 0;
  for (size_t i = n & 3; i > 0; --i)
    k = k << 8 | b((n & ~size_t(3)) + i - 1);
  if (n & 3)
    hh ^= rotl(k * 0xcc9e2d51u, 15) * 0x1b873593u;
  hh ^= uint32_t(n);
  hh ^= hh >> 16;
  hh *= 0x85ebca6bu;
  hh ^= hh >> 13;
  hh *= 0xc2b2ae35u;
  return hh ^ (hh >> 16);
}
static void lengths(Rng& r) {
  for (int n = 0; n < 300; ++n) {
    std::string s;
    for (int i = 0; i < n; ++i)
      s += char(r(256));
    CollectionIDTable t;
    auto id = t.add(s);
    CHECK("hash-of-name", id == mmref(s), "length ", n, " got ", id, " expected ", mmref(s));
  }
  log("lengths 0..299");
}
static void history(Rng& r) {
  CollectionIDTable t;
  int k = 1 + r(30);
  std::unordered_set<uint32_t> used;
  for (int i = 0; i < k; ++i) {
    auto s = rstr(r, r.flip(4) ? 200 : 12);
    log("add(", esc(s), ")");
    auto id = t.add(s);
    CHECK("hash-of-name", id == mmref(s), "got ", id, " expected ", mmref(s));
    CHECK("hash-of-name", t.collectionID(s) == id, "lookup");
  }
}
static void frames(Rng& r) {
  podio::Frame f;
  int k = 1 + r(8);
  std::set<std::string> seen;
  for (int i = 0; i < k; ++i) {
    auto s = r.flip(5) ? rstr(r, 100) : rstr(r, 8);
    if (!seen.insert(s).second)
      continue;
    log("put ", esc(s));
    uint32_t got;
    switch (r(3)) {
    case 0: {
      HitCollection c;
      c.create();
      if (r.flip())
        c.setID(77); // an ID from elsewhere must not survive
      got = f.put(std::move(c), s).getID();
      break;
    }
    case 1: {
      podio::UserDataCollection<int> c;
      got = f.put(std::move(c), s).getID();
      break;
    }
    default: {
      auto c = std::make_unique<HitHitLinkCollection>();
      f.put(std::unique_ptr<podio::CollectionBase>(std::move(c)), s);
      got = f.get(s)->getID();
    }
    }
    CHECK("frame-id", got == mmref(s), "got ", got, " expected ", mmref(s));
    CHECK("frame-id", f.get(s)->getID() == mmref(s));
  }
}
int main(int argc, char** argv) { return run(argc, argv, {{"lengths", 4, lengths}, {"history", 150, history}, {"frames", 80, frames}}); }
