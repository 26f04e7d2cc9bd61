// the collection types of the harnesses for C09, C10 and C15
#pragma once
#include "h.h"
#include "vmodel/ClusterCollection.h"
#include "vmodel/HitClusterLinkCollection.h"
#include "vmodel/HitCollection.h"
#include "vmodel/InfoCollection.h"
#include "vmodel/PartCollection.h"
#include <list>
#include <optional>
using namespace h;
struct HitT {
  using C = HitCollection;
  using T = Hit;
  using M = MutableHit;
  static constexpr const char* name = "Hit";
  static void set(M m, int v) { m.energy(v); m.cellID(v); }
  template <typename X> static int get(const X& x) { return x.cellID() == (unsigned long long)x.energy() ? int(x.energy()) : -7; }
  static M make(C& c, int v) { return c.create((unsigned long long)v, double(v)); }
  static std::vector<double> all(const C& c, size_t n) { return c.energy(n); }
};
struct ClusterT {
  using C = ClusterCollection;
  using T = Cluster;
  using M = MutableCluster;
  static constexpr const char* name = "Cluster";
  static void set(M m, int v) { m.energy(v); }
  template <typename X> static int get(const X& x) { return int(x.energy()); }
  static M make(C& c, int v) { return c.create(double(v)); }
  static std::vector<double> all(const C& c, size_t n) { return c.energy(n); }
};
struct PartT {
  using C = ns::PartCollection;
  using T = ns::Part;
  using M = ns::MutablePart;
  static constexpr const char* name = "Part";
  static void set(M m, int v) { m.energy(v); m.pdg(2 * v); m.addw(v); }
  template <typename X> static int get(const X& x) { return x.pdg() == 2 * int(x.energy()) && (x.w_size() == 0 || x.w(x.w_size() - 1) == x.energy()) ? int(x.energy()) : -7; }
  static M make(C& c, int v) { return c.create(double(v), 2 * v); }
  static std::vector<double> all(const C& c, size_t n) { return c.energy(n); }
};
struct InfoT {
  using C = InfoCollection;
  using T = Info;
  using M = MutableInfo;
  static constexpr const char* name = "Info";
  static void set(M m, int v) { m.energy(v); m.number(v); }
  template <typename X> static int get(const X& x) { return x.number() == int(x.energy()) ? x.number() : -7; }
  static M make(C& c, int v) { return c.create(v, std::uint64_t(3), Vec3{}, double(v)); }
  static std::vector<double> all(const C& c, size_t n) { return c.energy(n); }
};
struct LinkT {
  using C = HitClusterLinkCollection;
  using T = HitClusterLink;
  using M = MutableHitClusterLink;
  static constexpr const char* name = "link";
  static void set(M m, int v) { m.setWeight(v); }
  template <typename X> static int get(const X& x) { return int(x.getWeight()); }
  static M make(C& c, int v) { auto m = c.create(); m.setWeight(v); return m; }
  static std::vector<double> all(const C& c, size_t n) {
    std::vector<double> r;
    for (size_t i = 0; i < c.size() && (!n || i < n); ++i)
      r.push_back(c[i].getWeight());
    return r;
  }
};
// every way of looking at collection c shows the objects with the given handles and values
template <typename K> static void looks(typename K::C& c, const std::vector<std::pair<typename K::M, int>>& want, const char* what) {
  const auto& k = c;
  CHECK("size", c.size() == want.size() && k.empty() == want.empty() && static_cast<podio::CollectionBase&>(c).size() == want.size(), what, ": ", c.size(), " objects, expected ", want.size());
  for (size_t i = 0; i < want.size(); ++i) {
    CHECK("position", k[i] == want[i].first && c[i] == want[i].first && k.at(i) == want[i].first && c.at(i) == want[i].first, what, " object at ", i);
    CHECK("contents", K::get(k[i]) == want[i].second && K::get(c[i]) == want[i].second, what, " object at ", i, " is ", K::get(k[i]), ", expected ", want[i].second);
  }
  for (size_t j : {want.size(), want.size() + 1, size_t(-1), size_t(1) << 31}) {
    if (j < want.size())
      continue;
    THROWS("at", c.at(j));
    THROWS("at", k.at(j));
  }
}
