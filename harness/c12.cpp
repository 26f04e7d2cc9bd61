#define H_COUNT_ALLOC
#include "event.h"
using namespace h;
// members and relations against a plain record of what was set
struct HitM {
  unsigned long long cellID = 0;
  double energy = 1.5;
  double p[3] = {0, 0, 0}, q[3] = {0, 0, 0};
  int arr[3] = {0, 0, 0};
  int s = 7;
  int codes[4] = {0, 0, 0, 0};
  float weight = 0;
  bool flag = false;
  std::vector<int> counts;
  std::vector<Vec3> points;
};
static bool same(const Vec3& v, const double* p) { return v.x == p[0] && v.y == p[1] && v.z == p[2]; }
static bool same(const Vec3& a, const Vec3& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
// a sequence relation: size, indexed access, iteration range and iterators show the wanted elements
#define SEQUENCE(x, name, want, eq)                                                                                    \
  do {                                                                                                                 \
    CHECK(#name "-size", x.name##_size() == want.size(), x.name##_size(), " instead of ", want.size());                \
    for (size_t i_ = 0; i_ < want.size(); ++i_)                                                                        \
      CHECK(#name "-index", eq(x.name(i_), want[i_]), "element ", i_);                                                 \
    size_t n_ = 0;                                                                                                     \
    for (const auto& y_ : x.name()) {                                                                                  \
      CHECK(#name "-range", n_ < want.size() && eq(y_, want[n_]), "element ", n_);                                     \
      ++n_;                                                                                                            \
    }                                                                                                                  \
    CHECK(#name "-range", n_ == want.size() && x.name().size() == want.size() && x.name().empty() == want.empty(), n_); \
    for (size_t i_ = 0; i_ < want.size(); ++i_)                                                                        \
      CHECK(#name "-range-index", eq(x.name()[i_], want[i_]) && eq(x.name().at(i_), want[i_]), "element ", i_);        \
    THROWS(#name "-range-at", x.name().at(want.size()));                                                               \
    n_ = 0;                                                                                                            \
    for (auto it_ = x.name##_begin(); it_ != x.name##_end(); ++it_, ++n_)                                              \
      CHECK(#name "-iterators", n_ < want.size() && eq(*it_, want[n_]), "element ", n_);                               \
    CHECK(#name "-iterators", n_ == want.size(), n_);                                                                  \
    for (size_t j_ : {want.size(), want.size() + 1, size_t(1) << 32, size_t(-1)})                                      \
      THROWS(#name "-beyond", x.name(j_));                                                                             \
  } while (0)
static bool eqi(int a, int b) { return a == b; }
static bool eqd(double a, double b) { return a == b; }
static bool eqv(const Vec3& a, const Vec3& b) { return same(a, b); }
template <typename A> static bool eqh(const A& a, const A& b) { return a == b; }
template <typename X> static void check(const X& x, const HitM& w) {
  CHECK("cellID", x.cellID() == w.cellID, x.cellID());
  CHECK("energy", x.energy() == w.energy, x.energy());
  CHECK("position", same(x.position(), w.p), str(x.position()));
  CHECK("x", x.x() == w.p[0] && x.y() == w.p[1] && x.z() == w.p[2], x.x(), " ", x.y(), " ", x.z());
  CHECK("comp", same(x.comp().pos, w.q) && x.comp().s == w.s, str(x.comp().pos), " ", x.comp().s);
  CHECK("pos", same(x.pos(), w.q) && x.s() == w.s, str(x.pos()), " ", x.s());
  for (int i = 0; i < 3; ++i)
    CHECK("arr", x.arr()[i] == w.arr[i] && x.comp().arr[i] == w.arr[i], i);
  for (int i = 0; i < 4; ++i)
    CHECK("codes", x.codes(i) == w.codes[i] && x.codes()[i] == w.codes[i], i);
  THROWS("codes-beyond", x.codes(4));
  THROWS("codes-beyond", x.codes(size_t(-1)));
  CHECK("weight", x.weight() == w.weight, x.weight());
  CHECK("flag", x.flag() == w.flag, x.flag());
  SEQUENCE(x, counts, w.counts, eqi);
  SEQUENCE(x, points, w.points, eqv);
}
static void hits(Rng& r) {
  long before = live();
  {
    HitCollection coll;
    std::vector<MutableHit> x;
    std::vector<HitM> w;
    auto add = [&] {
      int k = r(4);
      HitM m;
      if (k == 0)
        x.emplace_back();
      else if (k == 1)
        x.push_back(coll.create());
      else {
        m.cellID = r.next(), m.energy = r.real(), m.weight = float(r(100)), m.flag = r.flip();
        auto p = rvec(r), q = rvec(r);
        m.p[0] = p.x, m.p[1] = p.y, m.p[2] = p.z, m.q[0] = q.x, m.q[1] = q.y, m.q[2] = q.z;
        m.s = int16_t(r(60000) - 30000);
        for (auto& y : m.arr)
          y = int(r.next());
        for (auto& y : m.codes)
          y = int(r.next());
        Comp c;
        c.pos = q, c.s = m.s, c.arr = {m.arr[0], m.arr[1], m.arr[2]};
        std::array<int, 4> co{m.codes[0], m.codes[1], m.codes[2], m.codes[3]};
        if (k == 2)
          x.emplace_back(m.cellID, m.energy, p, c, co, m.weight, m.flag);
        else
          x.push_back(coll.create(m.cellID, m.energy, p, c, co, m.weight, m.flag));
      }
      w.push_back(m);
      log("object ", x.size() - 1, " made in way ", k);
    };
    add();
    add();
    int steps = 3 + r(30);
    for (int st = 0; st < steps; ++st) {
      int i = r(x.size()), k = r(24), j = r(4);
      auto& o = x[i];
      auto& m = w[i];
      double d = r.real();
      int n = int(r.next());
      log("object ", i, " operation ", k, " ", j);
      Vec3 v = rvec(r);
      switch (k) {
      case 0: o.cellID(m.cellID = r.next()); break;
      case 1: o.cellID() = m.cellID = r.next(); break;
      case 2: o.energy(m.energy = d); break;
      case 3: o.energy() = m.energy = d; break;
      case 4: o.position(v); m.p[0] = v.x, m.p[1] = v.y, m.p[2] = v.z; break;
      case 5: o.position() = v; m.p[0] = v.x, m.p[1] = v.y, m.p[2] = v.z; break;
      case 6: j %= 3; j == 0 ? o.x(d) : j == 1 ? o.y(d) : o.z(d); m.p[j] = d; break;
      case 7: o.pos(v); m.q[0] = v.x, m.q[1] = v.y, m.q[2] = v.z; break;
      case 8: o.pos().y = m.q[1] = d; break;
      case 9: o.s(m.s = int16_t(n)); break;
      case 10: o.arr({n, n + 1, 3}); m.arr[0] = n, m.arr[1] = n + 1, m.arr[2] = 3; break;
      case 11: o.arr()[j % 3] = m.arr[j % 3] = n; break;
      case 12: {
        Comp c;
        c.pos = v, c.s = int16_t(n), c.arr = {n, 2, 3};
        o.comp(c);
        m.q[0] = v.x, m.q[1] = v.y, m.q[2] = v.z, m.s = int16_t(n), m.arr[0] = n, m.arr[1] = 2, m.arr[2] = 3;
        break;
      }
      case 13: o.comp().s = int16_t(n); m.s = int16_t(n); break;
      case 14: o.codes(j, m.codes[j] = n); break;
      case 15: o.codes()[j] = m.codes[j] = n; break;
      case 16: o.codes({1, n, 3, 4}); m.codes[0] = 1, m.codes[1] = n, m.codes[2] = 3, m.codes[3] = 4; break;
      case 17: o.weight(m.weight = float(d)); break;
      case 18: o.flag(m.flag = r.flip()); break;
      case 19: o.flag() = m.flag = r.flip(); break;
      case 20: THROWS("set-codes-beyond", o.codes(4 + j, 1)); break;
      case 21: case 22: o.addcounts(n); m.counts.push_back(n); break;
      case 23: o.addpoints(v); m.points.push_back(v); break;
      }
      if (x.size() < 5 && r.flip(5))
        add();
      for (size_t y = 0; y < x.size(); ++y) {
        check(x[y], w[y]);
        check(Hit(x[y]), w[y]);
      }
    }
    for (int i = 0; i < int(coll.size()); ++i)
      CHECK("in-collection", Hit(coll[i]) == std::as_const(coll)[i], i);
  }
  CHECK("leak", live() <= before + 1, live() - before);
}
struct ClusterM {
  double energy = 0;
  int main = -1, parent = -1;
  std::vector<Hit> hits;
  std::vector<Cluster> clusters;
};
static void clusters(Rng& r) {
  long before = live();
  {
    HitCollection hc;
    ClusterCollection cc;
    std::vector<MutableHit> hs;
    for (int i = 0; i < 4; ++i) {
      if (i % 2) {
        hs.emplace_back();
        hs.back().energy(i);
      } else {
        hs.push_back(hc.create());
        hs.back().energy(i);
      }
    }
    std::vector<MutableCluster> x;
    std::vector<ClusterM> w;
    auto add = [&] {
      ClusterM m;
      int k = r(4);
      log("cluster ", x.size(), " made in way ", k);
      m.energy = k < 2 ? 0 : r.real();
      if (k == 0)
        x.emplace_back();
      else if (k == 1)
        x.push_back(cc.create());
      else if (k == 2)
        x.emplace_back(m.energy);
      else
        x.push_back(cc.create(m.energy));
      w.push_back(m);
    };
    for (int i = 0; i < 3; ++i)
      add();
    auto look = [&](const auto& c, const ClusterM& m) {
      CHECK("energy", c.energy() == m.energy, c.energy());
      auto h = c.mainHit();
      CHECK("one-to-one", h.isAvailable() == (m.main >= 0) && (m.main < 0 || h == hs[m.main]), "mainHit");
      auto p = c.parent();
      CHECK("one-to-one", p.isAvailable() == (m.parent >= 0) && (m.parent < 0 || p == x[m.parent]), "parent");
      SEQUENCE(c, hits, m.hits, eqh);
      SEQUENCE(c, clusters, m.clusters, eqh);
    };
    int steps = 3 + r(25);
    for (int st = 0; st < steps; ++st) {
      int i = r(x.size()), j = r(x.size()), k = r(8), y = r(hs.size());
      auto& m = w[i];
      log("cluster ", i, " operation ", k, " with cluster ", j, " or hit ", y);
      // cycles of free objects would keep each other alive: relations go to collection members or earlier free ones
      bool ok = j < i;
      if (k == 0)
        x[i].energy(m.energy = r.real());
      else if (k == 1)
        x[i].energy() = m.energy = r.real();
      else if (k == 2) {
        r.flip() ? x[i].mainHit(hs[y]) : x[i].mainHit(Hit(hs[y]));
        m.main = y;
      } else if (k == 3) {
        if (ok) {
          x[i].parent(x[j]);
          m.parent = j;
        } else {
          x[i].parent(Cluster::makeEmpty());
          m.parent = -1;
        }
      } else if (k < 6) {
        x[i].addhits(hs[y]);
        m.hits.push_back(hs[y]);
      } else if (k == 6 && ok) {
        x[i].addclusters(x[j]);
        m.clusters.push_back(x[j]);
      } else if (k == 7 && x.size() < 6)
        add();
      for (size_t a = 0; a < x.size(); ++a) {
        look(x[a], w[a]);
        look(Cluster(x[a]), w[a]);
      }
    }
  }
  CHECK("leak", live() <= before + 1, live() - before);
}
struct PartM {
  double energy = 0;
  int pdg = 0;
  std::optional<Energetic> best;
  std::vector<Energetic> sources;
  std::vector<double> w;
};
static void parts(Rng& r) {
  long before = live();
  {
    HitCollection hc;
    ClusterCollection cc;
    InfoCollection ic;
    ns::PartCollection pc;
    std::vector<Energetic> e;
    for (int i = 0; i < 2; ++i) {
      e.emplace_back(hc.create());
      e.emplace_back(MutableCluster(double(i)));
      e.emplace_back(ic.create(i, std::uint64_t(i) << 40, Vec3{}, 2.0));
    }
    std::vector<ns::MutablePart> x;
    std::vector<PartM> w;
    for (int i = 0; i < 3; ++i) {
      PartM m;
      if (i == 0)
        x.emplace_back();
      else if (i == 1)
        x.push_back(pc.create());
      else
        x.push_back(pc.create(m.energy = r.real(), m.pdg = int(r.next())));
      w.push_back(m);
    }
    auto look = [&](const auto& c, const PartM& m) {
      CHECK("members", c.energy() == m.energy && c.pdg() == m.pdg, c.energy(), " ", c.pdg());
      auto b = c.best();
      CHECK("one-to-one", b.isAvailable() == bool(m.best) && (!m.best || b == *m.best), "best");
      SEQUENCE(c, sources, m.sources, eqh);
      SEQUENCE(c, w, m.w, eqd);
    };
    int steps = 3 + r(25);
    for (int st = 0; st < steps; ++st) {
      int i = r(x.size()), k = r(7), y = r(e.size());
      auto& m = w[i];
      log("part ", i, " operation ", k, " with ", y);
      if (k == 0)
        x[i].energy(m.energy = r.real());
      else if (k == 1)
        x[i].pdg(m.pdg = int(r.next()));
      else if (k == 2)
        x[i].pdg() = m.pdg = int(r.next());
      else if (k == 3) {
        bool none = r.flip(4);
        x[i].best(none ? Energetic::makeEmpty() : e[y]);
        m.best = none ? std::nullopt : std::optional<Energetic>(e[y]);
      } else if (k < 6) {
        x[i].addsources(e[y]);
        m.sources.push_back(e[y]);
      } else {
        double d = r.real();
        x[i].addw(d);
        m.w.push_back(d);
      }
      for (size_t a = 0; a < x.size(); ++a) {
        look(x[a], w[a]);
        look(ns::Part(x[a]), w[a]);
      }
    }
  }
  CHECK("leak", live() <= before + 1, live() - before);
}
// the relations of objects of a collection that was read back
static void roundTrip(Rng& r) {
  auto n = 1 + r(5);
  std::vector<HitM> w;
  HitCollection c;
  c.setID(5);
  for (size_t i = 0; i < n; ++i) {
    auto m = c.create();
    HitM x;
    m.energy(x.energy = r.real());
    m.cellID(x.cellID = r.next());
    for (int k = r(4); k > 0; --k) {
      x.counts.push_back(int(r.next()));
      m.addcounts(x.counts.back());
    }
    for (int k = r(3); k > 0; --k) {
      x.points.push_back(rvec(r));
      m.addpoints(x.points.back());
    }
    w.push_back(x);
  }
  log(n, " hits read back");
  c.prepareForWrite();
  auto raw = capture(c);
  auto b = readBuffers(raw);
  auto u = b.createCollection(std::move(b), false);
  u->setID(5);
  u->prepareAfterRead();
  auto& k = dynamic_cast<HitCollection&>(*u);
  CHECK("size", k.size() == n, k.size());
  for (size_t i = 0; i < n; ++i)
    check(std::as_const(k)[i], w[i]);
  for (size_t i = 0; i < n; ++i) // writing a collection changes nothing about its objects
    check(c[i], w[i]);
}
int main(int argc, char** argv) {
  Hit{}, Cluster{}, ns::Part{}, Info{};
  HitCollection{}, ClusterCollection{}, ns::PartCollection{}, InfoCollection{};
  return run(argc, argv, {{"hits", 100, hits}, {"clusters", 150, clusters}, {"parts", 150, parts}, {"read back", 150, roundTrip}});
}
