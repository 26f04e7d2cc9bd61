#define H_COUNT_ALLOC
#include "event.h"
#include "podio/LinkNavigator.h"
#pragma clang diagnostic ignored "-Wdeprecated-declarations"
// looked up objects as a sorted list of addresses (hashes), weights
template <typename W> static std::multiset<std::pair<size_t, float>> bag(const std::vector<W>& v) {
  std::multiset<std::pair<size_t, float>> r;
  for (const auto& [o, w] : v)
    r.insert({std::hash<std::remove_cvref_t<decltype(o)>>{}(o), w});
  return r;
}
template <typename X> static std::string show(const std::multiset<std::pair<size_t, float>>& b, const X&) {
  std::string r;
  for (auto& [h, w] : b)
    r += cat(h, ":", w, " ");
  return r;
}
template <typename C, typename FC, typename TC> static void nav(Rng& r, const char* name) {
  using F = typename C::from_type;
  using T = typename C::to_type;
  long before = live();
  {
    FC fc, fc2;
    TC tc;
    C own, sub;
    sub.setSubsetCollection();
    int nf = 1 + r(5), nt = 1 + r(5), n = r.flip(4) ? 0 : r(r.flip() ? 8 : 40);
    for (int i = 0; i < nf; ++i)
      fc.create(), fc2.create();
    for (int i = 0; i < nt; ++i)
      tc.create();
    struct Rec {
      std::optional<F> f;
      std::optional<T> t;
      float w;
    };
    std::vector<Rec> recs, rsub;
    bool same = std::is_same_v<F, T>;
    std::vector<F> fs;
    std::vector<T> ts;
    for (auto x : fc)
      fs.push_back(x);
    for (auto x : fc2)
      fs.push_back(x);
    for (auto x : tc)
      ts.push_back(x);
    if constexpr (std::is_same_v<F, T>) { // chains and self links
      for (auto x : fc)
        ts.push_back(x);
      for (auto x : tc)
        fs.push_back(x);
    }
    for (int i = 0; i < n; ++i) {
      auto m = own.create();
      Rec c{std::nullopt, std::nullopt, 1};
      if (!r.flip(4))
        m.setWeight(c.w = float(r(4)) / 2);
      if (!r.flip(12))
        m.setFrom(*(c.f = fs[r(fs.size())]));
      if (!r.flip(12))
        m.setTo(*(c.t = ts[r(ts.size())]));
      recs.push_back(c);
      if (r.flip())
        sub.push_back(m), rsub.push_back(c);
    }
    log(name, same ? " same" : "", " ", n, " links");
    std::optional<podio::LinkNavigator<C>> pn;
    for (int k = 0; k < 2; ++k) {
      const C& c = k ? sub : own;
      const auto& rec = k ? rsub : recs;
      podio::LinkNavigator<C> a(c);
      auto b = a;                      // copies and moved navigators answer the same
      podio::LinkNavigator<C> d = std::move(a);
      for (auto* q : {&b, &d}) {
        const auto& v = *q;
        for (auto& x : fs) {
          std::multiset<std::pair<size_t, float>> want;
          for (auto& y : rec)
            if (y.f && *y.f == x)
              want.insert({std::hash<T>{}(y.t ? *y.t : T::makeEmpty()), y.w});
          auto got = v.getLinkedTo(x);
          CHECK("linked-to", bag(got) == want, show(bag(got), 0), " instead of ", show(want, 0));
          CHECK("linked-to", bag(v.getLinked(x, podio::ReturnTo)) == want);
          if constexpr (!std::is_same_v<F, T>)
            CHECK("linked-to", bag(v.getLinked(x)) == want);
        }
        for (auto& x : ts) {
          std::multiset<std::pair<size_t, float>> want;
          for (auto& y : rec)
            if (y.t && *y.t == x)
              want.insert({std::hash<F>{}(y.f ? *y.f : F::makeEmpty()), y.w});
          auto got = v.getLinkedFrom(x);
          CHECK("linked-from", bag(got) == want, show(bag(got), 0), " instead of ", show(want, 0));
          CHECK("linked-from", bag(v.getLinked(x, podio::ReturnFrom)) == want);
          if constexpr (!std::is_same_v<F, T>)
            CHECK("linked-from", bag(v.getLinked(x)) == want);
        }
        if constexpr (requires { fc[0]; }) {
          auto m = fc[0];
          CHECK("mutable", bag(v.getLinked(m, podio::ReturnTo)) == bag(v.getLinkedTo(fs[0])));
          typename F::mutable_type loose;
          CHECK("unlinked", v.getLinkedTo(loose).empty());
        }
      }
      pn = std::move(b);
    }
    pn.reset();
    sub.clear();
  }
  CHECK("no-leak", live() <= before + 1, live() - before, " heap blocks more than before");
}
static void hc(Rng& r) { nav<HCL, HitCollection, ClusterCollection>(r, "Hit to Cluster"); }
static void hh(Rng& r) { nav<HHL, HitCollection, HitCollection>(r, "Hit to Hit"); }
// links to an interface type: objects of different types behind it
static void ce(Rng& r) {
  ClusterCollection c;
  HitCollection h;
  InfoCollection i;
  CEL l;
  int n = 1 + r(4);
  for (int k = 0; k < n; ++k)
    c.create(), h.create(), i.create();
  std::vector<Energetic> es;
  for (int k = 0; k < n; ++k)
    es.emplace_back(Hit(h[k])), es.emplace_back(Info(i[k])), es.emplace_back(Cluster(c[k]));
  struct Rec { int f, t; float w; };
  std::vector<Rec> rec;
  for (int k = r(20); k > 0; --k) {
    auto m = l.create();
    Rec x{int(r(n)), int(r(es.size())), float(r(5))};
    m.setFrom(c[x.f]), m.setTo(es[x.t]), m.setWeight(x.w);
    rec.push_back(x);
  }
  log("Cluster to Energetic ", rec.size());
  podio::LinkNavigator<CEL> v(l);
  for (int f = 0; f < n; ++f) {
    std::multiset<std::pair<int, float>> want, got;
    for (auto& x : rec)
      if (x.f == f)
        want.insert({x.t, x.w});
    for (const auto& [o, w] : v.getLinkedTo(c[f])) {
      int t = 0;
      while (t < int(es.size()) && !(es[t] == o))
        ++t;
      got.insert({t, w});
    }
    CHECK("linked-to", got == want);
  }
  for (size_t t = 0; t < es.size(); ++t) {
    std::multiset<std::pair<int, float>> want, got;
    for (auto& x : rec)
      if (x.t == int(t))
        want.insert({x.f, x.w});
    for (const auto& [o, w] : v.getLinkedFrom(es[t]))
      got.insert({o.getObjectID().index, w});
    CHECK("linked-from", got == want);
  }
}
int main(int argc, char** argv) {
  names();
  return run(argc, argv, {{"hit-cluster", 800, hc}, {"hit-hit", 800, hh}, {"cluster-energetic", 800, ce}});
}
