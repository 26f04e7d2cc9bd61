#define H_COUNT_ALLOC
#include "event.h"
#include <set>
// links against a plain record of what was set
template <typename X> struct End { // an end: the object (or none)
  std::optional<X> o;
};
static Hit pick(const Hit*, Event& e, Rng& r) { return anyHit(e, r); }
static Cluster pick(const Cluster*, Event& e, Rng& r) { return anyCluster(e, r); }
static std::optional<Energetic> pick(const Energetic*, Event& e, Rng& r) { return anyEnergetic(e, r); }
template <typename X> static std::optional<X> some(Event& e, Rng& r) {
  auto x = pick(static_cast<const X*>(nullptr), e, r);
  if constexpr (std::is_same_v<decltype(x), std::optional<X>>)
    return x;
  else
    return x.isAvailable() ? std::optional<X>(x) : std::nullopt;
}
template <typename F, typename T> struct Rec {
  std::optional<F> from;
  std::optional<T> to;
  float weight = 1;
  podio::ObjectID id{};
};
template <typename X> static bool is(const X& x, const std::optional<X>& w) { return w ? x.isAvailable() && x == *w : !x.isAvailable(); }
// x: mutable or immutable link
template <typename L, typename F, typename T> static void shows(const L& x, const Rec<F, T>& w, const char* what) {
  CHECK("weight", x.getWeight() == w.weight, what, " ", x.getWeight(), " instead of ", w.weight);
  CHECK("from", is<F>(x.getFrom(), w.from), what);
  CHECK("to", is<T>(x.getTo(), w.to), what);
  CHECK("id", x.getObjectID() == w.id && x.id() == w.id, what, " ", x.getObjectID());
  CHECK("by-index", (is<F>(x.template get<0>(), w.from) && is<T>(x.template get<1>(), w.to) && x.template get<2>() == w.weight), what);
  const auto& [f, t, u] = x;
  CHECK("binding", is<F>(f, w.from) && is<T>(t, w.to) && u == w.weight, what);
  if constexpr (!std::is_same_v<F, T>) {
    CHECK("by-type", is<F>(x.template get<F>(), w.from) && is<T>(x.template get<T>(), w.to), what);
  }
  CHECK("available", x.isAvailable());
}
template <typename C> static void links(Rng& r, const char* name) {
  using M = typename C::mutable_type;
  using V = typename C::value_type;
  using F = typename C::from_type;
  using T = typename C::to_type;
  long before = live();
  {
    Event e;
    init(e, r);
    identify(e);
    fill(e, r);
    C coll, sub;
    const C& ccoll = coll;
    sub.setSubsetCollection();
    uint32_t id = 1000 + uint32_t(r(100));
    bool early = r.flip();
    if (early)
      coll.setID(id);
    sub.setID(5);
    std::vector<M> x;
    std::vector<Rec<F, T>> w;
    std::vector<size_t> in, ins; // what is in the collections
    log(name);
    auto add = [&] {
      int k = r(5);
      Rec<F, T> m;
      if (k == 0)
        x.emplace_back();
      else if (k == 1) {
        m.weight = float(r.real());
        x.emplace_back(m.weight);
      } else if (k == 2) {
        x.push_back(coll.create());
        m.id = {int(in.size()), early ? id : uint32_t(0)};
        in.push_back(x.size() - 1);
      } else {
        auto f = some<F>(e, r);
        auto t = some<T>(e, r);
        if (!f || !t) {
          x.emplace_back();
        } else {
          m.weight = k == 3 ? 1.f : float(r.real());
          m.from = f, m.to = t;
          x.push_back(coll.create());
          x.back().setFrom(*f), x.back().setTo(*t);
          if (k == 4)
            x.back().setWeight(m.weight);
          m.id = {int(in.size()), early ? id : uint32_t(0)};
          in.push_back(x.size() - 1);
        }
      }
      w.push_back(m);
      log("link ", x.size() - 1, " made in way ", k);
    };
    add();
    add();
    int steps = 5 + r(30);
    for (int st = 0; st < steps; ++st) {
      int i = r(x.size()), k = r(10);
      auto& o = x[i];
      auto& m = w[i];
      log("link ", i, " operation ", k);
      switch (k) {
      case 0: case 1: o.setWeight(m.weight = float(r.real())); break;
      case 2: case 3:
        if (auto f = some<F>(e, r)) {
          m.from = f;
          if constexpr (!std::is_same_v<F, T>)
            k == 2 ? o.setFrom(*f) : o.set(*f);
          else
            o.setFrom(*f);
        }
        break;
      case 4: case 5:
        if (auto t = some<T>(e, r)) {
          m.to = t;
          if constexpr (!std::is_same_v<F, T>)
            k == 4 ? o.setTo(*t) : o.set(*t);
          else
            o.setTo(*t);
        }
        break;
      case 6: // a mutable handle
        if (r.flip()) {
          if constexpr (std::is_same_v<F, Hit>) {
            auto& h = e.get<HitCollection>("hitsA");
            if (!h.empty()) {
              auto y = h[r(h.size())];
              o.setFrom(y);
              m.from = y;
            }
          } else {
            auto& h = e.get<ClusterCollection>("clustersA");
            if (!h.empty()) {
              auto y = h[r(h.size())];
              o.setFrom(y);
              m.from = y;
            }
          }
        } else {
          auto& h = e.get<HitCollection>("hitsB");
          auto& c = e.get<ClusterCollection>("clustersB");
          if constexpr (std::is_same_v<T, Hit> || std::is_same_v<T, Energetic>) {
            if (!h.empty()) {
              auto y = h[r(h.size())];
              o.setTo(y);
              m.to = T(y);
            }
          } else if (!c.empty()) {
            auto y = c[r(c.size())];
            o.setTo(y);
            m.to = y;
          }
        }
        break;
      case 7: // into the collection
        if (std::find(in.begin(), in.end(), size_t(i)) == in.end()) {
          coll.push_back(o);
          m.id = {int(in.size()), early ? id : uint32_t(0)};
          in.push_back(i);
        }
        break;
      case 8:
        if (std::find(in.begin(), in.end(), size_t(i)) != in.end() && early) {
          sub.push_back(o);
          ins.push_back(i);
        }
        break;
      case 9: if (x.size() < 8) add(); break;
      }
      for (size_t y = 0; y < x.size(); ++y) {
        if (!early && w[y].id != podio::ObjectID{})
          w[y].id = x[y].getObjectID(), w[y].id.index = int(std::find(in.begin(), in.end(), y) - in.begin());
        shows(x[y], w[y], "mutable link");
        V v(x[y]);
        shows(v, w[y], "immutable link");
      }
    }
    coll.setID(id);
    for (size_t i = 0; i < in.size(); ++i)
      w[in[i]].id = {int(i), id};
    CHECK("collection-size", coll.size() == in.size() && sub.size() == ins.size());
    for (size_t i = 0; i < in.size(); ++i) {
      shows(coll[i], w[in[i]], "link of the collection");
      shows(ccoll[i], w[in[i]], "constant link of the collection");
      shows(ccoll.at(i), w[in[i]], "constant link of the collection");
    }
    size_t n = 0;
    for (const auto& [f, t, u] : ccoll) {
      CHECK("iteration", n < in.size() && is<F>(f, w[in[n]].from) && is<T>(t, w[in[n]].to) && u == w[in[n]].weight, n);
      ++n;
    }
    CHECK("iteration", n == in.size());
    for (size_t i = 0; i < ins.size(); ++i)
      shows(sub[i], w[ins[i]], "link of the subset collection");
    // handles to the same and to different links
    std::vector<V> v;
    for (auto& y : x)
      v.emplace_back(V(y));
    for (size_t i = 0; i < x.size(); ++i)
      for (size_t j = 0; j < x.size(); ++j) {
        auto c = x[j];
        bool same = i == j;
        CHECK("equal", (x[i] == c) == same && (v[i] == v[j]) == same && (x[i] == v[j]) == same && (v[i] == x[j]) == same, i, " ", j);
        CHECK("equal", (x[i] != c) != same && (v[i] != v[j]) != same && (x[i] != v[j]) != same && (v[i] != x[j]) != same, i, " ", j);
        CHECK("order", !(x[i] < c && c < x[i]) && (same ? !(x[i] < c) && !(v[i] < v[j]) : (x[i] < c) != (c < x[i]) && (v[i] < v[j]) == (x[i] < c)), i, " ", j);
        if (same)
          CHECK("hash", std::hash<M>{}(x[i]) == std::hash<M>{}(c) && std::hash<V>{}(v[i]) == std::hash<V>{}(V(c)) && std::hash<M>{}(x[i]) == std::hash<V>{}(v[i]));
      }
    // set algorithms on the collection see the same objects
    for (size_t i = 0; i < in.size(); ++i)
      CHECK("equal", coll[i] == x[in[i]] && ccoll[i] == v[in[i]] && std::hash<V>{}(ccoll[i]) == std::hash<V>{}(v[in[i]]));
    // handles that refer to nothing
    auto none = V::makeEmpty();
    CHECK("empty", !none.isAvailable() && none.getObjectID() == podio::ObjectID{} && none == V::makeEmpty());
    {
      auto a = x[0];
      a.unlink();
      CHECK("empty", !a.isAvailable() && !(a == x[0]) && x[0].isAvailable());
      shows(x[0], w[0], "after another handle was unlinked");
      auto b = x[0];
      M c2;
      swap(b, c2);
      shows(c2, w[0], "swapped");
      CHECK("swap", c2 == x[0] && !(b == x[0]) && b.getWeight() == 1);
      b = c2;
      shows(b, w[0], "assigned");
      CHECK("assign", b == x[0]);
    }
    // writing and reading back
    if (r.flip()) {
      auto d = descr(coll);
      auto raw = rawOf(coll);
      auto buf = readBuffers(raw);
      auto c = buf.createCollection(std::move(buf), false);
      c->prepareAfterRead();
      c->setID(id);
      Prov p;
      for (auto& y : names())
        p.m[e.c[y]->getID()] = e.c[y].get();
      CHECK("references-resolved", c->setReferences(&p));
      auto& k = dynamic_cast<const C&>(*c);
      CHECK("read-back", descr(k) == d, differ(descr(k), d));
      for (size_t i = 0; i < in.size(); ++i)
        shows(k[i], w[in[i]], "link read back");
    }
    sub.clear();
    x.clear();
    v.clear();
    w.clear();
    coll.clear();
    for (auto it = names().rbegin(); it != names().rend(); ++it)
      e.c[*it].reset();
  }
  CHECK("no-leak", live() <= before + 1, live() - before, " heap blocks more than before");
}
static void hc(Rng& r) { links<HCL>(r, "Hit to Cluster"); }
static void hh(Rng& r) { links<HHL>(r, "Hit to Hit"); }
static void ce(Rng& r) { links<CEL>(r, "Cluster to Energetic"); }
int main(int argc, char** argv) {
  names();
  return run(argc, argv, {{"hit-cluster", 500, hc}, {"hit-hit", 500, hh}, {"cluster-energetic", 500, ce}});
}
