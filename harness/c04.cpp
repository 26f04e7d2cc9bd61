#define H_COUNT_ALLOC
#include "mem.h"
// contents without IDs
template <typename X> static std::string val(const X& x) { return x.isAvailable() ? cat(x.energy()) : "none"; }
static std::string plain(const Hit& x) { return body(x); }
static std::string plain(const Info& x) { return body(x); }
static std::string plain(const Cluster& x) {
  std::string o = cat(x.energy(), " ", val(x.mainHit()), " ", val(x.parent()));
  for (auto y : x.hits())
    o += " h" + val(y);
  for (auto y : x.clusters())
    o += " c" + val(y);
  return o;
}
static std::string plain(const ns::Part& x) {
  std::string o = cat(x.energy(), " ", x.pdg(), " ", val(x.best()));
  for (auto y : x.sources())
    o += " s" + val(y);
  return o;
}
template <typename F, typename T, bool M> static std::string plain(const podio::LinkT<F, T, M>& x) { return cat(x.getWeight(), " ", val(x.getFrom()), " ", val(x.getTo())); }
template <typename B> static std::string plain(const B& x) requires std::is_arithmetic_v<B> { return cat(x); }
static std::string contents(const podio::CollectionBase& c) {
  return typed(c, [](auto& x) {
    std::string r = cat(x.getTypeName(), " ", x.isSubsetCollection(), " ", x.size());
    for (auto y : x)
      r += " [" + plain(y) + "]";
    return r;
  });
}
struct Known {
  std::string contents;
  const podio::CollectionBase* p;
  std::string type;
  bool raw = false;
};
static std::string someName(Rng& r) {
  static const std::vector<std::string> pool{"a", "b", "ab", "", " ", "a ", "hitsA", "hitsB", "infos", "clustersA", "floats", "A", "a_", std::string("a\0b", 3), std::string("a\0", 2), "collection_with_a_rather_long_name_that_no_short_string_can_hold", "collection_with_a_rather_long_name_that_no_short_string_can_hole"};
  return r.flip(6) ? cat("n", r(40)) : pool[r(pool.size())];
}
static std::vector<std::string> sorted(std::vector<std::string> v) {
  std::sort(v.begin(), v.end());
  return v;
}
static void check(podio::Frame& f, const std::map<std::string, Known>& m, const std::string& w) {
  std::vector<std::string> all;
  for (auto& [n, k] : m)
    all.push_back(n);
  auto av = sorted(f.getAvailableCollections());
  CHECK("available", av == sorted(all), w, ": ", av.size(), " names, expected ", all.size());
  for (auto& [n, k] : m) {
    if (k.raw)
      continue;
    auto* c = f.get(n);
    CHECK("found", c == k.p, w, ": ", n);
    if (!c)
      continue;
    CHECK("contents", contents(*c) == k.contents, w, ": ", n, " ", contents(*c), " expected ", k.contents);
    CHECK("name", f.getName(*c) == n && f.getName(c->getID()) == n, w, ": ", n);
    CHECK("id", f.getCollectionIDTableForWrite().collectionID(n) == c->getID(), w, ": ", n);
    CHECK("for-write", f.getCollectionForWrite(n) == c && contents(*c) == k.contents, w, ": ", n);
  }
}
template <typename C> static void typedGet(const podio::Frame& f, const std::string& n, const Known* k) {
  bool want = k && k->type == std::string(C::typeName);
  const podio::CollectionBase* got = nullptr;
  bool threw = false;
  try {
    got = &f.get<C>(n);
  } catch (const std::runtime_error&) {
    threw = true;
  }
  CHECK("typed-get", threw != want && (!want || got == k->p), n, " as ", std::string(C::typeName), " is ", k ? k->type : "nothing");
}
template <typename C> static const podio::CollectionBase* putTyped(podio::Frame& f, std::unique_ptr<podio::CollectionBase> c, const std::string& n) {
  return &f.put(std::move(static_cast<C&>(*c)), n);
}
static const podio::CollectionBase* put(podio::Frame& f, std::unique_ptr<podio::CollectionBase> c, const std::string& n, bool byValue) {
  if (byValue)
    return typed(*c, [&](auto& x) { return putTyped<std::remove_cvref_t<decltype(x)>>(f, std::move(c), n); });
  auto* p = c.get();
  f.put(std::move(c), n);
  return p;
}
static void history(Rng& r) {
  std::map<std::string, Raw> raws;
  Event e; // where the collections come from
  init(e, r);
  identify(e);
  fill(e, r, 4);
  podio::Frame f;
  std::map<std::string, Known> m;
  if (r.flip()) { // with raw data
    Event e2;
    init(e2, r);
    identify(e2);
    fill(e2, r, 3);
    auto d = std::make_unique<MemData>();
    std::vector<std::string> ns;
    for (auto& n : names())
      ns.push_back(n);
    for (auto& n : ns) {
      d->raw[n] = capture(*e2.c[n]);
      d->table.add(n);
      m[n] = {contents(*e2.c[n]), nullptr, d->raw[n].type, true};
    }
    log("raw data");
    for (auto it = names().rbegin(); it != names().rend(); ++it)
      e2.c[*it].reset();
    f = podio::Frame(std::move(d));
  }
  auto look = [&](const std::string& n) { // unpacking a collection also unpacks those it refers to
    auto* c = f.get(n);
    auto it = m.find(n);
    CHECK("get", (c != nullptr) == (it != m.end()), n);
    for (auto& [o, k] : m)
      if (c && k.raw) {
        k.p = f.get(o);
        k.raw = false;
        CHECK("raw-found", k.p && contents(*k.p) == k.contents, o);
      }
  };
  int steps = 4 + r(30);
  for (int s = 0; s < steps; ++s) {
    auto n = someName(r);
    int op = r(10);
    if (op < 5) {
      auto it = e.c.begin();
      std::advance(it, r(e.c.size() ? e.c.size() : 1));
      std::unique_ptr<podio::CollectionBase> c;
      if (it == e.c.end() || m.count(n) || r.flip(3)) { // a refused collection is gone: nothing may refer to it
        auto fresh = std::make_unique<InfoCollection>();
        for (int i = r(4); i > 0; --i)
          fresh->create().energy(r(1000));
        c = std::move(fresh);
      } else {
        c = std::move(it->second);
        e.c.erase(it);
      }
      Known k{contents(*c), nullptr, std::string(c->getTypeName())};
      bool used = m.count(n), byValue = r.flip(), threw = false;
      log("put ", n, " ", k.type, used ? " (used)" : "");
      const podio::CollectionBase* p = nullptr;
      try {
        p = put(f, std::move(c), n, byValue);
      } catch (const std::invalid_argument&) {
        threw = true;
      }
      CHECK("put", threw == used, n, used ? " is in use" : " is free");
      if (!threw && !used) {
        k.p = p;
        CHECK("put-returns", f.get(n) == p, n);
        m[n] = k;
      }
      check(f, m, threw ? cat("after refused put ", n) : cat("after put ", n));
    } else if (op == 5) {
      log("get ", n);
      look(n);
    } else if (op == 6) {
      log("typed get ", n);
      auto it = m.find(n);
      if (it != m.end() && it->second.raw)
        look(n);
      const Known* k = it == m.end() ? nullptr : &it->second;
      typedGet<HitCollection>(f, n, k);
      typedGet<InfoCollection>(f, n, k);
      typedGet<ClusterCollection>(f, n, k);
      typedGet<HHL>(f, n, k);
      typedGet<UDF>(f, n, k);
    } else if (op == 7) {
      log("move");
      podio::Frame g(std::move(f));
      check(g, m, "moved");
      f = std::move(g);
    } else if (op == 8) {
      auto id = podio::CollectionIDTable{}.add(n);
      auto t = f.getCollectionIDTableForWrite();
      CHECK("name-known", (f.getName(id) == n) == t.present(n) && (!m.count(n) || t.present(n)), n);
    } else {
      for (auto& [o, k] : m)
        CHECK("parameters", f.getParameter<int>(o).has_value() == false);
    }
    check(f, m, cat("step ", s));
  }
}
int main(int argc, char** argv) {
  names();
  return run(argc, argv, {{"frame", 500, history}});
}
