#define H_COUNT_ALLOC
#include "mem.h"
#include <set>
using Descr = std::map<std::string, std::vector<std::string>>;
// the description if the collections with these IDs are missing
static std::string without(const std::string& s, const std::vector<std::string>& gone) {
  std::string r = s;
  for (auto& g : gone)
    for (size_t at = 0; (at = r.find(g, at)) != std::string::npos;) {
      auto e = r.find_first_of(" ", at);
      r.replace(at, e == std::string::npos ? e : e - at, "none");
    }
  return r;
}
struct Setup {
  Descr d;
  std::map<std::string, Raw> w;
  std::unique_ptr<MemData> data = std::make_unique<MemData>();
  std::map<std::string, uint32_t> ids;
  std::shared_ptr<std::map<std::string, int>> asked;
};
static void prepare(Setup& s, Rng& r, int most) {
  Event e;
  init(e, r);
  identify(e);
  fill(e, r, most);
  for (auto& n : names()) {
    s.d[n] = describe(*e.c[n]);
    log(n, " ", s.d[n].size() - 1);
  }
  for (auto& n : names())
    s.w[n] = capture(*e.c[n]);
  auto order = names();
  for (size_t i = order.size(); i > 1; --i)
    std::swap(order[i - 1], order[r(i)]);
  std::vector<uint32_t> is;
  std::vector<std::string> ns;
  for (auto& n : order) {
    s.ids[n] = e.table.collectionID(n).value();
    ns.push_back(n);
    is.push_back(s.ids[n]);
    if (r.flip(3)) { // other names the table knows
      ns.push_back(cat("other", ns.size()));
      is.push_back(podio::CollectionIDTable{}.add(ns.back()));
    }
  }
  s.data->table = podio::CollectionIDTable(std::move(is), std::move(ns));
  s.asked = s.data->asked;
  for (auto it = names().rbegin(); it != names().rend(); ++it)
    e.c[*it].reset();
}
// the relations are the objects of the Frame's own collections
template <typename X> static void own(const podio::Frame& f, const std::map<uint32_t, const podio::CollectionBase*>& m, const X& x) {
  if (!x.isAvailable())
    return;
  auto it = m.find(x.getObjectID().collectionID);
  CHECK("own-objects", it != m.end() && size_t(x.getObjectID().index) < it->second->size());
  if (it == m.end())
    return;
  CHECK("own-objects", (*static_cast<const typename X::collection_type*>(it->second))[x.getObjectID().index] == x);
}
static void all(const podio::Frame& f, const Setup& s) {
  std::map<uint32_t, const podio::CollectionBase*> m;
  for (auto& [n, i] : s.ids)
    m[i] = f.get(n);
  auto& c = f.get<ClusterCollection>("clustersA");
  for (auto x : c) {
    own(f, m, x.mainHit());
    own(f, m, x.parent());
    for (auto y : x.hits())
      own(f, m, y);
    for (auto y : x.clusters())
      own(f, m, y);
  }
  for (auto x : f.get<HitCollection>("subHits"))
    own(f, m, x);
  for (auto x : f.get<ClusterCollection>("subClusters"))
    own(f, m, x);
  for (auto x : f.get<HCL>("hitClusterLinks")) {
    own(f, m, x.getFrom());
    own(f, m, x.getTo());
  }
}
static void complete(Rng& r) {
  names();
  static bool warm = false;
  long before = live();
  {
    Setup s;
    prepare(s, r, r.flip(8) ? 30 : 6);
    s.data->raw = s.w;
    std::map<std::string, std::vector<int>> ints;
    std::map<std::string, std::vector<std::string>> strs;
    for (int i = r(5); i > 0; --i) {
      auto k = cat("key", r(4));
      ints[k] = {int(r(100)), -int(r(9))};
      s.data->params.set(k, ints[k]);
      strs[k] = {cat("v", r(100)), ""};
      s.data->params.set(k, strs[k]);
    }
    podio::Frame f(std::move(s.data));
    std::map<std::string, const podio::CollectionBase*> got;
    auto parameters = [&] {
      CHECK("parameters", f.getParameterKeys<int>().size() == ints.size() && f.getParameterKeys<std::string>().size() == strs.size());
      CHECK("parameters", f.getParameterKeys<double>().empty() && f.getParameterKeys<float>().empty());
      for (auto& [k, v] : ints)
        CHECK("parameters", f.getParameter<std::vector<int>>(k) == v, k);
      for (auto& [k, v] : strs)
        CHECK("parameters", f.getParameter<std::vector<std::string>>(k) == v, k);
    };
    parameters();
    auto order = names();
    for (size_t i = order.size(); i > 1; --i)
      std::swap(order[i - 1], order[r(i)]);
    if (r.flip(4))
      f.put(InfoCollection{}, "anotherOne");
    for (auto& n : order) {
      log("get ", n);
      for (int k = r(3); k >= 0; --k) {
        auto* c = k == 1 ? f.getCollectionForWrite(n) : f.get(n);
        CHECK("found", c, n);
        if (!c)
          return;
        CHECK("same", !got[n] || got[n] == c, n);
        got[n] = c;
        CHECK("id", c->getID() == s.ids[n] && f.getName(*c) == n, n);
        auto now = describe(*c);
        CHECK("contents", now == s.d[n], n, " ", differ(now, s.d[n]));
      }
      if (r.flip(5)) {
        podio::Frame g(std::move(f));
        f = std::move(g);
      }
      auto av = f.getAvailableCollections();
      std::set<std::string> u(av.begin(), av.end());
      CHECK("available", u.size() == av.size(), av.size());
      for (auto& o : names())
        CHECK("available", u.count(o) == 1, o);
    }
    for (auto& n : names()) {
      CHECK("once", (*s.asked)[n] == 1, n, " unpacked ", (*s.asked)[n], " times");
      auto* c = f.get(n);
      CHECK("same", c == got[n], n);
      auto now = describe(*c);
      CHECK("contents", now == s.d[n], n, " ", differ(now, s.d[n]));
      CHECK("id", c->getID() == s.ids[n], n);
    }
    for (auto n : {"other1", "other2", "nothing", ""})
      CHECK("absent", f.get(n) == nullptr, n);
    all(f, s);
    parameters();
    for (auto& n : order) { // what was read can be written again
      auto w = capture(*const_cast<podio::CollectionBase*>(f.getCollectionForWrite(n)));
      CHECK("written-again", w.type == s.w[n].type && w.subset == s.w[n].subset && w.refs == s.w[n].refs, n);
    }
  }
  if (warm)
    CHECK("no-leak", live() <= before, live() - before, " allocations left");
  warm = true;
}
// some collections are not there: everything else is, and what referred to them refers to nothing
static void incomplete(Rng& r) {
  Setup s;
  prepare(s, r, 5);
  std::vector<std::string> gone;
  std::set<std::string> missing;
  for (auto& n : names())
    if (!subsetName(n) && r.flip(3)) {
      missing.insert(n);
      gone.push_back(cat(podio::ObjectID{0, s.ids[n]}).substr(0, cat(podio::ObjectID{0, s.ids[n]}).find('|') + 1));
      log("missing ", n);
    } else if (subsetName(n)) { // subset collections of what is missing have nothing to show
      if (r.flip(3))
        missing.insert(n);
    }
  s.data->raw = s.w;
  for (auto& n : missing)
    s.data->raw.erase(n);
  podio::Frame f(std::move(s.data));
  auto order = names();
  for (size_t i = order.size(); i > 1; --i)
    std::swap(order[i - 1], order[r(i)]);
  for (auto& n : order) {
    auto* c = f.get(n);
    CHECK("missing", (c == nullptr) == (missing.count(n) == 1), n);
    if (!c || subsetName(n))
      continue;
    auto now = describe(*c), want = s.d[n];
    for (auto& x : want) {
      auto colon = x.find(": "); // the object's own ID stays
      if (colon != std::string::npos)
        x = x.substr(0, colon) + without(x.substr(colon), gone);
    }
    if (n == "parts") // which type an absent object would have is not known
      for (auto* v : {&now, &want})
        for (auto& x : *v)
          for (auto t : {"Hitnone", "Clusternone", "Infonone"})
            for (size_t at = 0; (at = x.find(t, at)) != std::string::npos;)
              x.replace(at, strlen(t), "none");
    CHECK("contents-without", now == want, n, " ", differ(now, want));
  }
  for (auto& n : names())
    CHECK("once", (*s.asked)[n] == (missing.count(n) ? 0 : 1), n);
}
int main(int argc, char** argv) {
  names();
  return run(argc, argv, {{"complete", 300, complete}, {"incomplete", 200, incomplete}});
}
