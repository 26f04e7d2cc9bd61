#include "h.h"
#include "podio/CollectionBase.h"
#include "podio/DatamodelRegistry.h"
#include "podio/UserDataCollection.h"
#include "podio/utilities/DatamodelRegistryIOHelpers.h"
#include <list>
using namespace h;
using podio::DatamodelRegistry;
using podio::version::Version;
using Names = std::vector<std::string>;
// everything handed to the registry has to stay alive
static std::list<std::string> keep;
static std::string_view sv(std::string s) { return keep.emplace_back(std::move(s)); }
static std::list<podio::RelationNameMapping> keepMaps;
struct Model {
  std::string name, def;
  std::optional<Version> version;
  size_t index;
};
static std::vector<Model> model; // by index
static std::map<std::string, std::pair<Names, Names>> types;
static size_t base = 0;
static Names names(const std::vector<std::string_view>& v) { return Names(v.begin(), v.end()); }
static Version ver(Rng& r) { return Version{uint16_t(r(5)), uint16_t(r(5)), uint16_t(r(5))}; }
static std::string mname(Rng& r) {
  static const char* p[] = {"edm", "EDM", "edm4hep", "ed", "", "link", "podio"};
  return std::string(p[r(7)]) + (r.flip() ? std::to_string(r(30)) : "");
}
static std::string tname(Rng& r) {
  static const char* p[] = {"Hit", "ns::Hit", "Cluster", "HitCollection", "Coll", "Collection", "ACollection", "podio", "podio::Lin", "podio::UserData", "ection", ""};
  return std::string(p[r(12)]) + (r.flip() ? std::to_string(r(10)) : "");
}
static void check_all(Rng& r) {
  auto& reg = DatamodelRegistry::instance();
  for (const auto& m : model) {
    CHECK("definition-by-name", reg.getDatamodelDefinition(std::string_view(m.name)) == m.def, m.name, " gives ", reg.getDatamodelDefinition(std::string_view(m.name)), " instead of ", m.def);
    CHECK("definition-by-index", reg.getDatamodelDefinition(m.index) == m.def, m.name, " index ", m.index);
    CHECK("name-by-index", reg.getDatamodelName(m.index) == m.name, "index ", m.index, " gives ", reg.getDatamodelName(m.index));
    auto v = reg.getDatamodelVersion(m.name);
    CHECK("version", v == m.version, m.name, " has version ", bool(v), " expected ", bool(m.version));
  }
  for (const auto& [t, rel] : types)
    for (auto q : {t, t + "Collection"}) {
      // what the query itself is taken for
      std::string b = q;
      if (b.size() > 10 && b.substr(b.size() - 10) == "Collection")
        b = b.substr(0, b.size() - 10);
      if (q.starts_with("podio::Link") || q.starts_with("podio::UserDataCollection"))
        continue;
      auto it = types.find(b);
      auto x = reg.getRelationNames(q);
      CHECK("relation-names", names(x.relations) == (it == types.end() ? Names{} : it->second.first), "type ", q);
      CHECK("vector-member-names", names(x.vectorMembers) == (it == types.end() ? Names{} : it->second.second), "type ", q);
    }
}
static void registry(Rng& r) {
  auto& reg = DatamodelRegistry::mutInstance();
  for (int s = 0, n = 1 + r(6); s < n; ++s) {
    auto nm = mname(r);
    std::string def = "{" + rstr(r, 30) + "}";
    auto& rel = keepMaps.emplace_back();
    std::vector<std::string> tn;
    std::map<std::string, std::pair<Names, Names>> fresh;
    for (int i = 0, k = r(5); i < k; ++i) {
      auto t = tname(r);
      std::vector<std::string_view> a, b;
      for (int j = 0, q = r(4); j < q; ++j)
        a.push_back(sv("rel" + std::to_string(r(20))));
      for (int j = 0, q = r(4); j < q; ++j)
        b.push_back(sv("vec" + std::to_string(r(20))));
      fresh.emplace(t, std::pair{names(a), names(b)});
      rel.emplace_back(sv(t), a, b);
    }
    bool withv = r.flip();
    auto v = ver(r);
    log("register '", nm, "' ", withv ? "with version" : "", " types ", rel.size());
    size_t i = withv ? reg.registerDatamodel(nm, sv(def), rel, v) : reg.registerDatamodel(nm, sv(def), rel);
    auto it = std::find_if(model.begin(), model.end(), [&](auto& m) { return m.name == nm; });
    if (it == model.end()) {
      CHECK("next-index", i == base + model.size(), "index ", i);
      model.push_back({nm, def, withv ? std::optional(v) : std::nullopt, i});
      types.insert(fresh.begin(), fresh.end());
    } else {
      CHECK("same-index-again", i == it->index, "index ", i, " instead of ", it->index);
      if (withv && !it->version)
        it->version = v;
    }
  }
  check_all(r);
}
static void absent(Rng& r) {
  auto& reg = DatamodelRegistry::instance();
  auto nm = "no" + rstr(r, 10);
  log("absent ", nm);
  CHECK("unknown-name", reg.getDatamodelDefinition(std::string_view(nm)) == "{}", "");
  size_t i = base + model.size() + r(5);
  if (r.flip(4))
    i = r.flip() ? DatamodelRegistry::NoDefinitionAvailable : DatamodelRegistry::NoDefinitionNecessary;
  CHECK("unknown-index", reg.getDatamodelDefinition(i) == "{}" && reg.getDatamodelName(i) == "", "index ", i);
  CHECK("unknown-version", !reg.getDatamodelVersion(nm), "");
  auto x = reg.getRelationNames("Unknown" + rstr(r, 5));
  CHECK("unknown-type", x.relations.empty() && x.vectorMembers.empty(), "");
  auto l = reg.getRelationNames("podio::Link" + rstr(r, 8));
  CHECK("link-names", (names(l.relations) == Names{"from", "to"}) && l.vectorMembers.empty(), "");
  auto u = reg.getRelationNames("podio::UserDataCollection" + rstr(r, 8));
  CHECK("user-data-names", u.relations.empty() && u.vectorMembers.empty(), "");
}
struct Coll : podio::UserDataCollection<int> {
  size_t idx;
  explicit Coll(size_t i) : idx(i) {}
  size_t getDatamodelRegistryIndex() const override { return idx; }
};
static void helpers(Rng& r) {
  podio::DatamodelDefinitionCollector c;
  std::set<size_t> want;
  for (int i = 0, n = r(8); i < n; ++i) {
    size_t idx = model.empty() || r.flip(5) ? (r.flip() ? DatamodelRegistry::NoDefinitionAvailable : DatamodelRegistry::NoDefinitionNecessary) : model[r(model.size())].index;
    log("collect ", idx);
    Coll k(idx);
    c.registerDatamodelDefinition(&k, "c");
    if (idx < base + model.size())
      want.insert(idx);
  }
  auto defs = c.getDatamodelDefinitionsToWrite();
  std::set<std::pair<std::string, std::string>> a, b;
  for (auto& [n, d] : defs)
    a.insert({n, d});
  for (auto i : want)
    b.insert({model[i - base].name, model[i - base].def});
  CHECK("definitions-to-write", a == b && defs.size() == want.size(), defs.size(), " definitions instead of ", want.size());
  // what a reader gets back
  std::vector<std::tuple<std::string, Version>> vs;
  for (auto& [n, d] : defs)
    if (r.flip())
      vs.emplace_back(n, ver(r));
  auto defs2 = defs;
  auto vs2 = vs;
  podio::DatamodelDefinitionHolder h(std::move(defs2), std::move(vs2));
  Names all;
  for (auto& [n, d] : defs) {
    CHECK("read-back-definition", h.getDatamodelDefinition(n) == d, n);
    all.push_back(n);
  }
  CHECK("read-back-names", h.getAvailableDatamodels() == all, "");
  for (auto& n : all) {
    auto it = std::find_if(vs.begin(), vs.end(), [&](auto& x) { return std::get<0>(x) == n; });
    auto v = h.getDatamodelVersion(n);
    CHECK("read-back-version", bool(v) == (it != vs.end()) && (!v || *v == std::get<1>(*it)), n);
  }
  CHECK("read-back-unknown", h.getDatamodelDefinition("no such") == "{}" && !h.getDatamodelVersion("no such"), "");
}
static void fill(Rng& r) {
  // models registered while the libraries were loaded
  auto& reg = DatamodelRegistry::instance();
  while (!reg.getDatamodelName(base).empty())
    ++base;
}
int main(int c, char** v) {
  return run(c, v, {{"initial", 1, fill}, {"registry", 60, registry}, {"absent", 400, absent}, {"io helpers", 400, helpers}});
}
