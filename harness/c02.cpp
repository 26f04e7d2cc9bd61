#include "h.h"
#include "podio/CollectionIDTable.h"
using podio::CollectionIDTable;
using namespace h;

struct Model {
  std::vector<std::string> names;
  std::vector<uint32_t> ids;
};
static void agree(const CollectionIDTable& t, const Model& m, const std::vector<std::string>& others) {
  CHECK("lists", t.names().size() == m.names.size() && t.ids().size() == m.ids.size(), "sizes ", t.names().size(), " ", t.ids().size(), " expected ", m.names.size());
  CHECK("empty", t.empty() == m.names.empty());
  for (size_t i = 0; i < m.names.size(); ++i) {
    CHECK("order", t.names()[i] == m.names[i], "position ", i);
    CHECK("order", t.ids()[i] == m.ids[i], "position ", i);
    auto id = t.collectionID(m.names[i]);
    CHECK("name-to-id", id.has_value() && *id == m.ids[i], "name ", m.names[i]);
    auto n = t.name(m.ids[i]);
    CHECK("id-to-name", n.has_value() && *n == m.names[i], "id ", m.ids[i]);
    CHECK("present", t.present(m.names[i]) && t.present(m.ids[i]));
  }
  for (auto& s : others) {
    if (std::find(m.names.begin(), m.names.end(), s) != m.names.end())
      continue;
    CHECK("absent", !t.collectionID(s).has_value() && !t.present(s), "name ", s);
  }
  for (uint32_t x : {0u, 1u, 42u, 0xffffffffu, m.ids.empty() ? 7u : m.ids.back() + 1}) {
    if (std::find(m.ids.begin(), m.ids.end(), x) != m.ids.end())
      continue;
    CHECK("absent", !t.name(x).has_value() && !t.present(x), "id ", x);
  }
}
static std::vector<std::string> pool(Rng& r) {
  std::vector<std::string> p{"", "a", "b", "ab", "a ", "A", "hits", "hits2", std::string(1, '\0'), std::string("a\0b", 3), std::string(100, 'x')};
  for (int i = 0; i < 10; ++i)
    p.push_back(rstr(r, 20));
  return p;
}
static void seq(Rng& r) {
  auto p = pool(r);
  Model m;
  CollectionIDTable t;
  if (r.flip()) {
    size_t n = r(6);
    std::vector<uint32_t> ids;
    std::vector<std::string> ns;
    for (size_t i = 0; i < n; ++i) {
      auto s = r.pick(p);
      if (std::find(ns.begin(), ns.end(), s) != ns.end())
        continue;
      ns.push_back(s);
      ids.push_back(r.flip() ? uint32_t(ids.size() + (n > 3 ? 0 : 1)) : uint32_t(0x80000000u + r(1u << 30)) + uint32_t(ids.size()));
      for (size_t k = 0; k + 1 < ids.size(); ++k)
        if (ids[k] == ids.back()) {
          ids.pop_back();
          ns.pop_back();
          break;
        }
    }
    m.ids = ids;
    m.names = ns;
    log("from lists of ", ns.size());
    if (r.flip())
      t = CollectionIDTable(ids, ns);
    else
      t = CollectionIDTable(std::move(ids), std::move(ns));
    agree(t, m, p);
  }
  int k = 1 + r(25);
  for (int i = 0; i < k; ++i) {
    auto s = r.pick(p);
    log("add(", esc(s), ")");
    auto id = t.add(s);
    auto it = std::find(m.names.begin(), m.names.end(), s);
    if (it == m.names.end()) {
      if (std::find(m.ids.begin(), m.ids.end(), id) != m.ids.end())
        return; // a collision with a given ID list
      m.names.push_back(s);
      m.ids.push_back(id);
    } else {
      CHECK("re-register", id == m.ids[it - m.names.begin()], "got ", id);
    }
    agree(t, m, p);
    if (r.flip(8)) {
      log("move");
      CollectionIDTable u(std::move(t));
      agree(u, m, p);
      t = std::move(u);
    }
  }
}
// lookups behind many entries
static void large(Rng& r) {
  CollectionIDTable t;
  Model m;
  std::unordered_set<uint32_t> used;
  for (int i = 0; i < 600; ++i) {
    auto s = cat("coll_", i, "_", r(1000));
    auto id = t.add(s);
    if (!used.insert(id).second)
      return;
    m.names.push_back(s);
    m.ids.push_back(id);
  }
  log("600 names");
  agree(t, m, {});
}
// the known finding: two names with equal 32-bit hash
static void collision(Rng&) {
  CollectionIDTable t;
  const std::string a = "n40665", b = "n93112";
  auto ia = t.add(a), ib = t.add(b);
  log("add(", a, ") -> ", ia, ", add(", b, ") -> ", ib);
  if (ia == ib) {
    auto n = t.name(ib);
    CHECK("hash-collision", n.has_value() && *n == b, b, " has ID ", ib, " which maps back to ", n.value_or("nothing"));
  } else {
    CHECK("id-to-name", t.name(ia) == std::optional<const std::string>(a) && t.name(ib) == std::optional<const std::string>(b));
  }
}
int main(int argc, char** argv) {
  return run(argc, argv, {{"registrations", 400, seq}, {"large", 3, large}, {"collision", 1, collision}});
}
