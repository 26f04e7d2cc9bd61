#define H_COUNT_ALLOC
#include "h.h"
#include "podio/CollectionBufferFactory.h"
#include "podio/SchemaEvolution.h"
#include "podio/UserDataCollection.h"
#include <limits>
#include <list>
#include <tuple>
using namespace h;

template <typename T> static T value(Rng& r) {
  switch (r(6)) {
  case 0: return std::numeric_limits<T>::max();
  case 1: return std::numeric_limits<T>::lowest();
  case 2: return T(0);
  default: return static_cast<T>(static_cast<int64_t>(r.next() >> r(60)));
  }
}
template <typename T> using C = podio::UserDataCollection<T>;

template <typename T> static void same(C<T>& c, const std::vector<T>& m, uint32_t id, const char* what) {
  const auto& k = c;
  CHECK("size", c.size() == m.size() && c.empty() == m.empty() && static_cast<const podio::CollectionBase&>(c).size() == m.size(), what, ": ", c.size(), " values, expected ", m.size());
  for (size_t i = 0; i < m.size(); ++i) {
    CHECK("values", k[i] == m[i] && c[i] == m[i] && k.at(i) == m[i] && c.at(i) == m[i] && &c[i] == &k[i] && &c.at(i) == &c[i] && &k.at(i) == &c[i], what, " at ", i);
  }
  size_t i = 0;
  for (auto x : k)
    CHECK("iteration", i < m.size() && x == m[i++], what);
  CHECK("iteration", i == m.size(), what);
  i = 0;
  for (auto& x : c)
    CHECK("iteration", i < m.size() && &x == &c[i++], what);
  CHECK("iteration", i == m.size() && size_t(c.end() - c.begin()) == m.size() && size_t(k.end() - k.begin()) == m.size() && size_t(c.cend() - c.cbegin()) == m.size(), what);
  CHECK("reverse", std::equal(c.rbegin(), c.rend(), m.rbegin(), m.rend()) && std::equal(k.rbegin(), k.rend(), m.rbegin(), m.rend()) && std::equal(k.crbegin(), k.crend(), m.rbegin(), m.rend()), what);
  for (size_t j : {m.size(), m.size() + 1, size_t(-1), size_t(1) << 32}) {
    if (j < m.size())
      continue;
    THROWS("at", c.at(j));
    THROWS("at", k.at(j));
  }
  CHECK("vec", c.vec() == m && k.vec() == m && &c.vec() == &k.vec(), what);
  CHECK("id", c.getID() == id, what, ": ID ", c.getID(), ", expected ", id);
  CHECK("id", c.hasID() == (id != uint32_t(-1) && id != uint32_t(-2)));
  CHECK("subset", !c.isSubsetCollection(), what);
}
template <typename T> static void buffers(C<T>& c, const std::vector<T>& m) {
  c.prepareForWrite();
  auto b = c.getBuffers();
  auto* v = b.template dataAsVector<T>();
  auto* pv = b.vecPtr ? static_cast<std::vector<T>*>(b.vecPtr) : nullptr;
  CHECK("buffers", b.data && *static_cast<std::vector<T>**>(b.data) == &c.vec() && pv == &c.vec() && v == &c.vec() && *v == m, "");
  CHECK("buffers", b.references && b.references->empty() && b.vectorMembers && b.vectorMembers->empty());
}
template <typename T> static void ops(Rng& r) {
  constexpr int N = 3;
  std::unique_ptr<C<T>> c[N];
  std::vector<T> m[N];
  uint32_t id[N];
  for (int i = 0; i < N; ++i) {
    c[i] = std::make_unique<C<T>>();
    id[i] = c[i]->getID();
  }
  int steps = 3 + r(30);
  for (int s = 0; s < steps; ++s) {
    int i = r(N), j = r(N), k = r(13);
    if (k < 3) {
      T x = value<T>(r);
      log(i, " push ", +x);
      if (r.flip(4) && !m[i].empty()) {
        size_t p = r(m[i].size());
        c[i]->push_back((*c[i])[p]); // an element of itself
        m[i].push_back(T(m[i][p]));
      } else {
        c[i]->push_back(x);
        m[i].push_back(x);
      }
    } else if (k == 3) {
      log(i, " create");
      T& x = c[i]->create();
      CHECK("create", x == T(0) && &x == &c[i]->vec().back());
      if (r.flip()) {
        x = value<T>(r);
        log("set to ", +x);
      }
      m[i].push_back(x);
    } else if (k == 4) {
      size_t n = r.flip(3) ? 0 : r(20);
      log(i, " resize ", n);
      c[i]->resize(n);
      m[i].resize(n);
    } else if (k == 5 && r.flip(3)) {
      log(i, " clear");
      c[i]->clear();
      m[i].clear();
    } else if (k == 6 && i != j) {
      log(i, " = move ", j);
      *c[i] = std::move(*c[j]);
      m[i] = std::move(m[j]);
      m[j].clear();
      id[i] = id[j];
      CHECK("moved-from", c[j]->empty() && c[j]->size() == 0);
      id[j] = c[j]->getID();
    } else if (k == 7 && i != j) {
      log(i, " constructed by moving ", j);
      c[i] = std::make_unique<C<T>>(std::move(*c[j]));
      m[i] = std::move(m[j]);
      m[j].clear();
      id[i] = id[j];
      CHECK("moved-from", c[j]->empty());
      id[j] = c[j]->getID();
    } else if (k == 8) {
      std::vector<T> v;
      for (int n = r(9); n > 0; --n)
        v.push_back(value<T>(r));
      int kind = r(4);
      log(i, " made from ", v.size(), " values, kind ", kind);
      m[i] = v;
      if (kind == 0)
        c[i] = std::make_unique<C<T>>(std::vector<T>(v));
      else if (kind == 1)
        c[i] = std::make_unique<C<T>>(C<T>::from(v));
      else if (kind == 2)
        c[i] = std::make_unique<C<T>>(C<T>::from(std::list<T>(v.begin(), v.end())));
      else
        *c[i] = C<T>::from(std::move(v));
      id[i] = c[i]->getID();
    } else if (k == 9) {
      id[i] = r.flip(4) ? uint32_t(-int(r(3))) : uint32_t(r.next());
      log(i, " setID ", id[i]);
      c[i]->setID(id[i]);
    } else if (k == 10) {
      log(i, " buffers");
      buffers(*c[i], m[i]);
    } else if (k == 11 && !m[i].empty()) {
      size_t p = r(m[i].size());
      T x = value<T>(r);
      log(i, " [", p, "] = ", +x);
      if (r.flip())
        (*c[i])[p] = x;
      else
        c[i]->at(p) = x;
      m[i][p] = x;
    } else if (k == 12) {
      c[i]->setSubsetCollection(r.flip());
      c[i]->prepareForWrite();
      c[i]->prepareAfterRead();
      CHECK("references", c[i]->setReferences(nullptr));
    }
    same(*c[i], m[i], id[i], "changed");
    same(*c[j], m[j], id[j], "other");
  }
  for (int i = 0; i < N; ++i)
    buffers(*c[i], m[i]);
}
template <typename T> static void reading(Rng& r) {
  std::vector<T> v;
  for (int n = r(12); n > 0; --n)
    v.push_back(value<T>(r));
  long l0 = live();
  bool sub = r.flip(5), evolve = r.flip(), take = r.flip(4) == false;
  log(C<T>::typeName, " ", v.size(), " values read back");
  {
    auto b = podio::CollectionBufferFactory::instance().createBuffers(std::string(C<T>::typeName), C<T>::schemaVersion, sub);
    CHECK("factory", b.has_value());
    CHECK("factory", b->type == C<T>::typeName && b->schemaVersion == C<T>::schemaVersion && b->data);
    auto* d = b->template dataAsVector<T>();
    CHECK("factory", d && d->empty());
    *d = v;
    podio::CollectionReadBuffers eb = std::move(*b);
    CHECK("moved-from", !b->data);
    if (evolve)
      eb = podio::SchemaEvolution::instance().evolveBuffers(std::move(eb), C<T>::schemaVersion, std::string(C<T>::typeName));
    CHECK("evolve", eb.data == d);
    if (take) {
      auto c = eb.createCollection(std::move(eb), sub);
      CHECK("type", c && c->getTypeName() == C<T>::typeName && c->getSchemaVersion() == C<T>::schemaVersion);
      auto* cc = dynamic_cast<C<T>*>(c.get());
      CHECK("type", cc);
      c->prepareAfterRead();
      c->setID(77);
      CHECK("references", c->setReferences(nullptr));
      same(*cc, v, 77, "read back");
      buffers(*cc, v);
      eb.data = nullptr;
    } else {
      eb.deleteBuffers(eb);
    }
  }
  CHECK("leak", live() == l0, live() - l0, " blocks are still allocated");
}
template <typename T> static void both(Rng& r) {
  r.flip(3) ? reading<T>(r) : ops<T>(r);
}
int main(int argc, char** argv) {
  // the operations are one template, so a selection of types is enough here; all of them are read back
  return run(argc, argv, {{"float", 150, both<float>}, {"double", 60, reading<double>}, {"int8_t", 150, both<int8_t>}, {"int16_t", 60, reading<int16_t>}, {"int32_t", 60, reading<int32_t>},
                          {"int64_t", 60, reading<int64_t>}, {"uint8_t", 60, reading<uint8_t>}, {"uint16_t", 60, reading<uint16_t>}, {"uint32_t", 60, reading<uint32_t>}, {"uint64_t", 150, both<uint64_t>}});
}
