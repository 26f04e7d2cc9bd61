#define H_COUNT_ALLOC
#include "h.h"
#include "podio/CollectionBufferFactory.h"
#include "podio/SchemaEvolution.h"
#include "podio/UserDataCollection.h"
#include "vmodel/ClusterCollection.h"
#include "vmodel/ClusterEnergeticLinkCollection.h"
#include "vmodel/HitClusterLinkCollection.h"
#include "vmodel/HitCollection.h"
#include "vmodel/HitHitLinkCollection.h"
#include "vmodel/InfoCollection.h"
#include "vmodel/PartCollection.h"
using namespace h;
using podio::CollectionReadBuffers;
struct Type {
  std::string name;
  std::function<void(CollectionReadBuffers&, size_t)> fill; // n objects
  size_t nrefs, nvec;                                        // lists of references, vector members
  unsigned version;
};
template <typename D> static void fillData(CollectionReadBuffers& b, size_t n) {
  b.dataAsVector<D>()->resize(n);
}
static std::vector<Type> types() {
  return {{std::string(HitCollection::typeName), fillData<HitData>, 0, 2, 3},
          {std::string(ClusterCollection::typeName), fillData<ClusterData>, 4, 0, 3},
          {std::string(ns::PartCollection::typeName), fillData<ns::PartData>, 2, 1, 3},
          {std::string(InfoCollection::typeName), fillData<InfoData>, 0, 0, 3},
          {std::string(HitClusterLinkCollection::typeName), fillData<podio::LinkData>, 2, 0, 1},
          {std::string(HitHitLinkCollection::typeName), fillData<podio::LinkData>, 2, 0, 1},
          {std::string(ClusterEnergeticLinkCollection::typeName), fillData<podio::LinkData>, 2, 0, 1},
          {podio::userDataCollTypeName<float>(), fillData<float>, 0, 0, 1},
          {podio::userDataCollTypeName<uint64_t>(), fillData<uint64_t>, 0, 0, 1},
          {podio::userDataCollTypeName<int8_t>(), fillData<int8_t>, 0, 0, 1}};
}
// what a slot is expected to hold
struct Slot {
  CollectionReadBuffers b;
  int type = -1; // empty
  bool subset = false;
  size_t n = 0;
  void *d = nullptr, *r = nullptr, *v = nullptr;
};
static void expect(const Slot& s, const std::vector<Type>& ts, const std::string& w) {
  CHECK("holds", s.b.data == s.d && s.b.references == s.r && s.b.vectorMembers == s.v, w);
  if (s.type < 0) {
    CHECK("empty", !s.b.data && !s.b.references && !s.b.vectorMembers && s.b.schemaVersion == 0 && s.b.type.empty(), w);
  } else {
    CHECK("type", s.b.type == ts[s.type].name && s.b.schemaVersion == ts[s.type].version, w, " ", s.b.type);
  }
}
static void forget(Slot& s) {
  s.type = -1;
  s.d = s.r = s.v = nullptr;
}
static void session(Rng& r) {
  static const auto ts = types();
  long before = live();
  {
    std::vector<Slot> slots(4);
    std::vector<std::unique_ptr<podio::CollectionBase>> colls;
    int steps = 3 + r(25);
    for (int k = 0; k < steps; ++k) {
      int op = r(8), i = r(slots.size()), j = r(slots.size());
      auto& s = slots[i];
      if (op < 3) {
        int t = r(ts.size());
        bool sub = r(3) == 0 && ts[t].name.find("UserData") == std::string::npos;
        size_t n = r(2) ? r(5) : r(400);
        log("create ", i, " ", ts[t].name, sub ? " subset " : " ", n);
        auto b = podio::CollectionBufferFactory::instance().createBuffers(ts[t].name, ts[t].version, sub);
        CHECK("created", b.has_value(), ts[t].name);
        if (!b)
          continue;
        CHECK("kind", (b->data == nullptr) == sub, ts[t].name, sub);
        if (b->references) {
          CHECK("references", b->references->size() == (sub ? 1 : ts[t].nrefs), ts[t].name, " ", b->references->size());
          for (auto& u : *b->references)
            u->resize(n);
        }
        if (b->vectorMembers)
          CHECK("vectors", b->vectorMembers->size() == (sub ? 0 : ts[t].nvec), ts[t].name);
        if (!sub) {
          ts[t].fill(*b, n);
          if (b->vectorMembers)
            for (auto& [name, p] : *b->vectorMembers) {
              CHECK("vector", p != nullptr, ts[t].name, " ", name);
              if (name == "int")
                static_cast<std::vector<int>*>(p)->resize(n + 3);
              else if (name == "double")
                static_cast<std::vector<double>*>(p)->resize(n + 3);
            }
        }
        s.d = b->data, s.r = b->references, s.v = b->vectorMembers;
        s.b = std::move(*b);
        s.type = t, s.subset = sub, s.n = n;
        CHECK("source", !b->data && !b->references && !b->vectorMembers && b->schemaVersion == 0 && b->type.empty(), "moved from");
      } else if (op == 3) {
        log("move ", i, " <- ", j);
        slots[i].b = std::move(slots[j].b);
        if (i != j) {
          slots[i].type = slots[j].type, slots[i].subset = slots[j].subset, slots[i].n = slots[j].n;
          slots[i].d = slots[j].d, slots[i].r = slots[j].r, slots[i].v = slots[j].v;
          forget(slots[j]);
        }
      } else if (op == 4) {
        log("move out and back ", i);
        CollectionReadBuffers tmp(std::move(s.b));
        CHECK("moved", tmp.data == s.d && tmp.references == s.r && tmp.vectorMembers == s.v, i);
        Slot e;
        e.b.data = s.b.data;
        CHECK("source", !s.b.data && !s.b.references && !s.b.vectorMembers && s.b.schemaVersion == 0 && s.b.type.empty(), "moved from");
        if (r(3))
          s.b = std::move(tmp);
        else
          forget(s);
      } else if (op == 5 && s.type >= 0) {
        log("collection from ", i);
        auto c = s.b.createCollection(std::move(s.b), s.subset);
        CHECK("collection", c && c->size() == (s.subset ? 0 : c->size()) && c->isSubsetCollection() == s.subset, ts[s.type].name);
        CHECK("taken", !s.b.data && (ts[s.type].name.find("UserData") != std::string::npos || (!s.b.references && !s.b.vectorMembers)), ts[s.type].name);
        c->setID(42);
        if (r(2)) {
          c->prepareAfterRead();
          CHECK("size", c->size() == (s.subset ? 0 : s.n), ts[s.type].name, " ", c->size(), " of ", s.n);
        }
        if (r(3))
          colls.push_back(std::move(c));
        s.d = s.r = s.v = nullptr;
        if (r(2)) {
          s.b = CollectionReadBuffers{};
          forget(s);
        } else {
          s.type = -2; // consumed: name and version may stay
          s.b = CollectionReadBuffers{};
          forget(s);
        }
      } else if (op == 6 && s.type >= 0) {
        log("evolve ", i);
        auto v = s.b.schemaVersion;
        CHECK("version", v == ts[s.type].version, v);
        auto name = std::string(s.b.type);
        auto b = podio::SchemaEvolution::instance().evolveBuffers(std::move(s.b), v, name);
        CHECK("evolved", b.data == s.d && b.references == s.r && b.vectorMembers == s.v, name);
        s.b = std::move(b);
      } else if (op == 7) {
        log("drop ", i);
        s.b = CollectionReadBuffers{};
        forget(s);
      }
      for (size_t x = 0; x < slots.size(); ++x)
        expect(slots[x], ts, cat("slot ", x));
    }
  }
  static bool warm = false; // what the first session sets up for good (the trace's own memory, say) is no leak
  if (warm)
    CHECK("leak", live() <= before, live() - before, " allocations left");
  warm = true;
}
// evolution by a function of the user that replaces the data
static int replaced = 0;
static CollectionReadBuffers replace(CollectionReadBuffers&& old, podio::SchemaVersionT) {
  ++replaced;
  auto* d = new std::vector<InfoData>(old.dataAsVector<float>()->size());
  for (size_t i = 0; i < d->size(); ++i)
    (*d)[i].number = int((*old.dataAsVector<float>())[i]);
  delete old.dataAsVector<float>();
  old.data = d;
  old.deleteBuffers = [](CollectionReadBuffers& b) {
    delete static_cast<std::vector<InfoData>*>(b.data);
    delete b.references;
    delete b.vectorMembers;
    b.data = nullptr, b.references = nullptr, b.vectorMembers = nullptr;
  };
  return std::move(old);
}
static void evolving(Rng& r) {
  static bool reg = [] {
    podio::SchemaEvolution::mutInstance().registerEvolutionFunc("InfoCollection", 1, 3, replace, podio::SchemaEvolution::Priority::UserDefined);
    return true;
  }();
  (void)reg;
  static std::string type = "InfoCollection";
  long before = live();
  {
    size_t n = r(300);
    log("evolve ", n);
    auto* data = new std::vector<float>(n);
    for (size_t i = 0; i < n; ++i)
      (*data)[i] = i * 3;
    CollectionReadBuffers b(data, new podio::CollRefCollection(), new podio::VectorMembersInfo(), 1, type, [](CollectionReadBuffers&& x, bool s) { return std::unique_ptr<podio::CollectionBase>(new InfoCollection(InfoCollectionData(std::move(x), s), s)); },
                            [](CollectionReadBuffers& x) {
                              delete static_cast<std::vector<float>*>(x.data);
                              delete x.references;
                              delete x.vectorMembers;
                              x.data = nullptr, x.references = nullptr, x.vectorMembers = nullptr;
                            });
    int calls = replaced;
    auto e = podio::SchemaEvolution::instance().evolveBuffers(std::move(b), 1, type);
    CHECK("evolved-once", replaced == calls + 1, replaced - calls);
    CHECK("evolved-size", e.dataAsVector<InfoData>()->size() == n, n);
    if (r(3)) {
      auto c = e.createCollection(std::move(e), false);
      c->setID(3);
      c->prepareAfterRead();
      auto& k = dynamic_cast<InfoCollection&>(*c);
      CHECK("evolved-data", k.size() == n, k.size());
      for (size_t i = 0; i < k.size(); ++i)
        CHECK("evolved-value", std::as_const(k)[i].number() == int(i * 3), i);
    }
  }
  CHECK("leak", live() <= before, live() - before, " allocations left");
}
int main(int argc, char** argv) {
  types();
  for (auto& t : types())
    podio::CollectionBufferFactory::instance().createBuffers(t.name, t.version, false);
  return run(argc, argv, {{"buffers", 3000, session}, {"evolution", 500, evolving}});
}
