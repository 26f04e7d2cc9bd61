#include "h.h"
#include "podio/CollectionBufferFactory.h"
#include "vmodel/ClusterCollection.h"
#include "vmodel/HitCollection.h"
#include "vmodel/HitHitLinkCollection.h"
#include "podio/UserDataCollection.h"
using namespace h;
using podio::CollectionBufferFactory;
static int ncalls = 0, lastfn = 0;
static bool lastsub = false;
static int marks[100000];
// the factory is a singleton: every case uses type names of its own
static void seq(Rng& r) {
  static int caseno = 0;
  ++caseno;
  auto& f = CollectionBufferFactory::mutInstance();
  std::map<std::string, std::vector<int>> model;
  static int nextfn = 0;
  int k = 1 + r(14);
  auto check = [&]() {
    for (int t = 0; t < 3; ++t) {
      auto name = cat("T", caseno, "_", t, t == 2 ? "Collection" : "");
      auto it = model.find(name);
      for (unsigned v = 0; v < 9; ++v)
        for (bool sub : {false, true}) {
          ncalls = 0;
          auto b = CollectionBufferFactory::instance().createBuffers(name, v, sub);
          bool known = it != model.end() && v > 0 && v <= it->second.size();
          CHECK("known", b.has_value() == known, "type ", t, " version ", v);
          if (known) {
            CHECK("exact-function", ncalls == 1 && lastfn == it->second[v - 1], "version ", v, " called ", lastfn, " expected ", it->second[v - 1]);
            CHECK("subset-flag", lastsub == sub);
            CHECK("result", b->data == (void*)&marks[lastfn] && b->schemaVersion == 1000u + lastfn && b->type == "mark");
            CHECK("result", bool(b->deleteBuffers) == false && bool(b->createCollection));
          } else {
            CHECK("known", ncalls == 0);
          }
        }
    }
  };
  for (int i = 0; i < k; ++i) {
    auto name = cat("T", caseno, "_", r(3));
    if (name.back() == '2')
      name += "Collection";
    unsigned v = 1 + r(7);
    int fn = (nextfn = (nextfn + 1) % 100000);
    log("register ", name.substr(name.find('_')), " v", v, " f", fn);
    f.registerCreationFunc(name, v, [fn](bool sub) {
      ++ncalls;
      lastfn = fn;
      lastsub = sub;
      podio::CollectionReadBuffers b;
      b.data = &marks[fn];
      b.schemaVersion = 1000 + fn;
      b.type = "mark";
      b.createCollection = [](podio::CollectionReadBuffers&&, bool) { return std::unique_ptr<podio::CollectionBase>(); };
      return b;
    });
    auto& m = model[name];
    while (m.size() < v)
      m.push_back(fn);
    m[v - 1] = fn;
    check();
  }
}
static void real(Rng&) {
  auto& f = CollectionBufferFactory::instance();
  log("generated and library types");
  for (auto t : {"HitCollection", "ClusterCollection", "ns::PartCollection", "InfoCollection"}) {
    CHECK("registered", !f.createBuffers(t, 0, false) && !f.createBuffers(t, 4, false) && f.createBuffers(t, 3, false).has_value(), t);
    for (bool sub : {false, true}) {
      auto b = f.createBuffers(t, 3, sub);
      CHECK("registered", b->type == t && b->schemaVersion == 3, t);
      CHECK("registered", (b->data == nullptr) == sub && b->references && b->vectorMembers, t);
      auto c = b->createCollection(std::move(*b), sub);
      CHECK("registered", c->isSubsetCollection() == sub && c->getTypeName() == t && c->size() == 0, t);
    }
  }
  CHECK("registered", !f.createBuffers("", 1, false) && !f.createBuffers("Hit", 3, false) && !f.createBuffers("hitCollection", 3, false));
  auto b = f.createBuffers("podio::UserDataCollection<int32_t>", 1, false);
  CHECK("registered", b.has_value() && b->data != nullptr && !f.createBuffers("podio::UserDataCollection<int32_t>", 2, false));
}
int main(int argc, char** argv) { return run(argc, argv, {{"registrations", 150, seq}, {"real", 1, real}}); }
