#define H_COUNT_ALLOC
#include "h.h"
#include "vmodel/ClusterCollection.h"
#include "vmodel/Energetic.h"
#include "vmodel/HitCollection.h"
#include "vmodel/InfoCollection.h"
#include <map>
#include <optional>
#include <unordered_set>
using namespace h;
// an object in the world, with the handles that refer to it
struct Obj {
  int type; // 0 Hit 1 Cluster 2 Info
  std::optional<MutableHit> h;
  std::optional<MutableCluster> c;
  std::optional<MutableInfo> i;
  double e = 0;
  podio::ObjectID id() const { return type == 0 ? h->id() : type == 1 ? c->id() : i->id(); }
};
struct World {
  HitCollection hits;
  ClusterCollection clusters;
  InfoCollection infos;
  std::vector<Obj> objs;
};
static Energetic makeFrom(const Obj& o, bool mut) {
  if (mut)
    return o.type == 0 ? Energetic(*o.h) : o.type == 1 ? Energetic(*o.c) : Energetic(*o.i);
  return o.type == 0 ? Energetic(Hit(*o.h)) : o.type == 1 ? Energetic(Cluster(*o.c)) : Energetic(Info(*o.i));
}
template <typename T, typename M> static void typed(const Energetic& e, bool is, const std::optional<M>& m, const std::string& w) {
  CHECK("isA", e.isA<T>() == is, w, " as ", T::typeName);
  if (is) {
    T t = e.as<T>();
    CHECK("as", m && t == *m && t.id() == m->id() && t.energy() == m->energy(), w);
  } else {
    bool thrown = false;
    try {
      (void)e.as<T>();
    } catch (const std::runtime_error&) {
      thrown = true;
    }
    CHECK("as-throws", thrown, w, " as ", T::typeName);
  }
}
static void look(const Energetic& e, const Obj& o, const std::string& w) {
  CHECK("available", e.isAvailable(), w);
  typed<Hit>(e, o.type == 0, o.h, w);
  typed<Cluster>(e, o.type == 1, o.c, w);
  typed<Info>(e, o.type == 2, o.i, w);
  CHECK("getter", e.energy() == o.e, w, " ", e.energy(), " for ", o.e);
  CHECK("id", e.id() == o.id() && e.getObjectID() == o.id(), w);
}
static void session(Rng& r) {
  long before = live();
  {
    World w;
    w.hits.setID(3);
    w.clusters.setID(5);
    w.infos.setID(9);
    int n = 1 + r(6);
    for (int k = 0; k < n; ++k) {
      Obj o;
      o.type = r(3);
      bool in = r(2);
      o.e = r(1000) / 8.;
      log("object ", o.type, in ? " in collection" : "");
      switch (o.type) {
      case 0:
        o.h = in ? w.hits.create() : MutableHit();
        o.h->energy(o.e);
        break;
      case 1:
        o.c = in ? w.clusters.create() : MutableCluster();
        o.c->energy(o.e);
        break;
      default:
        o.i = in ? w.infos.create() : MutableInfo();
        o.i->energy(o.e);
      }
      w.objs.push_back(std::move(o));
    }
    std::vector<Energetic> es;
    std::vector<int> who; // -1: empty
    int steps = 5 + r(30);
    for (int s = 0; s < steps; ++s) {
      int k = r(10);
      if (k < 3 || es.empty()) {
        int j = r(w.objs.size());
        bool m = r(2);
        log("make ", j, m ? " mutable" : "");
        es.push_back(makeFrom(w.objs[j], m));
        who.push_back(j);
      } else if (k == 3) {
        int i = r(es.size());
        log("copy ", i);
        Energetic c = es[i];
        es.push_back(std::move(c));
        who.push_back(who[i]);
      } else if (k == 4) {
        int i = r(es.size()), j = r(es.size());
        log("assign ", i, " = ", j);
        es[i] = es[j];
        who[i] = who[j];
      } else if (k == 5) {
        int i = r(es.size());
        int j = r(w.objs.size());
        log("assign object ", i, " = ", j);
        es[i] = makeFrom(w.objs[j], r(2));
        who[i] = j;
      } else if (k == 6) {
        log("empty");
        switch (r(4)) {
        case 0: es.push_back(Energetic::makeEmpty()); break;
        case 1: es.push_back(Energetic(Hit::makeEmpty())); break;
        case 2: es.push_back(Energetic(Cluster::makeEmpty())); break;
        default: es.push_back(Energetic(Info::makeEmpty()));
        }
        who.push_back(-1);
      } else if (k == 7) {
        int i = r(es.size());
        log("unlink ", i);
        es[i].unlink();
        who[i] = -1;
      } else if (k == 8) {
        int i = r(es.size());
        log("drop ", i);
        es.erase(es.begin() + i);
        who.erase(who.begin() + i);
      } else {
        int j = r(w.objs.size());
        auto& o = w.objs[j];
        o.e = r(1000) / 8.;
        log("change ", j);
        if (o.type == 0)
          o.h->energy(o.e);
        else if (o.type == 1)
          o.c->energy(o.e);
        else
          o.i->energy(o.e);
      }
      for (size_t i = 0; i < es.size(); ++i) {
        if (who[i] < 0) {
          CHECK("empty", !es[i].isAvailable(), "handle ", i);
          CHECK("empty-id", es[i].id() == podio::ObjectID{}, "handle ", i);
        } else {
          look(es[i], w.objs[who[i]], cat("handle ", i));
        }
      }
    }
    for (size_t i = 0; i < es.size(); ++i)
      for (size_t j = 0; j < es.size(); ++j) {
        if (who[i] < 0 || who[j] < 0) {
          CHECK("equal-empty", !(es[i] == es[j]) || (who[i] == who[j] && es[i].isA<Hit>() == es[j].isA<Hit>() && es[i].isA<Cluster>() == es[j].isA<Cluster>()), i, " ", j);
          continue;
        }
        bool same = who[i] == who[j];
        CHECK("equal", (es[i] == es[j]) == same && (es[i] != es[j]) == !same, i, " ", j);
        CHECK("order", !(es[i] < es[j] && es[j] < es[i]) && (es[i] < es[j] || es[j] < es[i]) == !same, i, " ", j);
        if (same)
          CHECK("hash", std::hash<Energetic>{}(es[i]) == std::hash<Energetic>{}(es[j]), i, " ", j);
      }
    // the handles keep free objects alive
    if (r(2)) {
      log("objects go first");
      std::vector<double> val;
      std::vector<int> free;
      for (size_t i = 0; i < es.size(); ++i) {
        val.push_back(who[i] < 0 ? 0 : w.objs[who[i]].e);
        free.push_back(who[i] >= 0 && w.objs[who[i]].id().index == -1);
      }
      w.objs.clear();
      for (size_t i = 0; i < es.size(); ++i)
        if (free[i])
          CHECK("alive", es[i].isAvailable() && es[i].energy() == val[i], i);
    }
  }
  CHECK("leak", live() <= before + 1, live() - before, " allocations left");
}
int main(int argc, char** argv) {
  { std::runtime_error warm("x"); }
  return run(argc, argv, {{"interface", 4000, session}});
}
