#include "coll.h"
// a few collections that own their objects, next to a model of them
template <typename K> static void owning(Rng& r) {
  using C = typename K::C;
  using M = typename K::M;
  using T = typename K::T;
  constexpr int N = 3;
  struct W {
    std::unique_ptr<C> c;
    uint32_t id;
    std::vector<std::pair<M, int>> o;
  };
  W w[N];
  for (auto& x : w) {
    x.c = std::make_unique<C>();
    x.id = x.c->getID();
  }
  std::vector<std::pair<M, int>> loose;
  int next = 1;
  auto check = [&](W& x, const char* what) {
    CHECK("collection-id", x.c->getID() == x.id, what, " has ID ", x.c->getID(), ", expected ", x.id);
    CHECK("has-id", x.c->hasID() == (x.id != uint32_t(-1) && x.id != uint32_t(-2)));
    CHECK("not-subset", !x.c->isSubsetCollection());
    looks<K>(*x.c, x.o, what);
    const auto& k = *x.c;
    for (size_t i = 0; i < x.o.size(); ++i) {
      podio::ObjectID want{int(i), x.id};
      CHECK("object-id", k[i].getObjectID() == want && (*x.c)[i].getObjectID() == want && x.o[i].first.getObjectID() == want && k.at(i).id() == want, what, " object at ", i, " has ID ",
            k[i].getObjectID(), ", expected ", want);
      T t = x.o[i].first;
      CHECK("object-id", t.getObjectID() == want && t.id() == want);
    }
  };
  int steps = 3 + r(40);
  for (int s = 0; s < steps; ++s) {
    int i = r(N), j = r(N), k = r(14);
    auto &x = w[i], &y = w[j];
    if (k < 3) {
      int v = next++;
      log(K::name, " ", i, " create ", v);
      M m = r.flip() ? x.c->create() : K::make(*x.c, v);
      CHECK("created", m.isAvailable() && m.getObjectID() == (podio::ObjectID{int(x.o.size()), x.id}), "object ID ", m.getObjectID(), ", expected ", x.o.size(), "|", x.id);
      K::set(m, v);
      x.o.emplace_back(m, v);
    } else if (k < 5) {
      int v = next++;
      log(K::name, " ", i, " push_back new ", v);
      M m;
      K::set(m, v);
      CHECK("untracked", m.getObjectID() == podio::ObjectID{}, "");
      x.c->push_back(m);
      x.o.emplace_back(m, v);
      if (r.flip(3)) // the same object a second time is refused, wherever it goes
        THROWS("second-collection", y.c->push_back(m));
    } else if (k == 5) {
      int v = next++;
      log("loose ", v);
      M m;
      K::set(m, v);
      loose.emplace_back(m, v);
    } else if (k == 6 && !loose.empty()) {
      size_t l = r(loose.size());
      log(K::name, " ", i, " push_back loose ", loose[l].second);
      x.c->push_back(loose[l].first);
      x.o.push_back(loose[l]);
      loose.erase(loose.begin() + l);
    } else if (k == 7 && !y.o.empty()) {
      size_t l = r(y.o.size());
      log(K::name, " ", i, " push_back object ", l, " of ", j);
      THROWS("second-collection", x.c->push_back(y.o[l].first));
      T t = y.o[l].first;
      THROWS("immutable-into-owning", x.c->push_back(t));
      if (!loose.empty()) {
        T u = loose[0].first;
        THROWS("immutable-into-owning", x.c->push_back(u));
      }
    } else if (k == 8) {
      x.id = r.flip(5) ? uint32_t(-int(r(3))) : uint32_t(r.next() >> 32 >> r(31));
      log(K::name, " ", i, " setID ", x.id);
      static_cast<podio::CollectionBase&>(*x.c).setID(x.id);
    } else if (k == 9 && !x.o.empty()) {
      size_t l = r(x.o.size());
      int v = next++;
      log(K::name, " ", i, " change object ", l, " to ", v);
      if (r.flip())
        K::set((*x.c)[l], v);
      else
        K::set(x.o[l].first, v);
      x.o[l].second = v;
    } else if (k == 10 && r.flip(3)) {
      log(K::name, " ", i, " clear");
      x.o.clear();
      x.c->clear();
    } else if (k == 11 && i != j && r.flip()) {
      log(K::name, " ", i, " = move ", j);
      bool assign = r.flip();
      if (assign) {
        x.o.clear();
        *x.c = std::move(*y.c);
      } else {
        x.o.clear();
        x.c = std::make_unique<C>(std::move(*y.c));
      }
      x.id = y.id;
      x.o = y.o;
      y.o.clear();
      y.c = std::make_unique<C>();
      y.id = y.c->getID();
    } else if (k == 12 && !loose.empty()) {
      log(K::name, " ", i, " made from a range");
      std::list<M> l;
      x.o = loose;
      for (auto& m : loose)
        l.push_back(m.first);
      loose.clear();
      *x.c = C::from(l);
      x.id = x.c->getID();
    } else if (k == 13) {
      log(K::name, " ", i, " prepareForWrite");
      static_cast<const podio::CollectionBase&>(*x.c).prepareForWrite();
      (void)x.c->getBuffers();
      x.c->setSubsetCollection(false); // keeps its nature
      if (!x.o.empty())
        THROWS("subset-nature", x.c->setSubsetCollection(true));
    }
    check(x, "the changed collection");
    check(y, "another collection");
    for (auto& l : loose)
      CHECK("loose", l.first.getObjectID() == podio::ObjectID{} && K::get(l.first) == l.second, "");
  }
  for (auto& x : w)
    check(x, "at the end");
}
int main(int argc, char** argv) {
  return run(argc, argv, {{"Hit", 250, owning<HitT>}, {"Cluster", 250, owning<ClusterT>}, {"Part", 250, owning<PartT>}, {"Info", 250, owning<InfoT>}, {"link", 250, owning<LinkT>}});
}
