#define H_COUNT_ALLOC
#include "coll.h"
// subset collections next to the collections that own the objects
template <typename K> static void subsets(Rng& r) {
  using C = typename K::C;
  using M = typename K::M;
  using T = typename K::T;
  long before = live();
  {
    constexpr int N = 2;
    struct W {
      C c;
      uint32_t id = 0;
      std::vector<std::pair<M, int>> o;
    };
    W own[N];
    for (int i = 0; i < N; ++i) {
      own[i].id = 10 + i;
      own[i].c.setID(own[i].id);
    }
    struct S {
      std::unique_ptr<C> c;
      uint32_t id;
      std::vector<std::pair<int, int>> o; // owner and position
    };
    S sub[N];
    for (auto& s : sub) {
      s.c = std::make_unique<C>();
      s.c->setSubsetCollection();
      s.id = s.c->getID();
    }
    int next = 1;
    auto check = [&](const char* what) {
      for (auto& w : own) {
        looks<K>(w.c, w.o, "owning collection");
        for (size_t i = 0; i < w.o.size(); ++i)
          CHECK("owner-id", w.c[i].getObjectID() == (podio::ObjectID{int(i), w.id}), what, ": object ", i, " has ID ", w.c[i].getObjectID());
      }
      for (auto& s : sub) {
        CHECK("is-subset", s.c->isSubsetCollection() && s.c->getID() == s.id, what);
        std::vector<std::pair<M, int>> want;
        for (auto [o, p] : s.o)
          want.push_back(own[o].o[p]);
        looks<K>(*s.c, want, "subset collection");
        for (size_t i = 0; i < s.o.size(); ++i) {
          podio::ObjectID id{s.o[i].second, own[s.o[i].first].id};
          CHECK("subset-object-id", std::as_const(*s.c)[i].getObjectID() == id && s.c->at(i).getObjectID() == id, what, ": element ", i, " has ID ", s.c->at(i).getObjectID(), ", expected ", id);
        }
      }
    };
    int steps = 3 + r(30);
    for (int st = 0; st < steps; ++st) {
      int i = r(N), j = r(N), k = r(14);
      auto& w = own[i];
      auto& s = sub[j];
      if (k < 3) {
        int v = next++;
        log(K::name, " owner ", i, " create ", v);
        M m = w.c.create();
        K::set(m, v);
        w.o.emplace_back(m, v);
      } else if (k < 6 && !w.o.empty()) {
        size_t p = r(w.o.size());
        int how = r(4);
        log("subset ", j, " push_back object ", p, " of owner ", i, " as ", how);
        if (how == 0)
          s.c->push_back(w.o[p].first); // mutable
        else if (how == 1)
          s.c->push_back(T(w.o[p].first));
        else if (how == 2)
          s.c->push_back(w.c[p]);
        else
          s.c->push_back(std::as_const(w.c)[p]);
        s.o.emplace_back(i, p);
      } else if (k == 6) {
        log("subset ", j, " create or push_back of an object without owner");
        THROWS("create-in-subset", s.c->create());
        THROWS("create-in-subset", (void)K::make(*s.c, 3));
        M m;
        K::set(m, 5);
        THROWS("untracked-into-subset", s.c->push_back(m));
        T t = m;
        THROWS("untracked-into-subset", s.c->push_back(t));
        auto cl = m.clone();
        THROWS("untracked-into-subset", s.c->push_back(cl));
        CHECK("untracked-unchanged", m.getObjectID() == podio::ObjectID{} && K::get(m) == 5, "");
      } else if (k == 7 && !s.o.empty()) {
        log("owner ", i, " push_back of an object of subset ", j);
        size_t p = r(s.o.size());
        THROWS("subset-object-into-owning", w.c.push_back((*s.c)[p]));
        THROWS("subset-object-into-owning", w.c.push_back(std::as_const(*s.c)[p]));
        THROWS("subset-nature", s.c->setSubsetCollection(false));
        s.c->setSubsetCollection(true);
        if (!w.o.empty())
          THROWS("subset-nature", w.c.setSubsetCollection(true));
      } else if (k == 8 && !s.o.empty()) {
        size_t p = r(s.o.size());
        int v = next++;
        log("subset ", j, " element ", p, " set to ", v);
        K::set((*s.c)[p], v);
        own[s.o[p].first].o[s.o[p].second].second = v;
      } else if (k == 9 && r.flip()) {
        log("subset ", j, " clear");
        s.c->clear();
        s.o.clear();
      } else if (k == 10 && r.flip()) {
        bool fresh = r.flip();
        log("subset ", j, fresh ? " destroyed" : " emptied and turned into an owning collection");
        s.o.clear();
        if (fresh) {
          s.c = std::make_unique<C>();
          s.c->setSubsetCollection();
        } else {
          s.c->clear();
          if (r.flip(4)) {
            // it may have been prepared for writing while it was a subset collection
            s.c->prepareForWrite();
            s.c->setSubsetCollection(false);
            CHECK("owning-again", s.c->getBuffers().data, "no data buffer");
            s.c->clear();
          }
          s.c->setSubsetCollection(false);
          CHECK("subset-nature", !s.c->isSubsetCollection());
          auto m = s.c->create();
          K::set(m, 4);
          CHECK("owning-again", s.c->size() == 1 && m.getObjectID() == (podio::ObjectID{0, s.id}), "");
          s.c->prepareForWrite();
          CHECK("owning-again", s.c->getBuffers().data && K::get((*s.c)[0]) == 4);
          THROWS("subset-nature", s.c->setSubsetCollection(true));
          s.c->clear();
          s.c->setSubsetCollection(true);
        }
        s.id = s.c->getID();
      } else if (k == 10) {
        log("an owning collection moved into subset ", j, " and a subset collection back");
        s.o.clear();
        C o;
        int n = r(4);
        for (int q = 0; q < n; ++q)
          K::set(o.create(), 7 + q);
        const auto id = uint32_t(r.next() >> 32);
        o.setID(id);
        *s.c = std::move(o);
        CHECK("moved-in", !s.c->isSubsetCollection() && int(s.c->size()) == n && s.c->getID() == id, "size ", s.c->size(), " subset ", s.c->isSubsetCollection());
        for (int q = 0; q < n; ++q)
          CHECK("moved-in", K::get((*s.c)[q]) == 7 + q && (*s.c)[q].getObjectID() == (podio::ObjectID{q, id}));
        C e;
        e.setSubsetCollection();
        *s.c = std::move(e);
        CHECK("moved-in", s.c->isSubsetCollection() && s.c->empty());
        s.id = s.c->getID();
      } else if (k == 11) {
        s.id = uint32_t(r.next() >> 32);
        log("subset ", j, " setID ", s.id);
        s.c->setID(s.id);
      } else if (k == 12 && i != j) {
        log("subset moved");
        auto& t = sub[i];
        t.o = s.o;
        t.id = s.id;
        if (r.flip())
          *t.c = std::move(*s.c);
        else
          t.c = std::make_unique<C>(std::move(*s.c));
        s.o.clear();
        s.c = std::make_unique<C>();
        s.c->setSubsetCollection(true);
        s.id = s.c->getID();
      } else if (k == 13 && !w.o.empty()) {
        log("subset ", j, " made from a range of owner ", i);
        std::vector<T> l;
        s.o.clear();
        for (int n = r(5); n > 0; --n) {
          size_t p = r(w.o.size());
          l.push_back(std::as_const(w.c)[p]);
          s.o.emplace_back(i, p);
        }
        *s.c = C::from(l);
        s.id = s.c->getID();
      } else if (k == 3) {
        w.id = uint32_t(r.next() >> 32);
        log("owner ", i, " setID ", w.id);
        w.c.setID(w.id);
      }
      check("after the step");
      if (r.flip(10)) {
        for (auto& x : sub) {
          x.c->prepareForWrite();
          auto b = x.c->getBuffers();
          CHECK("subset-buffers", !b.data && b.references && b.references->size() == 1);
        }
        check("after preparing");
      }
    }
    log("end");
    for (auto& s : sub)
      s.c.reset();
    for (auto& w : own) {
      looks<K>(w.c, w.o, "owning collection after the subsets are gone");
    }
  }
  CHECK("no-leak", live() <= before + 1, live() - before, " heap blocks more than before");
}
int main(int argc, char** argv) {
  return run(argc, argv, {{"Hit", 120, subsets<HitT>}, {"Cluster", 120, subsets<ClusterT>}, {"Part", 120, subsets<PartT>}, {"Info", 120, subsets<InfoT>}, {"link", 120, subsets<LinkT>}});
}
