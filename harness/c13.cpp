#define H_COUNT_ALLOC
#include "h.h"
#include "podio/utilities/MaybeSharedPtr.h"
#include "vmodel/ClusterCollection.h"
#include "vmodel/HitCollection.h"
#include "vmodel/InfoCollection.h"
#include "vmodel/HitClusterLinkCollection.h"
#include "vmodel/PartCollection.h"
#include <optional>
using namespace h;

// --- MaybeSharedPtr against a counting model, with an object that records its life
static int alive, died;
struct Thing {
  int v;
  int* deaths;
  Thing(int x, int* d) : v(x), deaths(d) { alive++; }
  ~Thing() { alive--; (*deaths)++; }
};
using P = podio::utils::MaybeSharedPtr<Thing>;
static void maybe_shared(Rng& r) {
  constexpr int N = 6;
  std::optional<P> h[N];
  struct Ob { Thing* t; bool owned; int handles; bool released; };
  std::vector<Ob> obs;
  std::vector<int> deaths(64, 0);
  int of[N];
  std::fill(of, of + N, -1);
  auto drop = [&](int i) {
    if (of[i] >= 0)
      obs[of[i]].handles--;
    of[i] = -1;
  };
  int steps = 4 + r(40);
  for (int s = 0; s < steps; ++s) {
    int i = r(N), j = r(N), k = r(9);
    if (k < 3) { // create
      if (h[i] || obs.size() >= 60)
        continue;
      int v = obs.size();
      auto* t = new Thing(v, &deaths[v]);
      bool own = k < 2;
      log("h", i, " = ", own ? "owning" : "plain", " object ", v);
      own ? (void)h[i].emplace(t, podio::utils::MarkOwned) : (void)h[i].emplace(t);
      of[i] = v;
      obs.push_back({t, own, 1, false});
    } else if (k == 3 && h[j] && !h[i]) {
      log("h", i, " copy of h", j);
      h[i].emplace(*h[j]);
      of[i] = of[j];
      if (of[i] >= 0)
        obs[of[i]].handles++;
    } else if (k == 4 && h[j] && !h[i]) {
      log("h", i, " moved from h", j);
      h[i].emplace(std::move(*h[j]));
      of[i] = of[j];
      of[j] = -1;
      CHECK("moved-from", !*h[j], "");
    } else if (k == 5 && h[i] && h[j]) {
      log("h", i, " = h", j);
      *h[i] = *h[j];
      if (i != j) {
        drop(i);
        of[i] = of[j];
        if (of[i] >= 0)
          obs[of[i]].handles++;
      }
    } else if (k == 6 && h[i] && h[j] && i != j) {
      log("h", i, " = move h", j);
      *h[i] = std::move(*h[j]);
      drop(i);
      of[i] = of[j];
      of[j] = -1;
    } else if (k == 7 && h[i]) {
      if (r.flip(3)) {
        log("release h", i);
        auto* t = h[i]->release();
        if (of[i] >= 0) {
          CHECK("release-result", t == obs[of[i]].t, "");
          obs[of[i]].owned = false;
          obs[of[i]].released = true;
        }
      } else if (h[j]) {
        log("swap h", i, " h", j);
        swap(*h[i], *h[j]);
        std::swap(of[i], of[j]);
      }
    } else if (k == 8 && h[i]) {
      log("destroy h", i);
      h[i].reset();
      drop(i);
    }
    for (int n = 0; n < N; ++n)
      if (h[n]) {
        CHECK("handle-object", h[n]->get() == (of[n] >= 0 ? obs[of[n]].t : nullptr), "handle ", n);
        CHECK("handle-truth", bool(*h[n]) == (of[n] >= 0), "");
        if (of[n] >= 0)
          CHECK("object-unchanged", (*h[n])->v == of[n], ""); // reads a freed object if it is gone
      }
    for (size_t o = 0; o < obs.size(); ++o)
      CHECK("freed-with-last-handle", deaths[o] == (obs[o].owned && obs[o].handles == 0 ? 1 : 0), "object ", o, " destroyed ", deaths[o], " times, handles ", obs[o].handles);
  }
  for (int i = 0; i < N; ++i) {
    h[i].reset();
    drop(i);
  }
  for (size_t o = 0; o < obs.size(); ++o) {
    CHECK("freed-with-last-handle", deaths[o] == (obs[o].owned ? 1 : 0), "object ", o);
    if (!obs[o].owned)
      delete obs[o].t;
  }
  CHECK("no-leak", alive == 0, "");
}

// --- handles of generated types and links: values stay as long as a handle or the collection is there
template <typename T, typename M, typename C, typename Set, typename Get> static void generated(Rng& r, const char* what, Set set, Get get) {
  long before = live();
  {
    // declared so that in some cases the collection outlives the handles and in others not
    auto coll = std::make_unique<C>();
    std::vector<M> mut;
    std::vector<int> mv; // value of each handle's object (0: empty)
    std::vector<T> imm;
    std::vector<int> iv;
    std::set<int> incoll;
    int next = 1;
    int steps = 3 + r(30);
    auto ok = [&](int v) { return v == 0 || !incoll.count(v) || coll; };
    for (int s = 0; s < steps; ++s) {
      int k = r(12);
      if (k < 2) {
        M m = (k || !coll) ? M() : coll->create();
        if (!k && coll)
          incoll.insert(next);
        log(what, " new ", next, k || !coll ? "" : " in collection");
        set(m, next);
        mut.push_back(m);
        mv.push_back(next++);
      } else if (k == 2 && !mut.empty()) {
        auto j = r(mut.size());
        log("copy ", j);
        auto c = mut[j];
        mut.push_back(c);
        mv.push_back(mv[j]);
      } else if (k == 3 && !mut.empty()) {
        auto j = r(mut.size());
        log("immutable ", j);
        imm.push_back(mut[j]);
        iv.push_back(mv[j]);
      } else if (k == 4 && !mut.empty()) {
        auto i = r(mut.size()), j = r(mut.size());
        log("assign ", i, " = ", j);
        mut[i] = mut[j];
        mv[i] = mv[j];
      } else if (k == 5 && !imm.empty()) {
        auto i = r(imm.size()), j = r(imm.size());
        log("assign immutable ", i, " = ", j);
        imm[i] = imm[j];
        iv[i] = iv[j];
      } else if (k == 6 && !mut.empty()) {
        auto i = r(mut.size());
        log("destroy ", i);
        mut.erase(mut.begin() + i);
        mv.erase(mv.begin() + i);
      } else if (k == 7 && !imm.empty()) {
        auto i = r(imm.size());
        log("destroy immutable ", i);
        imm.erase(imm.begin() + i);
        iv.erase(iv.begin() + i);
      } else if (k == 8 && !mut.empty() && coll) {
        auto i = r(mut.size());
        if (mv[i] && !incoll.count(mv[i])) {
          log("push_back ", i);
          coll->push_back(mut[i]);
          incoll.insert(mv[i]);
          CHECK("handed-over", get((*std::as_const(coll))[coll->size() - 1]) == mv[i], "");
        }
      } else if (k == 9 && !imm.empty()) {
        auto i = r(imm.size());
        log("unlink immutable ", i);
        imm[i].unlink();
        iv[i] = 0;
      } else if (k == 10 && !mut.empty()) {
        auto i = r(mut.size()), j = r(mut.size());
        log("swap ", i, " ", j);
        using std::swap;
        swap(mut[i], mut[j]);
        std::swap(mv[i], mv[j]);
      } else if (k == 11 && !imm.empty()) {
        auto i = r(imm.size());
        log("move immutable ", i);
        T t = std::move(imm[i]);
        imm[i] = std::move(t);
      }
      if (coll && r.flip(12)) {
        // the collection goes; its objects may not be touched any more, the handles may be destroyed
        log("collection destroyed");
        coll.reset();
      }
      for (size_t i = 0; i < mut.size(); ++i)
        if (ok(mv[i]))
          CHECK("value-kept", get(mut[i]) == mv[i], "handle ", i);
      for (size_t i = 0; i < imm.size(); ++i) {
        CHECK("availability", imm[i].isAvailable() == (iv[i] != 0) , "");
        if (iv[i] && ok(iv[i]))
          CHECK("value-kept", get(imm[i]) == iv[i], "immutable handle ", i);
      }
      if (coll) {
        CHECK("collection-size", coll->size() == incoll.size(), "");
        std::multiset<int> seen;
        for (const auto& x : *coll)
          seen.insert(get(x));
        CHECK("collection-objects", seen == std::multiset<int>(incoll.begin(), incoll.end()), "");
      }
    }
    if (r.flip())
      coll.reset();
    if (r.flip())
      mut.clear();
  }
  CHECK("no-leak", live() == before || live() == before + 1 /* trace string */, "heap blocks before ", before, " after ", live());
}
int main(int c, char** v) {
  auto num = [](auto& m, int x) { m.number(x); };
  auto gnum = [](const auto& m) { return m.number(); };
  auto en = [](auto& m, int x) { m.energy(x); };
  auto gen = [](const auto& m) { return int(m.energy()); };
  auto part = [](auto& m, int x) { m.energy(x); m.addw(x); m.addw(2 * x); };
  auto gpart = [](const auto& m) { return int(m.energy()) + (m.energy() && (m.w().size() != 2 || m.w(1) != 2 * m.energy()) ? 1000 : 0); };
  auto hit = [](auto& m, int x) { m.energy(x); m.addcounts(x); };
  auto ghit = [](const auto& m) { return m.counts().size() == 1 && m.counts(0) == m.energy() ? int(m.energy()) : 5000; };
  auto lw = [](auto& m, int x) { m.setWeight(x); };
  auto glw = [](const auto& m) { return int(m.getWeight()); };
  return run(c, v,
             {{"MaybeSharedPtr", 4000, maybe_shared},
              {"Info handles", 500, [=](Rng& r) { generated<Info, MutableInfo, InfoCollection>(r, "Info", num, gnum); }},
              {"Cluster handles", 400, [=](Rng& r) { generated<Cluster, MutableCluster, ClusterCollection>(r, "Cluster", en, gen); }},
              {"Part handles", 400, [=](Rng& r) { generated<ns::Part, ns::MutablePart, ns::PartCollection>(r, "Part", part, gpart); }},
              {"Hit handles", 400, [=](Rng& r) { generated<Hit, MutableHit, HitCollection>(r, "Hit", hit, ghit); }},
              {"link handles", 400, [=](Rng& r) { generated<HitClusterLink, MutableHitClusterLink, HitClusterLinkCollection>(r, "link", lw, glw); }}});
}
