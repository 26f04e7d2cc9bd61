#include "h.h"
#include "podio/ObjectID.h"
#include "vmodel/ClusterCollection.h"
#include "vmodel/ClusterEnergeticLinkCollection.h"
#include "vmodel/Energetic.h"
#include "vmodel/HitCollection.h"
#include "vmodel/HitHitLinkCollection.h"
#include "vmodel/InfoCollection.h"
#include "vmodel/PartCollection.h"
using namespace h;
// handles of one type together with the identity of the object they refer to
template <typename T, typename M, typename C> static void handles(Rng& r, const char* what) {
  C coll, sub;
  sub.setSubsetCollection();
  coll.setID(7);
  std::vector<M> mut;
  std::vector<T> imm;
  std::vector<int> mo, io; // object number of every handle
  int nobj = 0;
  int n = 2 + r(12);
  for (int i = 0; i < n; ++i) {
    int k = r(8);
    if (k < 3 || mut.empty()) {
      log(what, " create ", k);
      if (k == 0)
        mut.push_back(coll.create());
      else
        mut.push_back(M());
      mo.push_back(nobj++);
      if (k == 1) {
        coll.push_back(mut.back());
      }
    } else if (k == 3) {
      auto j = r(mut.size());
      log("copy mutable ", j);
      auto m = mut[j];
      mut.push_back(m);
      mo.push_back(mo[j]);
    } else if (k == 4) {
      auto j = r(mut.size());
      log("to immutable ", j);
      imm.push_back(T(mut[j]));
      io.push_back(mo[j]);
    } else if (k == 5 && !imm.empty()) {
      auto j = r(imm.size());
      log("copy immutable ", j);
      auto t = imm[j];
      imm.push_back(t);
      io.push_back(io[j]);
    } else if (k == 6) {
      auto j = r(mut.size());
      log("clone ", j);
      mut.push_back(mut[j].clone());
      mo.push_back(nobj++);
    } else if (k == 7) {
      // found again through the collection
      for (size_t j = 0; j < mut.size(); ++j)
        for (size_t c = 0; c < coll.size(); ++c)
          if (coll[c] == mut[j]) {
            imm.push_back(std::as_const(coll)[c]);
            io.push_back(mo[j]);
            sub.push_back(mut[j]);
            imm.push_back(sub[sub.size() - 1]);
            io.push_back(mo[j]);
            c = coll.size();
            j = mut.size() - 1;
          }
    }
    if (imm.size() > 25 || mut.size() > 25)
      break;
  }
  auto em = T::makeEmpty();
  for (size_t i = 0; i < mut.size(); ++i)
    for (size_t j = 0; j < mut.size(); ++j) {
      bool same = mo[i] == mo[j];
      CHECK("equal", (mut[i] == mut[j]) == same && (mut[i] != mut[j]) == !same, what, " mutable");
      CHECK("order", !(mut[i] < mut[j] && mut[j] < mut[i]) && ((mut[i] < mut[j] || mut[j] < mut[i]) == !same), what, " mutable");
      if (same)
        CHECK("hash", std::hash<M>{}(mut[i]) == std::hash<M>{}(mut[j]), what);
    }
  for (size_t i = 0; i < imm.size(); ++i) {
    CHECK("equal", !(imm[i] == em) && imm[i] != em && !(em == imm[i]), what, " empty");
    for (size_t j = 0; j < imm.size(); ++j) {
      bool same = io[i] == io[j];
      CHECK("equal", (imm[i] == imm[j]) == same && (imm[i] != imm[j]) == !same, what);
      CHECK("order", !(imm[i] < imm[j] && imm[j] < imm[i]) && ((imm[i] < imm[j] || imm[j] < imm[i]) == !same), what);
      for (size_t k = 0; k < imm.size(); ++k)
        if (imm[i] < imm[j] && imm[j] < imm[k])
          CHECK("order", imm[i] < imm[k], what, " transitive");
      if (same)
        CHECK("hash", std::hash<T>{}(imm[i]) == std::hash<T>{}(imm[j]), what);
    }
    for (size_t j = 0; j < mut.size(); ++j) {
      bool same = io[i] == mo[j];
      CHECK("equal", (imm[i] == mut[j]) == same && (mut[j] == imm[i]) == same && (imm[i] != mut[j]) == !same && (mut[j] != imm[i]) == !same, what, " mixed");
      CHECK("order", ((T(mut[j]) < imm[i]) || (imm[i] < T(mut[j]))) == !same, what);
      if (same)
        CHECK("hash", std::hash<T>{}(imm[i]) == std::hash<M>{}(mut[j]), what, " mixed");
    }
  }
}
static void all(Rng& r) {
  switch (r(6)) {
  case 0: return handles<Hit, MutableHit, HitCollection>(r, "Hit");
  case 1: return handles<Cluster, MutableCluster, ClusterCollection>(r, "Cluster");
  case 2: return handles<ns::Part, ns::MutablePart, ns::PartCollection>(r, "Part");
  case 3: return handles<Info, MutableInfo, InfoCollection>(r, "Info");
  case 4: return handles<HitHitLinkCollection::value_type, HitHitLinkCollection::value_type::mutable_type, HitHitLinkCollection>(r, "Link");
  default: return handles<ClusterEnergeticLinkCollection::value_type, ClusterEnergeticLinkCollection::value_type::mutable_type, ClusterEnergeticLinkCollection>(r, "Link");
  }
}
static void interface(Rng& r) {
  HitCollection hc;
  ClusterCollection cc;
  InfoCollection ic;
  std::vector<Energetic> e;
  std::vector<int> id;
  int n = 2 + r(10);
  for (int i = 0; i < n; ++i) {
    int t = r(3), k = r(3);
    log("interface of type ", t, " object ", k);
    while ((int)hc.size() <= k)
      hc.create();
    while ((int)cc.size() <= k)
      cc.create();
    while ((int)ic.size() <= k)
      ic.create();
    if (r.flip()) {
      if (t == 0)
        e.push_back(std::as_const(hc)[k]);
      else if (t == 1)
        e.push_back(std::as_const(cc)[k]);
      else
        e.push_back(std::as_const(ic)[k]);
    } else {
      if (t == 0)
        e.push_back(hc[k]);
      else if (t == 1)
        e.push_back(cc[k]);
      else
        e.push_back(ic[k]);
    }
    id.push_back(t * 10 + k);
    if (r.flip(4)) {
      auto x = e[r(e.size())];
      int j = 0;
      for (; !(e[j] == x); ++j) {
      }
      e.push_back(x);
      id.push_back(id[j]);
    }
  }
  for (size_t i = 0; i < e.size(); ++i)
    for (size_t j = 0; j < e.size(); ++j) {
      bool same = id[i] == id[j];
      CHECK("equal", (e[i] == e[j]) == same && (e[i] != e[j]) == !same, "interface ", id[i], " ", id[j]);
      CHECK("order", !(e[i] < e[j] && e[j] < e[i]) && ((e[i] < e[j] || e[j] < e[i]) == !same), "interface");
      for (size_t k = 0; k < e.size(); ++k)
        if (e[i] < e[j] && e[j] < e[k])
          CHECK("order", e[i] < e[k], "interface transitive");
      if (same)
        CHECK("hash", std::hash<Energetic>{}(e[i]) == std::hash<Energetic>{}(e[j]));
    }
  for (size_t i = 0; i < e.size(); ++i) {
    for (int k = 0; k < (int)hc.size(); ++k) {
      CHECK("equal", (e[i] == Energetic(hc[k])) == (id[i] == k) && (Energetic(hc[k]) == e[i]) == (id[i] == k), "wrapped and held");
      if (id[i] == k)
        CHECK("equal", e[i].as<Hit>() == hc[k] && std::hash<Hit>{}(e[i].as<Hit>()) == std::hash<MutableHit>{}(hc[k]));
    }
    for (int k = 0; k < (int)cc.size(); ++k)
      CHECK("equal", (e[i] == Energetic(cc[k])) == (id[i] == 10 + k), "wrapped and held");
  }
  std::set<Energetic> s(e.begin(), e.end());
  std::set<int> t(id.begin(), id.end());
  CHECK("order", s.size() == t.size(), "in a set");
}
static void ids(Rng& r) {
  static const int ed[] = {0, 1, -1, -2, 2, INT32_MAX, INT32_MIN, 255, 65536};
  auto pick = [&]() { return r.flip() ? ed[r(9)] : int(r(1 << 20)); };
  podio::ObjectID a{pick(), uint32_t(pick())}, b{pick(), uint32_t(pick())};
  if (r.flip())
    b.index = a.index;
  if (r.flip())
    b.collectionID = a.collectionID;
  log("IDs ", a.index, "|", a.collectionID, " ", b.index, "|", b.collectionID);
  bool same = a.index == b.index && a.collectionID == b.collectionID;
  CHECK("id-equal", (a == b) == same && (a != b) == !same);
  auto c = a;
  CHECK("id-equal", c == a && std::hash<podio::ObjectID>{}(c) == std::hash<podio::ObjectID>{}(a));
  if (same)
    CHECK("id-hash", std::hash<podio::ObjectID>{}(a) == std::hash<podio::ObjectID>{}(b));
}
int main(int argc, char** argv) { return run(argc, argv, {{"handles", 300, all}, {"interface", 200, interface}, {"ids", 3000, ids}}); }
