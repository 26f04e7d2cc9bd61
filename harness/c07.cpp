#include "h.h"
#include <iostream>
#include "podio/CollectionBuffers.h"
#include "podio/SchemaEvolution.h"
#include "vmodel/HitCollection.h"
#include "podio/CollectionBufferFactory.h"
using namespace h;
using podio::SchemaEvolution;
using Prio = SchemaEvolution::Priority;
static int ncalls = 0, lastfn = 0;
static unsigned lastver = 0;
static void* lastdata = nullptr;
static int slots[1000];
static int outslots[100000];
static int deleted = 0;
static podio::CollectionReadBuffers make(int i) {
  podio::CollectionReadBuffers b;
  b.data = &slots[i];
  b.references = reinterpret_cast<podio::CollRefCollection*>(&slots[i + 1]);
  b.vectorMembers = reinterpret_cast<podio::VectorMembersInfo*>(&slots[i + 2]);
  b.type = "T";
  b.schemaVersion = 40 + i;
  b.createCollection = [](podio::CollectionReadBuffers&&, bool) { return std::unique_ptr<podio::CollectionBase>(); };
  return b;
}
static void seq(Rng& r) {
  static int caseno = 0;
  static int nextfn = 0;
  ++caseno;
  auto& se = SchemaEvolution::mutInstance();
  // every type has one current version; functions for 1..current-1 are registered, each once, but the
  // user may register one in addition to the generated one
  struct Reg {
    int t;
    unsigned from;
    bool user;
    int fn;
  };
  std::map<int, unsigned> cur;
  std::map<std::pair<int, unsigned>, int> aut, usr;
  std::vector<Reg> regs;
  int nt = 1 + r(3);
  for (int t = 0; t < nt; ++t) {
    cur[t] = 2 + r(5);
    for (unsigned v = 1; v < cur[t]; ++v) {
      int k = r(4);
      if (k != 1)
        regs.push_back({t, v, false, 0});
      if (k != 0)
        regs.push_back({t, v, true, 0});
    }
  }
  for (size_t i = regs.size(); i > 1; --i)
    std::swap(regs[i - 1], regs[r(i)]);
  auto name = [&](int t) { return cat("E", caseno, "_", t); };
  auto check = [&]() {
    for (int t = 0; t <= nt; ++t)
      for (unsigned v = 0; v < 9; ++v) {
        bool known = t < nt && cur.count(t);
        bool reg = known && (aut.count({t, v}) || usr.count({t, v}));
        if (known && v < cur[t] && v > 0 && !reg)
          continue; // not all registered yet
        ncalls = 0;
        int k = r(900);
        auto b = se.evolveBuffers(make(k), v, name(t));
        if (reg && v < cur[t]) {
          int want = usr.count({t, v}) ? usr[{t, v}] : aut[{t, v}];
          CHECK("exact-function", ncalls == 1 && lastfn == want, "type ", t, " from ", v, " current ", cur[t], " calls ", ncalls, " called ", lastfn, " expected ", want);
          CHECK("argument", lastdata == &slots[k] && lastver == v, "version passed ", lastver);
          CHECK("result", b.data == &outslots[want] && b.schemaVersion == 7000u + want && b.type == "evolved");
        } else {
          CHECK("unchanged", ncalls == 0 && b.data == &slots[k] && (void*)b.references == &slots[k + 1] && (void*)b.vectorMembers == &slots[k + 2] && b.type == "T" && b.schemaVersion == 40u + k && b.createCollection, "type ", t, " version ", v);
        }
      }
  };
  for (auto& g : regs) {
    int fn = (nextfn = (nextfn + 1) % 100000);
    auto f = [fn](podio::CollectionReadBuffers&& b, podio::SchemaVersionT v) {
      ++ncalls;
      lastfn = fn;
      lastver = v;
      lastdata = b.data;
      podio::CollectionReadBuffers o;
      o.data = &outslots[fn];
      o.schemaVersion = 7000 + fn;
      o.type = "evolved";
      return o;
    };
    log("register E", g.t, " from ", g.from, " current ", cur[g.t], g.user ? " user f" : " auto f", fn);
    if (g.user && r.flip())
      se.registerEvolutionFunc(name(g.t), g.from, cur[g.t], f);
    else
      se.registerEvolutionFunc(name(g.t), g.from, cur[g.t], f, g.user ? Prio::UserDefined : Prio::AutoGenerated);
    (g.user ? usr : aut)[{g.t, g.from}] = fn;
    // only registered versions may be asked for before all registrations are done
    std::map<int, unsigned> seen;
    for (auto& q : regs) {
      if (&q > &g)
        break;
      seen[q.t] = cur[q.t];
    }
    auto keep = cur;
    cur = seen;
    check();
    cur = keep;
  }
}
static void real(Rng&) {
  auto& se = SchemaEvolution::instance();
  log("generated types");
  for (auto t : {"HitCollection", "ClusterCollection", "ns::PartCollection", "InfoCollection", "podio::UserDataCollection<float>", "unknown"})
    for (unsigned v = 0; v < 5; ++v) {
      auto b = se.evolveBuffers(make(5), v, t);
      CHECK("unchanged", b.data == &slots[5] && b.type == "T" && b.schemaVersion == 45, t, " ", v);
    }
}
// functions registered while the newest version of the type grows: none of them may get lost
static void growth(Rng& r) {
  static int caseno = 0;
  static int nextfn = 50000;
  ++caseno;
  auto& se = SchemaEvolution::mutInstance();
  auto name = cat("G", caseno);
  unsigned first = 2 + r(3), now = first;
  std::map<unsigned, int> want;
  int k = 2 + r(6);
  for (int i = 0; i < k; ++i) {
    if (i > 0 && r.flip())
      now += 1 + r(3);
    unsigned from = 1 + r(now - 1);
    int fn = ++nextfn;
    log("register ", name, " from ", from, " current ", now, " f", fn);
    se.registerEvolutionFunc(name, from, now, [fn](podio::CollectionReadBuffers&& b, podio::SchemaVersionT v) {
      ++ncalls;
      lastfn = fn;
      lastver = v;
      lastdata = b.data;
      podio::CollectionReadBuffers o;
      o.data = &outslots[fn];
      return o;
    }, Prio::UserDefined);
    want[from] = fn;
    for (auto& [v, f] : want) {
      if (v == first)
        continue; // the version that was the newest at the first registration
      ncalls = 0;
      auto b = se.evolveBuffers(make(7), v, name);
      CHECK("growth", ncalls == 1 && lastfn == f && lastver == v && b.data == &outslots[f], "from ", v, " current ", now, " calls ", ncalls, " called ", lastfn, " expected ", f);
    }
  }
}
int main(int argc, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  return run(argc, argv, {{"registrations", 150, seq}, {"growth", 300, growth}, {"real", 1, real}});
}
