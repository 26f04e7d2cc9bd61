#define H_COUNT_ALLOC
#include "event.h"
using OID = podio::ObjectID;
static bool sameRaw(const Raw& a, const Raw& b) {
  if (a.type != b.type || a.version != b.version || a.subset != b.subset || a.refs != b.refs || a.vecs.size() != b.vecs.size())
    return false;
  return true;
}
template <typename D> static const std::vector<D>& dat(const Raw& w) { return *static_cast<std::vector<D>*>(w.data.get()); }
template <typename R> static OID idOr(const R& x) { return x.isAvailable() ? x.getObjectID() : OID{OID::invalid, 0}; }
static bool same(const Vec3& a, const Vec3& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
// the buffers hold what the objects report
static void holds(const HitCollection& c, const Raw& w) {
  auto& d = dat<HitData>(w);
  auto& counts = *static_cast<std::vector<int>*>(w.vecs[0].get());
  auto& points = *static_cast<std::vector<Vec3>*>(w.vecs[1].get());
  CHECK("buffer-size", d.size() == c.size() && w.refs.empty());
  size_t nc = 0, np = 0;
  for (size_t i = 0; i < d.size(); ++i) {
    auto x = c[i];
    CHECK("buffer-members", d[i].cellID == x.cellID() && d[i].energy == x.energy() && same(d[i].position, x.position()) && d[i].codes == x.codes() && d[i].weight == x.weight() && d[i].flag == x.flag() &&
          d[i].comp.s == x.comp().s && d[i].comp.arr == x.comp().arr && same(d[i].comp.pos, x.comp().pos), "hit ", i);
    CHECK("buffer-vector-members", d[i].counts_begin == nc && d[i].counts_end == nc + x.counts_size() && d[i].points_begin == np && d[i].points_end == np + x.points_size(), "hit ", i);
    for (size_t k = 0; k < x.counts_size(); ++k)
      CHECK("buffer-vector-members", counts.at(nc + k) == x.counts(k), "hit ", i);
    for (size_t k = 0; k < x.points_size(); ++k)
      CHECK("buffer-vector-members", same(points.at(np + k), x.points(k)), "hit ", i);
    nc += x.counts_size();
    np += x.points_size();
  }
  CHECK("buffer-vector-members", counts.size() == nc && points.size() == np, counts.size(), " ", points.size());
}
static void holds(const ClusterCollection& c, const Raw& w) {
  auto& d = dat<ClusterData>(w);
  CHECK("buffer-size", d.size() == c.size() && w.refs.size() == 4 && w.refs[2].size() == c.size() && w.refs[3].size() == c.size());
  size_t nh = 0, nc = 0;
  for (size_t i = 0; i < d.size(); ++i) {
    auto x = c[i];
    CHECK("buffer-members", d[i].energy == x.energy(), "cluster ", i);
    CHECK("buffer-relations", d[i].hits_begin == nh && d[i].hits_end == nh + x.hits_size() && d[i].clusters_begin == nc && d[i].clusters_end == nc + x.clusters_size(), "cluster ", i);
    for (auto y : x.hits())
      CHECK("buffer-relations", w.refs[0].at(nh++) == y.getObjectID(), "cluster ", i);
    for (auto y : x.clusters())
      CHECK("buffer-relations", w.refs[1].at(nc++) == y.getObjectID(), "cluster ", i);
    CHECK("buffer-relations", w.refs[2][i] == idOr(x.mainHit()) && w.refs[3][i] == idOr(x.parent()), "cluster ", i);
  }
  CHECK("buffer-relations", w.refs[0].size() == nh && w.refs[1].size() == nc, w.refs[0].size(), " ", w.refs[1].size());
}
static void holds(const ns::PartCollection& c, const Raw& w) {
  auto& d = dat<ns::PartData>(w);
  auto& ws = *static_cast<std::vector<double>*>(w.vecs[0].get());
  CHECK("buffer-size", d.size() == c.size() && w.refs.size() == 2 && w.refs[1].size() == c.size());
  size_t nw = 0, n = 0;
  for (size_t i = 0; i < d.size(); ++i) {
    auto x = c[i];
    CHECK("buffer-members", d[i].energy == x.energy() && d[i].pdg == x.pdg(), "part ", i);
    CHECK("buffer-relations", d[i].w_begin == nw && d[i].w_end == nw + x.w_size() && d[i].sources_begin == n && d[i].sources_end == n + x.sources_size(), "part ", i);
    for (auto y : x.w())
      CHECK("buffer-vector-members", ws.at(nw++) == y);
    for (auto y : x.sources())
      CHECK("buffer-relations", w.refs[0].at(n++) == y.getObjectID(), "part ", i);
    CHECK("buffer-relations", w.refs[1][i] == idOr(x.best()), "part ", i);
  }
  CHECK("buffer-relations", ws.size() == nw && w.refs[0].size() == n);
}
static void holds(const InfoCollection& c, const Raw& w) {
  auto& d = dat<InfoData>(w);
  CHECK("buffer-size", d.size() == c.size() && w.refs.empty());
  for (size_t i = 0; i < d.size(); ++i)
    CHECK("buffer-members", d[i].number == c[i].number() && d[i].big == c[i].big() && d[i].energy == c[i].energy() && same(d[i].p, c[i].p()));
}
template <typename F, typename T> static void holds(const podio::LinkCollection<F, T>& c, const Raw& w) {
  auto& d = dat<podio::LinkData>(w);
  CHECK("buffer-size", d.size() == c.size() && w.refs.size() == 2 && w.refs[0].size() == c.size() && w.refs[1].size() == c.size());
  for (size_t i = 0; i < d.size(); ++i)
    CHECK("buffer-relations", d[i].weight == c[i].getWeight() && w.refs[0][i] == idOr(c[i].getFrom()) && w.refs[1][i] == idOr(c[i].getTo()), "link ", i);
}
template <typename T> static void holds(const podio::UserDataCollection<T>& c, const Raw& w) {
  CHECK("buffer-members", dat<T>(w) == c.vec() && w.refs.empty());
}
static void bufferContents(const podio::CollectionBase& c, const Raw& w) {
  typed(c, [&](auto& x) {
    if (!w.subset)
      return holds(x, w);
    if constexpr (requires { x[0].getObjectID(); }) {
      CHECK("buffer-subset", w.refs.size() == 1 && w.refs[0].size() == x.size());
      for (size_t i = 0; i < x.size(); ++i)
        CHECK("buffer-subset", w.refs[0][i] == x[i].getObjectID());
    }
  });
}
static void round(Rng& r) {
  names();
  long before = live();
  {
    Event e;
    init(e, r);
    bool first = r.flip();
    if (first)
      identify(e);
    fill(e, r, r.flip(8) ? 30 : 6);
    if (!first)
      identify(e);
    if (r.flip(4)) { // start again with other contents
      log("cleared and filled again");
      for (auto& n : names())
        e.c[n]->prepareForWrite();
      for (auto it = names().rbegin(); it != names().rend(); ++it)
        e.c[*it]->clear();
      fill(e, r);
    }
    std::map<std::string, std::vector<std::string>> d;
    std::map<std::string, Raw> w;
    for (auto& n : names()) {
      d[n] = describe(*e.c[n]);
      log(n, " ", d[n].size() - 1);
    }
    for (auto& n : names())
      w[n] = capture(*e.c[n]);
    for (auto& n : names()) {
      auto now = describe(*e.c[n]);
      CHECK("preparing-changes-nothing", now == d[n], n, " ", differ(now, d[n]));
      bufferContents(*e.c[n], w[n]);
      auto again = capture(*e.c[n]);
      CHECK("preparing-twice", sameRaw(again, w[n]), n);
      bufferContents(*e.c[n], again);
    }
    if (r.flip()) { // reading must not depend on the originals
      for (auto it = names().rbegin(); it != names().rend(); ++it)
        e.c[*it].reset();
    }
    Event f;
    Prov p;
    for (auto& n : names()) {
      auto b = readBuffers(w[n]);
      auto c = b.createCollection(std::move(b), w[n].subset);
      c->prepareAfterRead();
      c->setID(e.table.collectionID(n).value());
      p.m[c->getID()] = c.get();
      f.c[n] = std::move(c);
    }
    auto order = names();
    for (size_t i = order.size(); i > 1; --i)
      std::swap(order[i - 1], order[r(i)]);
    for (auto& n : order)
      CHECK("references-resolved", f.c[n]->setReferences(&p));
    for (auto& n : names()) {
      auto now = describe(*f.c[n]);
      CHECK("read-back-equals", now == d[n], n, " ", differ(now, d[n]));
      auto again = capture(*f.c[n]);
      CHECK("written-again-equals", sameRaw(again, w[n]), n);
      bufferContents(*f.c[n], again);
      now = describe(*f.c[n]);
      CHECK("preparing-changes-nothing", now == d[n], n, " ", differ(now, d[n]));
    }
    // relations are the objects themselves
    for (auto x : f.get<ClusterCollection>("clustersA")) {
      for (auto y : x.hits())
        CHECK("same-object", y == (*static_cast<HitCollection*>(p.m.at(y.getObjectID().collectionID)))[y.getObjectID().index]);
      if (x.parent().isAvailable())
        CHECK("same-object", x.parent() == (*static_cast<ClusterCollection*>(p.m.at(x.parent().getObjectID().collectionID)))[x.parent().getObjectID().index]);
    }
    for (auto it = names().rbegin(); it != names().rend(); ++it)
      f.c[*it].reset();
    for (auto it = names().rbegin(); it != names().rend(); ++it)
      e.c[*it].reset();
  }
  CHECK("no-leak", live() <= before + 1, live() - before, " heap blocks more than before");
}
static void untrackedPart(Rng& r) {
  HitCollection hits;
  hits.setID(1);
  ns::PartCollection c;
  c.setID(2);
  int n = 1 + r(4), bad = r(n);
  MutableHit loose;
  loose.energy(5);
  for (int i = 0; i < n; ++i) {
    auto m = c.create();
    m.energy(i);
    for (int k = r(4); k > 0; --k)
      m.addw(k + 0.5 * i);
    for (int k = r(3); k > 0; --k)
      m.addsources(hits.create());
    if (r.flip())
      m.best(hits.create());
    if (i == bad)
      m.addsources(loose);
  }
  log("part ", bad, " of ", n, " with an untracked source");
  auto d = describe(c);
  for (int i = r(3); i >= 0; --i)
    THROWS("untracked-refused", c.prepareForWrite());
  CHECK("preparing-changes-nothing", describe(c) == d);
  hits.push_back(loose);
  auto w = capture(c);
  bufferContents(c, w);
}
// relations to objects without collection cannot be written, and the attempt changes nothing
static void untracked(Rng& r) {
  if (r.flip(3))
    return untrackedPart(r);
  HitCollection hits;
  hits.setID(1);
  ClusterCollection c;
  c.setID(2);
  int n = 1 + r(4), bad = r(n);
  MutableHit loose;
  loose.energy(5);
  MutableCluster looseC;
  bool hit = r.flip();
  for (int i = 0; i < n; ++i) {
    auto m = c.create(double(i));
    for (int k = r(3); k > 0; --k)
      m.addhits(hits.create());
    if (i == bad) {
      if (hit)
        m.addhits(loose);
      else
        m.addclusters(looseC);
    }
  }
  log("cluster ", bad, " of ", n, " with an untracked ", hit ? "hit" : "cluster");
  auto d = describe(c);
  for (int i = r(3); i >= 0; --i)
    THROWS("untracked-refused", c.prepareForWrite());
  CHECK("preparing-changes-nothing", describe(c) == d);
  if (hit)
    hits.push_back(loose);
  else
    c.push_back(looseC);
  auto w = capture(c);
  bufferContents(c, w);
}
int main(int argc, char** argv) {
  return run(argc, argv, {{"round trip", 500, round}, {"untracked", 60, untracked}});
}
