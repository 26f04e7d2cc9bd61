#define H_COUNT_ALLOC
#include "event.h"
// what is left of the description of an object when it has neither vector members nor relations
static std::string bare(const Hit& x) {
  auto m = MutableHit(x.cellID(), x.energy(), x.position(), x.comp(), x.codes(), x.weight(), x.flag());
  return body(Hit(m));
}
static std::string bare(const Cluster& x) { return body(Cluster(MutableCluster(x.energy()))); }
static std::string bare(const ns::Part& x) {
  auto m = ns::MutablePart(x.energy(), x.pdg());
  return body(ns::Part(m));
}
static std::string bare(const Info& x) { return body(x); }
template <typename F, typename T> static std::string bare(const podio::LinkT<F, T, false>& x) {
  auto m = podio::MutableLink<F, T>();
  m.setWeight(x.getWeight());
  return body(podio::Link<F, T>(m));
}
// without the contents of related objects
static std::string unrelated(const std::string& s) {
  std::string r;
  bool skip = false;
  for (char c : s) {
    if (c == '=')
      skip = true;
    else if (c == ' ')
      skip = false;
    if (!skip)
      r += c;
  }
  return r;
}
// change everything about an object
static void change(MutableHit m, Event& e, Rng& r) {
  m.energy(m.energy() + 1), m.cellID(m.cellID() + 1), m.position(rvec(r)), m.flag(!m.flag()), m.weight(m.weight() + 1), m.codes(2, m.codes(2) + 1);
  m.comp().arr[1]++;
  m.addcounts(3);
  m.addpoints(rvec(r));
  (void)e;
}
static void change(MutableCluster m, Event& e, Rng& r) {
  m.energy(m.energy() + 1);
  auto& h = e.get<HitCollection>("hitsA");
  auto& c = e.get<ClusterCollection>("clustersA");
  if (!h.empty())
    m.addhits(h[r(h.size())]), m.mainHit(h[r(h.size())]);
  else
    m.mainHit(Hit::makeEmpty());
  if (!c.empty())
    m.addclusters(c[r(c.size())]), m.parent(c[r(c.size())]);
}
static void change(ns::MutablePart m, Event& e, Rng& r) {
  m.energy(m.energy() + 1), m.pdg(m.pdg() + 1), m.addw(2);
  if (auto x = anyEnergetic(e, r))
    m.addsources(*x), m.best(*x);
}
static void change(MutableInfo m, Event&, Rng& r) { m.energy(m.energy() + 1), m.number(m.number() + 1), m.p(rvec(r)), m.big(m.big() + 1); }
template <typename F, typename T> static void change(podio::LinkT<F, T, true> m, Event& e, Rng& r) {
  m.setWeight(m.getWeight() + 1);
  auto h = anyHit(e, r);
  auto c = anyCluster(e, r);
  if constexpr (std::is_same_v<F, Hit>)
    m.setFrom(h);
  else
    m.setFrom(c);
  if constexpr (std::is_same_v<T, Hit>)
    m.setTo(h);
  else if constexpr (std::is_same_v<T, Cluster>)
    m.setTo(c);
  else if (c.isAvailable())
    m.setTo(Energetic(c));
}
static const podio::ObjectID none{};
template <typename C> static void clones(C& coll, Event& e, Rng& r, bool fromFile) {
  const auto& cc = coll;
  for (size_t i = 0; i < coll.size(); ++i) {
    auto x = cc[i];
    auto m = coll[i];
    auto id = x.getObjectID();
    const auto was = body(x);
    auto a = x.clone();
    auto b = m.clone();
    auto p = x.clone(false);
    auto q = m.clone(false);
    using T = decltype(x);
    log(was);
    CHECK("equal", body(T(a)) == was, "immutable: ", body(T(a)), " original ", was);
    CHECK("equal", body(T(b)) == was, "mutable: ", body(T(b)), " original ", was);
    CHECK("without-relations", body(T(p)) == bare(x), "immutable: ", body(T(p)), " expected ", bare(x));
    CHECK("without-relations", body(T(q)) == bare(x), "mutable: ", body(T(q)), " expected ", bare(x));
    CHECK("new-object", !(a == x) && !(b == x) && !(p == x) && !(q == x) && !(a == b) && !(p == q));
    CHECK("no-collection", a.getObjectID() == none && b.getObjectID() == none && p.getObjectID() == none && q.getObjectID() == none);
    CHECK("original-unchanged", body(x) == was && x.getObjectID() == id);
    // a clone of a clone, and a clone in a collection
    auto a2 = a.clone();
    CHECK("equal", body(T(a2)) == was && a2.getObjectID() == none);
    C other;
    other.setID(4711);
    other.push_back(a2);
    CHECK("equal", body(T(a2)) == was && a2.getObjectID() == (podio::ObjectID{0, 4711}));
    auto a3 = a2.clone();
    CHECK("equal", body(T(a3)) == was && a3.getObjectID() == none);
    // independent of each other
    change(a, e, r), change(p, e, r);
    CHECK("independent", body(x) == was && x.getObjectID() == id && body(T(b)) == was && body(T(q)) == bare(x) && body(T(a2)) == was && body(T(a3)) == was, body(x));
    if (!fromFile) {
      // an object may be related to itself, so what it is related to may change with it
      const auto wa = unrelated(body(T(a)));
      change(m, e, r);
      CHECK("independent", unrelated(body(T(b))) == unrelated(was) && unrelated(body(T(a))) == wa && unrelated(body(T(a2))) == unrelated(was), body(T(b)));
    }
  }
}
static void all(Event& e, Rng& r, bool fromFile) {
  auto order = names();
  for (size_t i = order.size(); i > 1; --i)
    std::swap(order[i - 1], order[r(i)]);
  for (auto& n : order)
    typed(*e.c[n], [&](auto& x) {
      if constexpr (requires { x[0].getObjectID(); })
        clones(const_cast<std::remove_cvref_t<decltype(x)>&>(x), e, r, fromFile);
    });
}
static void objects(Rng& r) {
  names();
  long before = live();
  {
    Event e;
    init(e, r);
    identify(e);
    fill(e, r);
    bool read = r.flip();
    log("an event", read ? ", read back" : "");
    if (read) {
      std::map<std::string, Raw> w;
      for (auto& n : names())
        w[n] = capture(*e.c[n]);
      Event f;
      Prov p;
      readBack(f, p, w, e.table);
      all(f, r, true);
      for (auto it = names().rbegin(); it != names().rend(); ++it)
        f.c[*it].reset();
    } else
      all(e, r, false);
    for (auto it = names().rbegin(); it != names().rend(); ++it)
      e.c[*it].reset();
  }
  CHECK("no-leak", live() <= before + 1, live() - before, " heap blocks more than before");
}
// objects outside of collections, and clones that outlive what they were cloned from
static void loose(Rng& r) {
  long before = live();
  {
    Event e;
    init(e, r);
    identify(e);
    fill(e, r);
    std::vector<MutableHit> h;
    std::vector<std::string> want;
    {
      auto c = std::make_unique<HitCollection>();
      c->setID(99);
      for (int i = r(5); i >= 0; --i) {
        MutableHit m;
        fillHit(m, r);
        h.push_back(r.flip() ? m.clone() : Hit(m).clone());
        want.push_back(body(Hit(m)));
        if (r.flip())
          c->push_back(m), m = MutableHit();
        h.push_back(c->empty() ? m.clone() : (*c)[c->size() - 1].clone());
        want.push_back(body(Hit(c->empty() ? m : (*c)[c->size() - 1])));
        log(want.back());
        change(c->empty() ? m : (*c)[c->size() - 1], e, r);
      }
    }
    for (size_t i = 0; i < h.size(); ++i)
      CHECK("outlives", body(Hit(h[i])) == want[i] && h[i].getObjectID() == none, i, " ", body(Hit(h[i])), " expected ", want[i]);
    MutableCluster m;
    MutableHit k;
    k.energy(12);
    for (int i = r(4); i > 0; --i)
      change(m, e, r);
    m.addhits(k);
    m.mainHit(k);
    m.addclusters(m.clone());
    auto was = body(Cluster(m));
    std::optional<MutableCluster> a(r.flip() ? m.clone() : Cluster(m).clone());
    CHECK("equal", body(Cluster(*a)) == was);
    auto b = a->clone();
    m = MutableCluster(); // the original goes away
    CHECK("outlives", body(Cluster(*a)) == was && a->hits(a->hits_size() - 1) == k && a->mainHit() == k);
    a.reset();
    CHECK("outlives", body(Cluster(b)) == was && b.hits(b.hits_size() - 1) == k);
    ns::MutablePart p;
    p.addw(3), p.addsources(k), p.addsources(b), p.best(b);
    for (int i = r(3); i > 0; --i)
      change(p, e, r);
    was = body(ns::Part(p));
    auto q = p.clone();
    auto s = ns::Part(p).clone();
    p = ns::MutablePart();
    CHECK("outlives", body(ns::Part(q)) == was && body(ns::Part(s)) == was, body(ns::Part(q)), " ", body(ns::Part(s)), " expected ", was);
    CHECK("outlives", q.sources(0) == k && q.sources(1) == b);
    MutableHitClusterLink l;
    l.setWeight(2.5), l.setFrom(k), l.setTo(b);
    was = body(HitClusterLink(l));
    auto l2 = l.clone();
    auto l3 = HitClusterLink(l).clone();
    l = MutableHitClusterLink();
    CHECK("outlives", body(HitClusterLink(l2)) == was && body(HitClusterLink(l3)) == was && l2.getFrom() == k && l3.getTo() == b);
    // an empty handle stays one
    for (auto it = names().rbegin(); it != names().rend(); ++it)
      e.c[*it].reset();
  }
  CHECK("no-leak", live() <= before + 1, live() - before, " heap blocks more than before");
}
int main(int argc, char** argv) {
  return run(argc, argv, {{"objects", 120, objects}, {"loose", 300, loose}});
}
