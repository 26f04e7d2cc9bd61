// a complete set of collections of our data model with all kinds of relations between them, a description of what they
// show to a user, and raw copies of their I/O buffers (harnesses for C04, C05, C11, C16, C23)
#pragma once
#include "h.h"
#include "podio/CollectionBufferFactory.h"
#include "podio/CollectionIDTable.h"
#include "podio/ICollectionProvider.h"
#include "podio/SchemaEvolution.h"
#include "podio/UserDataCollection.h"
#include "vmodel/ClusterCollection.h"
#include "vmodel/ClusterEnergeticLinkCollection.h"
#include "vmodel/Energetic.h"
#include "vmodel/HitClusterLinkCollection.h"
#include "vmodel/HitCollection.h"
#include "vmodel/HitHitLinkCollection.h"
#include "vmodel/InfoCollection.h"
#include "vmodel/PartCollection.h"
#include <memory>
#include <optional>
using namespace h;
using HCL = HitClusterLinkCollection;
using HHL = HitHitLinkCollection;
using CEL = ClusterEnergeticLinkCollection;
using UDF = podio::UserDataCollection<float>;
using UDI = podio::UserDataCollection<int64_t>;

inline const std::vector<std::string>& names() {
  static const std::vector<std::string> n{"hitsA", "hitsB", "clustersA", "clustersB", "parts", "infos", "subHits", "subClusters", "hitClusterLinks", "hitHitLinks", "clusterEnergeticLinks", "subLinks", "floats", "longs"};
  return n;
}
inline bool subsetName(const std::string& n) { return n.compare(0, 3, "sub") == 0; }
inline std::unique_ptr<podio::CollectionBase> make(const std::string& n) {
  std::unique_ptr<podio::CollectionBase> c;
  if (n == "hitsA" || n == "hitsB" || n == "subHits")
    c = std::make_unique<HitCollection>();
  else if (n == "clustersA" || n == "clustersB" || n == "subClusters")
    c = std::make_unique<ClusterCollection>();
  else if (n == "parts")
    c = std::make_unique<ns::PartCollection>();
  else if (n == "infos")
    c = std::make_unique<InfoCollection>();
  else if (n == "hitClusterLinks" || n == "subLinks")
    c = std::make_unique<HCL>();
  else if (n == "hitHitLinks")
    c = std::make_unique<HHL>();
  else if (n == "clusterEnergeticLinks")
    c = std::make_unique<CEL>();
  else if (n == "floats")
    c = std::make_unique<UDF>();
  else
    c = std::make_unique<UDI>();
  if (subsetName(n))
    c->setSubsetCollection(true);
  return c;
}

struct Event {
  std::map<std::string, std::unique_ptr<podio::CollectionBase>> c;
  podio::CollectionIDTable table;
  template <typename C> C& get(const std::string& n) { return dynamic_cast<C&>(*c.at(n)); }
};
inline Vec3 rvec(Rng& r) { return Vec3{r.real(), r.real(), r.real()}; }
inline void fillHit(MutableHit m, Rng& r) {
  m.cellID(r.next());
  m.energy(r.real());
  m.position(rvec(r));
  Comp c;
  c.pos = rvec(r);
  c.arr = {int(r(100)), int(r(100)), -int(r(100))};
  c.s = r(1000);
  m.comp(c);
  for (int i = 0; i < 4; ++i)
    m.codes(i, int(r.next()));
  m.weight(float(r(100000)) / 8);
  m.flag(r.flip());
  for (int n = r.flip() ? 0 : r(5); n > 0; --n)
    m.addcounts(int(r.next()));
  for (int n = r.flip() ? 0 : r(4); n > 0; --n)
    m.addpoints(rvec(r));
}
inline Hit anyHit(Event& e, Rng& r) {
  auto& c = e.get<HitCollection>(r.flip() ? "hitsA" : "hitsB");
  return c.empty() ? Hit::makeEmpty() : Hit(c[r(c.size())]);
}
inline Cluster anyCluster(Event& e, Rng& r) {
  auto& c = e.get<ClusterCollection>(r.flip() ? "clustersA" : "clustersB");
  return c.empty() ? Cluster::makeEmpty() : Cluster(c[r(c.size())]);
}
inline std::optional<Energetic> anyEnergetic(Event& e, Rng& r) {
  int k = r(3);
  auto& i = e.get<InfoCollection>("infos");
  if (k == 0) {
    auto x = anyHit(e, r);
    return x.isAvailable() ? std::optional<Energetic>(x) : std::nullopt;
  }
  if (k == 1) {
    auto x = anyCluster(e, r);
    return x.isAvailable() ? std::optional<Energetic>(x) : std::nullopt;
  }
  return i.empty() ? std::nullopt : std::optional<Energetic>(Info(i[r(i.size())]));
}
// build new, the previous contents of the collections stay (they are empty at first)
inline void fill(Event& e, Rng& r, int most = 6) {
  auto cnt = [&] { return r.flip(4) ? 0 : int(r(most)); };
  for (auto n : {"hitsA", "hitsB"})
    for (int i = cnt(); i > 0; --i) {
      if (r.flip(3)) {
        MutableHit m;
        fillHit(m, r);
        e.get<HitCollection>(n).push_back(m);
      } else
        fillHit(e.get<HitCollection>(n).create(), r);
    }
  for (int i = cnt(); i > 0; --i) {
    auto m = e.get<InfoCollection>("infos").create(int(r.next()), r.next(), rvec(r), r.real());
    (void)m;
  }
  for (auto n : {"clustersA", "clustersB"})
    for (int i = cnt(); i > 0; --i)
      e.get<ClusterCollection>(n).create().energy(r.real());
  for (auto n : {"clustersA", "clustersB"})
    for (auto m : e.get<ClusterCollection>(n)) {
      for (int k = r.flip() ? 0 : r(5); k > 0; --k)
        if (auto x = anyHit(e, r); x.isAvailable())
          m.addhits(x);
      for (int k = r.flip() ? 0 : r(4); k > 0; --k)
        if (auto x = anyCluster(e, r); x.isAvailable())
          m.addclusters(x);
      if (r.flip())
        if (auto x = anyHit(e, r); x.isAvailable())
          m.mainHit(x);
      if (r.flip())
        if (auto x = anyCluster(e, r); x.isAvailable())
          m.parent(x);
    }
  for (int i = cnt(); i > 0; --i) {
    auto m = r.flip(3) ? ns::MutablePart() : e.get<ns::PartCollection>("parts").create();
    m.energy(r.real());
    m.pdg(int(r.next()));
    for (int k = r(4); k > 0; --k)
      m.addw(r.real());
    for (int k = r(4); k > 0; --k)
      if (auto x = anyEnergetic(e, r))
        m.addsources(*x);
    if (r.flip())
      if (auto x = anyEnergetic(e, r))
        m.best(*x);
    if (m.getObjectID() == podio::ObjectID{})
      e.get<ns::PartCollection>("parts").push_back(m);
  }
  for (int i = cnt(); i > 0; --i)
    if (auto x = anyHit(e, r); x.isAvailable())
      e.get<HitCollection>("subHits").push_back(x);
  for (int i = cnt(); i > 0; --i)
    if (auto x = anyCluster(e, r); x.isAvailable())
      e.get<ClusterCollection>("subClusters").push_back(x);
  for (int i = cnt(); i > 0; --i) {
    auto m = e.get<HCL>("hitClusterLinks").create();
    if (!r.flip(4))
      m.setWeight(float(r.real()));
    if (auto x = anyHit(e, r); x.isAvailable() && !r.flip(5))
      m.setFrom(x);
    if (auto x = anyCluster(e, r); x.isAvailable() && !r.flip(5))
      m.setTo(x);
  }
  for (int i = cnt(); i > 0; --i) {
    auto m = r.flip() ? MutableHitHitLink() : e.get<HHL>("hitHitLinks").create();
    m.setWeight(float(r.real()));
    if (auto x = anyHit(e, r); x.isAvailable() && !r.flip(5))
      m.setFrom(x);
    if (auto x = anyHit(e, r); x.isAvailable() && !r.flip(5))
      m.setTo(x);
    if (m.getObjectID() == podio::ObjectID{})
      e.get<HHL>("hitHitLinks").push_back(m);
  }
  for (int i = cnt(); i > 0; --i) {
    auto m = e.get<CEL>("clusterEnergeticLinks").create();
    m.setWeight(float(r.real()));
    if (auto x = anyCluster(e, r); x.isAvailable() && !r.flip(5))
      m.setFrom(x);
    if (auto x = anyEnergetic(e, r); x && !r.flip(5))
      m.setTo(*x);
  }
  auto& hcl = e.get<HCL>("hitClusterLinks");
  for (int i = cnt(); i > 0 && !hcl.empty(); --i)
    e.get<HCL>("subLinks").push_back(hcl[r(hcl.size())]);
  for (int i = cnt(); i > 0; --i)
    e.get<UDF>("floats").push_back(float(r.real()));
  for (int i = cnt(); i > 0; --i)
    e.get<UDI>("longs").push_back(int64_t(r.next()));
}
inline void init(Event& e, Rng& r) {
  for (auto& n : names()) {
    e.c[n] = make(n);
    (void)r;
  }
}
// every collection gets its ID (before or after it is filled)
inline void identify(Event& e) {
  for (auto& n : names())
    e.c[n]->setID(e.table.add(n));
}

// --- what a user sees
inline std::ostream& operator<<(std::ostream& o, const Vec3& v);
inline std::string str(const Vec3& v) { return cat("(", v.x, ",", v.y, ",", v.z, ")"); }
inline std::string body(const Hit& x) {
  std::ostringstream o;
  o.precision(17);
  o << x.cellID() << " " << x.energy() << " " << str(x.position()) << " " << str(x.comp().pos) << " " << x.comp().arr[0] << " " << x.comp().arr[1] << " " << x.comp().arr[2] << " " << x.comp().s;
  for (auto c : x.codes())
    o << " c" << c;
  o << " " << x.weight() << " " << x.flag() << " counts" << x.counts_size();
  for (auto c : x.counts())
    o << " " << c;
  o << " points" << x.points_size();
  for (auto& c : x.points())
    o << " " << str(c);
  return o.str();
}
inline std::string body(const Info& x) { return cat(x.number(), " ", x.big(), " ", str(x.p()), " ", x.energy()); }
// the ID of a related object together with something of its contents
template <typename X> inline std::string to(const X& x) {
  if (!x.isAvailable())
    return "none";
  return cat(x.getObjectID(), "=", x.energy());
}
inline std::string body(const Cluster& x) {
  std::ostringstream o;
  o << x.energy() << " main " << to(x.mainHit()) << " parent " << to(x.parent()) << " hits" << x.hits_size();
  size_t n = 0;
  for (auto y : x.hits()) {
    o << " " << to(y);
    if (!(x.hits(n++) == y))
      o << "<index differs>";
  }
  o << " clusters" << x.clusters_size();
  for (auto y : x.clusters())
    o << " " << to(y);
  return o.str();
}
inline std::string body(const ns::Part& x) {
  std::ostringstream o;
  o << x.energy() << " " << x.pdg() << " w" << x.w_size();
  for (auto y : x.w())
    o << " " << y;
  o << " best " << to(x.best()) << " sources" << x.sources_size();
  for (auto y : x.sources())
    o << " " << (y.isA<Hit>() ? "Hit" : y.isA<Cluster>() ? "Cluster" : "Info") << to(y);
  return o.str();
}
inline std::string body(const HitClusterLink& x) { return cat(x.getWeight(), " ", to(x.getFrom()), " ", to(x.getTo())); }
inline std::string body(const HitHitLink& x) { return cat(x.getWeight(), " ", to(x.getFrom()), " ", to(x.getTo())); }
inline std::string body(const ClusterEnergeticLink& x) { return cat(x.getWeight(), " ", to(x.getFrom()), " ", to(x.getTo())); }
template <typename C> std::vector<std::string> descr(const C& c) {
  std::vector<std::string> r{cat(c.getTypeName(), " subset ", c.isSubsetCollection(), " size ", c.size())};
  for (auto x : c)
    r.push_back(cat(x.getObjectID(), ": ", body(x)));
  return r;
}
template <typename T> std::vector<std::string> descr(const podio::UserDataCollection<T>& c) {
  std::vector<std::string> r{cat(c.getTypeName(), " size ", c.size())};
  for (auto x : c)
    r.push_back(cat(x));
  return r;
}
// calls f with the collection as what it is
template <typename F> auto typed(const podio::CollectionBase& c, F f) {
  if (auto* x = dynamic_cast<const HitCollection*>(&c))
    return f(*x);
  if (auto* x = dynamic_cast<const ClusterCollection*>(&c))
    return f(*x);
  if (auto* x = dynamic_cast<const ns::PartCollection*>(&c))
    return f(*x);
  if (auto* x = dynamic_cast<const InfoCollection*>(&c))
    return f(*x);
  if (auto* x = dynamic_cast<const HCL*>(&c))
    return f(*x);
  if (auto* x = dynamic_cast<const HHL*>(&c))
    return f(*x);
  if (auto* x = dynamic_cast<const CEL*>(&c))
    return f(*x);
  if (auto* x = dynamic_cast<const UDF*>(&c))
    return f(*x);
  return f(dynamic_cast<const UDI&>(c));
}
inline std::vector<std::string> describe(const podio::CollectionBase& c) {
  return typed(c, [](auto& x) { return descr(x); });
}
inline std::string differ(const std::vector<std::string>& a, const std::vector<std::string>& b) {
  for (size_t i = 0; i < a.size() && i < b.size(); ++i)
    if (a[i] != b[i])
      return "element " + std::to_string(int(i) - 1) + ": " + a[i] + " expected " + b[i];
  return cat(a.size(), " entries, expected ", b.size());
}

// --- raw copies of the buffers for I/O
struct Raw {
  std::string type;
  podio::SchemaVersionT version = 0;
  bool subset = false;
  std::vector<std::vector<podio::ObjectID>> refs;
  std::shared_ptr<void> data; // std::vector<XData>
  std::vector<std::shared_ptr<void>> vecs;
  std::function<void(podio::CollectionReadBuffers&, const Raw&)> load;
};
template <typename C> struct DataOf;
template <> struct DataOf<HitCollection> { using T = HitData; };
template <> struct DataOf<ClusterCollection> { using T = ClusterData; };
template <> struct DataOf<ns::PartCollection> { using T = ns::PartData; };
template <> struct DataOf<InfoCollection> { using T = InfoData; };
template <typename F, typename T> struct DataOf<podio::LinkCollection<F, T>> { using T_ = podio::LinkData; };
template <typename B> struct DataOf<podio::UserDataCollection<B>> { using T_ = B; };
template <typename C, typename = void> struct DataT { using T = typename DataOf<C>::T; };
template <typename C> struct DataT<C, std::void_t<typename DataOf<C>::T_>> { using T = typename DataOf<C>::T_; };
template <typename V> void takeVec(Raw& w, const podio::VectorMembersInfo& v, size_t i, const char* type) {
  CHECK("vector-member-type", v[i].first == type, v[i].first, " expected ", type);
  auto* p = *static_cast<std::vector<V>**>(v[i].second); // address of a unique_ptr
  CHECK("vector-member-buffer", p);
  w.vecs.push_back(std::make_shared<std::vector<V>>(*p));
}
template <typename V> void giveVec(const Raw& w, podio::CollectionReadBuffers& b, size_t i, const char* type) {
  CHECK("vector-member-type", (*b.vectorMembers)[i].first == type);
  *static_cast<std::vector<V>*>((*b.vectorMembers)[i].second) = *static_cast<std::vector<V>*>(w.vecs[i].get());
}
template <typename C> Raw rawOf(C& c) {
  using D = typename DataT<C>::T;
  Raw w;
  w.type = c.getTypeName();
  w.version = c.getSchemaVersion();
  w.subset = c.isSubsetCollection();
  c.prepareForWrite();
  auto b = c.getBuffers();
  CHECK("buffers", b.references && b.vectorMembers);
  for (auto& x : *b.references)
    w.refs.push_back(*x);
  if (w.subset) {
    CHECK("subset-buffers", b.data == nullptr && w.refs.size() == 1, w.type);
  } else {
    CHECK("buffers", b.data && b.template dataAsVector<D>() && *static_cast<std::vector<D>**>(b.data) == b.template dataAsVector<D>(), w.type);
    w.data = std::make_shared<std::vector<D>>(*b.template dataAsVector<D>());
    if constexpr (std::is_same_v<C, HitCollection>) {
      CHECK("vector-members", b.vectorMembers->size() == 2);
      takeVec<int>(w, *b.vectorMembers, 0, "int");
      takeVec<Vec3>(w, *b.vectorMembers, 1, "Vec3");
    } else if constexpr (std::is_same_v<C, ns::PartCollection>) {
      CHECK("vector-members", b.vectorMembers->size() == 1);
      takeVec<double>(w, *b.vectorMembers, 0, "double");
    } else {
      CHECK("vector-members", b.vectorMembers->empty());
    }
  }
  w.load = [](podio::CollectionReadBuffers& b, const Raw& w) {
    if (!w.subset) {
      *b.template dataAsVector<D>() = *static_cast<std::vector<D>*>(w.data.get());
      if constexpr (std::is_same_v<C, HitCollection>) {
        giveVec<int>(w, b, 0, "int");
        giveVec<Vec3>(w, b, 1, "Vec3");
      } else if constexpr (std::is_same_v<C, ns::PartCollection>) {
        giveVec<double>(w, b, 0, "double");
      }
    }
    if (b.references) {
      CHECK("references", b.references->size() == w.refs.size(), w.type, " ", b.references->size(), " lists, expected ", w.refs.size());
      for (size_t i = 0; i < w.refs.size(); ++i)
        *(*b.references)[i] = w.refs[i];
    } else {
      CHECK("references", w.refs.empty());
    }
  };
  return w;
}
inline Raw capture(podio::CollectionBase& c) {
  return typed(c, [](auto& x) { return rawOf(const_cast<std::remove_cvref_t<decltype(x)>&>(x)); });
}
inline podio::CollectionReadBuffers readBuffers(const Raw& w) {
  auto b = podio::CollectionBufferFactory::instance().createBuffers(w.type, w.version, w.subset);
  CHECK("factory", b.has_value(), w.type);
  CHECK("factory", b->type == w.type && b->schemaVersion == w.version && (b->data == nullptr) == w.subset, w.type);
  w.load(*b, w);
  return std::move(*b);
}
struct Prov : podio::ICollectionProvider {
  std::map<uint32_t, podio::CollectionBase*> m;
  bool get(uint32_t id, podio::CollectionBase*& c) const override {
    auto it = m.find(id);
    if (it == m.end())
      return false;
    c = it->second;
    return true;
  }
};
// the collections w (with the IDs of table t) as they are after reading
inline void readBack(Event& f, Prov& p, std::map<std::string, Raw>& w, const podio::CollectionIDTable& t) {
  for (auto& n : names()) {
    auto b = readBuffers(w[n]);
    auto c = b.createCollection(std::move(b), w[n].subset);
    c->prepareAfterRead();
    c->setID(t.collectionID(n).value());
    p.m[c->getID()] = c.get();
    f.c[n] = std::move(c);
  }
  for (auto& n : names())
    CHECK("references-resolved", f.c[n]->setReferences(&p), n);
}
