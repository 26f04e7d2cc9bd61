// several threads at once on shared stores, under ThreadSanitizer: contents must only be touched under their lock
#include "mem.h"
#include <atomic>
#include <thread>
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:report_signal_unsafe=0"; }
using Fns = std::vector<std::function<void(unsigned)>>;
static void together(const Fns& fs) {
  std::atomic<int> ready{0};
  std::vector<std::thread> t;
  for (unsigned i = 0; i < fs.size(); ++i)
    t.emplace_back([&, i] {
      ++ready;
      while (ready < int(fs.size()))
        std::this_thread::yield();
      fs[i](i);
    });
  for (auto& x : t)
    x.join();
}
template <typename T> static T value(int i) {
  if constexpr (std::is_same_v<T, std::string>)
    return cat("value ", i);
  else
    return T(i);
}
template <typename T> static void someOps(podio::GenericParameters& p, Fns& f, Rng& r, std::atomic<int>& bad) {
  int n = 3 + r(20);
  f.push_back([&p, n](unsigned) {
    for (int i = 0; i < n; ++i)
      p.set(cat("k", i), value<T>(i));
  });
  f.push_back([&p, n](unsigned) {
    for (int i = 0; i < n; ++i)
      p.set(cat("v", i), std::vector<T>{value<T>(i), value<T>(i + 1)});
  });
  f.push_back([&p, n, &bad](unsigned) {
    for (int i = 0; i < n; ++i) {
      auto x = p.get<T>(cat("k", i));
      if (x && *x != value<T>(i))
        ++bad;
      auto v = p.get<std::vector<T>>(cat("v", i));
      if (v && (v->size() != 2 || (*v)[1] != value<T>(i + 1)))
        ++bad;
      p.getN<T>(cat("v", i));
    }
  });
  f.push_back([&p, &bad](unsigned) {
    for (int i = 0; i < 5; ++i) {
      for (auto& k : p.getKeys<T>())
        if (k.empty())
          ++bad;
      auto [k, v] = p.getKeysAndValues<T>();
      if (k.size() != v.size())
        ++bad;
    }
  });
  f.push_back([&p](unsigned) {
    for (int i = 0; i < 3; ++i)
      podio::GenericParameters q(p);
  });
  f.push_back([&p, n](unsigned) { p.loadFrom(std::vector<std::string>{cat("l", n), "l"}, std::vector<std::vector<T>>{{value<T>(1)}, {value<T>(2)}}); });
}
static void store(Rng& r) {
  podio::GenericParameters p;
  std::atomic<int> bad{0};
  Fns f;
  int k = r(4);
  log("type ", k);
  k == 0 ? someOps<int>(p, f, r, bad) : k == 1 ? someOps<float>(p, f, r, bad) : k == 2 ? someOps<double>(p, f, r, bad) : someOps<std::string>(p, f, r, bad);
  together(f);
  CHECK("values", bad == 0, int(bad));
}
static void table(Rng& r) {
  podio::CollectionIDTable t;
  std::atomic<int> bad{0};
  int n = 5 + r(40);
  log("names ", n);
  auto add = [&](unsigned w) {
    for (int i = 0; i < n; ++i)
      t.add(cat("name", (w + i) % n));
  };
  auto look = [&](unsigned) {
    for (int i = 0; i < n; ++i) {
      auto id = t.collectionID(cat("name", i));
      if (id && t.name(*id) != cat("name", i))
        ++bad;
      if (id && (!t.present(cat("name", i)) || !t.present(*id)))
        ++bad;
    }
  };
  together({add, add, look, look});
  CHECK("mapping", bad == 0, int(bad));
  CHECK("names", int(t.names().size()) == n && int(t.ids().size()) == n, t.names().size());
}
// clusters with relations to hits: c0 -> h0, c1 -> h1, ... are unpacked by one thread each
static void frame(Rng& r) {
  int n = 4;
  auto d = std::make_unique<MemData>();
  {
    std::vector<std::unique_ptr<HitCollection>> hs;
    std::vector<std::unique_ptr<ClusterCollection>> cs;
    for (int i = 0; i < n; ++i) {
      hs.push_back(std::make_unique<HitCollection>());
      cs.push_back(std::make_unique<ClusterCollection>());
      hs[i]->setID(d->table.add(cat("h", i)));
      cs[i]->setID(d->table.add(cat("c", i)));
      for (int k = r(5); k >= 0; --k) {
        auto h = hs[i]->create();
        h.energy(k);
        cs[i]->create().addhits(h);
      }
    }
    for (int i = 0; i < n; ++i) {
      d->raw[cat("h", i)] = capture(*hs[i]);
      d->raw[cat("c", i)] = capture(*cs[i]);
    }
    cs.clear();
  }
  d->params.set("key", 42);
  podio::Frame f(std::move(d));
  std::atomic<int> bad{0}, put{0};
  Fns fs;
  for (int i = 0; i < n; ++i)
    fs.push_back([&, i](unsigned) {
      auto& c = f.get<ClusterCollection>(cat("c", i));
      auto& h = f.get<HitCollection>(cat("h", i));
      if (c.size() != h.size() || f.get(cat("c", i)) != &c)
        ++bad;
      for (auto x : c)
        if (x.hits_size() != 1 || !(x.hits(0) == h[x.getObjectID().index]))
          ++bad;
    });
  for (int i = 0; i < 3; ++i)
    fs.push_back([&, i](unsigned) {
      for (int k = 0; k < 6; ++k) {
        InfoCollection c;
        c.create().number(i * 10 + k);
        auto& x = f.put(std::move(c), cat("new", i, " ", k));
        if (x[0].number() != i * 10 + k || f.get(cat("new", i, " ", k)) != &x)
          ++bad;
        try {
          f.put(InfoCollection{}, cat("contested", k));
          ++put;
        } catch (const std::invalid_argument&) {
        }
        f.putParameter(cat("p", i), k);
      }
    });
  fs.push_back([&](unsigned) {
    for (int k = 0; k < 8; ++k) {
      auto v = f.getAvailableCollections();
      for (auto& s : v)
        if (s.empty())
          ++bad;
      if (f.getParameter<int>("key") != 42)
        ++bad;
      f.getName(uint32_t(k));
      f.getCollectionIDTableForWrite();
      f.getParameterKeys<int>();
    }
  });
  together(fs);
  CHECK("frame", bad == 0, int(bad));
  CHECK("put-once", put == 6, int(put));
  CHECK("names", f.getAvailableCollections().size() == size_t(2 * n + 18 + 6), f.getAvailableCollections().size());
}
int main(int argc, char** argv) {
  names();
  return run(argc, argv, {{"store", 120, store}, {"table", 60, table}, {"frame", 60, frame}});
}
