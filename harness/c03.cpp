#include "h.h"
#include "podio/Frame.h"
#include "podio/GenericParameters.h"
#include <optional>
using namespace h;
using podio::GenericParameters;
using std::string;
using std::vector;
template <typename T> T mk(Rng& r);
template <> int mk<int>(Rng& r) { return r.flip(4) ? (r.flip() ? INT32_MIN : INT32_MAX) : int(r(2000)) - 1000; }
template <> float mk<float>(Rng& r) { return r.flip(6) ? 3e38f : float(r.real()); }
template <> double mk<double>(Rng& r) { return r.flip(6) ? 1e300 : r.real() * 1.0000000001; }
template <> string mk<string>(Rng& r) {
  string s;
  for (size_t n = r.flip(5) ? r(80) : r(6); n > 0; --n)
    s += char(r.flip(8) ? r(256) : 'a' + r(26));
  return s;
}
static const vector<string> KEYS = {"", "a", "b", "ab", "A", "a ", "key with spaces", string("nul\0x", 5), string("nul", 3), "0123456789012345678901234567890", "0123456789012345678901234567891", "\xc3\xa9"};
struct Model {
  std::map<string, vector<int>> i;
  std::map<string, vector<float>> f;
  std::map<string, vector<double>> d;
  std::map<string, vector<string>> s;
  template <typename T> auto& m() {
    if constexpr (std::is_same_v<T, int>) return i;
    else if constexpr (std::is_same_v<T, float>) return f;
    else if constexpr (std::is_same_v<T, double>) return d;
    else return s;
  }
};
template <typename T> string show(const vector<T>& v) {
  std::ostringstream o;
  for (auto& x : v) o << x << ",";
  return o.str();
}
template <typename T, typename P> void checkT(const P& p, Model& m, const char* what) {
  auto& mm = m.m<T>();
  const GenericParameters& g = [&]() -> const GenericParameters& { if constexpr (std::is_same_v<P, podio::Frame>) return p.getParameters(); else return p; }();
  for (auto& k : KEYS) {
    auto it = mm.find(k);
    auto v = [&] { if constexpr (std::is_same_v<P, podio::Frame>) return p.template getParameter<vector<T>>(k); else return p.template get<vector<T>>(k); }();
    auto x = [&] { if constexpr (std::is_same_v<P, podio::Frame>) return p.template getParameter<T>(k); else return p.template get<T>(k); }();
    CHECK("get-known", v.has_value() == (it != mm.end()), what, " key ", k);
    if (v) {
      CHECK("get-values", *v == it->second, what, " key ", k, " got ", show(*v), " stored ", show(it->second));
    }
    CHECK("get-single", x.has_value() == (it != mm.end() && !it->second.empty()), what, " key ", k);
    if (x) {
      CHECK("get-single", *x == it->second[0], what, " key ", k, " got ", *x);
    }
    CHECK("getN", g.getN<T>(k) == (it == mm.end() ? 0 : it->second.size()), what, " key ", k);
  }
  auto ks = [&] { if constexpr (std::is_same_v<P, podio::Frame>) return p.template getParameterKeys<T>(); else return p.template getKeys<T>(); }();
  std::set<string> want;
  for (auto& [k, v] : mm) want.insert(k);
  CHECK("keys", ks.size() == want.size() && std::set<string>(ks.begin(), ks.end()) == want, what, " keys ", show(ks));
  auto [k2, v2] = g.getKeysAndValues<T>();
  CHECK("keys-and-values", k2.size() == v2.size() && k2.size() == want.size() && std::set<string>(k2.begin(), k2.end()) == want, what, " keys ", show(k2));
  for (size_t i = 0; i < k2.size(); ++i) CHECK("keys-and-values", v2[i] == mm[k2[i]], what, " key ", k2[i], " got ", show(v2[i]));
}
template <typename P> void check(const P& p, Model& m, const char* what) {
  checkT<int>(p, m, what);
  checkT<float>(p, m, what);
  checkT<double>(p, m, what);
  checkT<string>(p, m, what);
  const GenericParameters& g = [&]() -> const GenericParameters& { if constexpr (std::is_same_v<P, podio::Frame>) return p.getParameters(); else return p; }();
  CHECK("empty", g.empty() == (m.i.empty() && m.f.empty() && m.d.empty() && m.s.empty()), what);
}
template <typename T, typename P> void put(Rng& r, P& p, Model& m) {
  auto k = r.pick(KEYS);
  auto st = [&](auto... a) { if constexpr (std::is_same_v<P, podio::Frame>) p.putParameter(a...); else p.set(a...); };
  int how = r(4);
  if (how == 0) {
    auto x = mk<T>(r);
    log("set ", typeid(T).name(), " '", k, "' = ", x);
    st(k, x);
    m.m<T>()[k] = {x};
  } else if (how == 1) {
    auto a = mk<T>(r), b = mk<T>(r);
    log("set ", typeid(T).name(), " '", k, "' = {", a, ",", b, "}");
    if constexpr (std::is_same_v<P, podio::Frame>) p.putParameter(k, {a, b}); else p.set(k, {a, b});
    m.m<T>()[k] = {a, b};
  } else {
    vector<T> v;
    for (size_t n = r(5); n > 0; --n) v.push_back(mk<T>(r));
    log("set ", typeid(T).name(), " '", k, "' = [", show(v), "]");
    m.m<T>()[k] = v;
    if (r.flip(3)) { // handed over, with room to spare
      v.reserve(v.size() + r(9));
      if constexpr (std::is_same_v<P, podio::Frame>) p.putParameter(k, std::move(v)); else p.set(k, std::move(v));
    } else {
      st(k, v);
    }
  }
}
template <typename P> void op(Rng& r, P& p, Model& m) {
  switch (r(5)) {
  case 0: put<int>(r, p, m); break;
  case 1: put<float>(r, p, m); break;
  case 2: put<double>(r, p, m); break;
  case 3: put<string>(r, p, m); break;
  default: {
    auto k = r.pick(KEYS);
    log("set chars '", k, "'");
    if constexpr (std::is_same_v<P, podio::Frame>) p.putParameter(k, "literal text"); else p.set(k, "literal text");
    m.s[k] = {"literal text"};
  }
  }
}
template <typename T> void load(Rng& r, GenericParameters& p, Model& m) {
  vector<string> ks;
  vector<vector<T>> vs;
  for (auto& k : KEYS)
    if (!m.m<T>().count(k) && r.flip()) {
      vector<T> v;
      for (size_t n = r(4); n > 0; --n) v.push_back(mk<T>(r));
      ks.push_back(k); vs.push_back(v);
      m.m<T>()[k] = v;
    }
  log("load ", typeid(T).name(), " ", show(ks));
  p.loadFrom<T, std::vector>(ks, vs);
}
static void store(Rng& r) {
  std::vector<std::pair<std::unique_ptr<GenericParameters>, Model>> ps;
  ps.emplace_back(std::make_unique<GenericParameters>(), Model{});
  for (int n = 3 + r(12); n > 0; --n) {
    auto& [p, m] = ps[r(ps.size())];
    switch (r(9)) {
    case 0: {
      log("copy");
      auto q = std::make_unique<GenericParameters>(*p);
      auto m2 = m;
      ps.emplace_back(std::move(q), std::move(m2));
      break;
    }
    case 1: {
      log("move");
      auto q = std::make_unique<GenericParameters>(std::move(*p));
      p = std::move(q);
      break;
    }
    case 2:
      if (r.flip(3)) {
        log("clear");
        p->clear();
        m = Model{};
      } else if (r.flip()) {
        load<int>(r, *p, m); load<string>(r, *p, m);
      } else {
        load<float>(r, *p, m); load<double>(r, *p, m);
      }
      break;
    default: op(r, *p, m);
    }
    for (size_t i = 0; i < ps.size(); ++i) check(*ps[i].first, ps[i].second, cat("store ", i).c_str());
  }
}
static void frame(Rng& r) {
  podio::Frame f;
  Model m;
  for (int n = 2 + r(8); n > 0; --n) {
    op(r, f, m);
    check(f, m, "frame");
    if (r.flip(4)) {
      log("move frame");
      auto g = std::move(f);
      f = std::move(g);
      check(f, m, "frame");
    }
  }
  GenericParameters c(f.getParameters());
  check(c, m, "copy of the frame's parameters");
}
int main(int argc, char** argv) { return run(argc, argv, {{"stores", 250, store}, {"frames", 120, frame}}); }
