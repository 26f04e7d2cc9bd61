#include "coll.h"
#include "podio/UserDataCollection.h"
#include <iterator>
#include <ranges>
// iteration over a collection with n objects whose handles and values are known; It is an iterator type of it
template <typename It, typename K, typename B> static void walk(Rng& r, B begin, B end, const std::vector<std::pair<typename K::M, int>>& o, const char* what) {
  using D = typename It::difference_type;
  D n = o.size();
  auto is = [&](auto&& h, D i, const char* how) {
    CHECK("visits-in-order", h == o[i].first && K::get(h) == o[i].second, what, " ", how, " at ", i);
  };
  CHECK("length", end - begin == n && begin - end == -n, what);
  D c = 0;
  for (It it = begin; it != end; ++it, ++c) {
    CHECK("no-more-than-size", c < n, what);
    is(*it, c, "++");
    It a = it;
    CHECK("arrow", K::get(*a.operator->()) == o[c].second && *a.operator->() == o[c].first, what);
  }
  CHECK("visits-all", c == n, what);
  c = 0;
  for (It it = begin; it != end; c++) {
    It old = it++;
    is(*old, c, "post ++");
    CHECK("post-increment", it - old == 1, what);
  }
  CHECK("visits-all", c == n, what);
  c = n;
  for (It it = end; it != begin;) {
    if (r.flip()) {
      --it;
      --c;
    } else {
      It old = it--;
      CHECK("post-decrement", old - it == 1, what);
      --c;
    }
    CHECK("no-more-than-size", c >= 0, what);
    is(*it, c, "--");
  }
  CHECK("visits-all", c == 0, what);
  // positions behave like integers
  for (int t = 0; t < 12; ++t) {
    D a = r(n + 1), b = r(n + 1);
    It x = begin + a, y = begin + b;
    CHECK("difference", y - x == b - a && x - y == a - b, what, " ", a, " ", b);
    CHECK("comparison", (x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), what, " ", a, " ", b);
    CHECK("offset", x + (b - a) == y && (b - a) + x == y && y - (b - a) == x, what);
    It z = x;
    It& zr = (z += b - a);
    CHECK("offset", z == y && &zr == &z, what);
    It& zs = (z -= b - a);
    CHECK("offset", z == x && &zs == &z, what);
    It u = x;
    if (a < n) {
      It& ur = ++u;
      CHECK("increment", &ur == &u && u - x == 1, what);
      It& us = --u;
      CHECK("decrement", &us == &u && u == x, what);
      is(*x, a, "offset");
    }
    if (b < n) {
      is(x[b - a], b, "subscript");
      is(*(x + (b - a)), b, "offset");
    }
    u = y;
    CHECK("assignment", u == y && u - begin == b, what);
  }
}
template <typename K> static void looking(typename K::C& c, const std::vector<std::pair<typename K::M, int>>& o, Rng& r, const char* what) {
  const auto& k = c;
  looks<K>(c, o, what);
  size_t i = 0;
  for (auto x : k) {
    CHECK("range-for", i < o.size() && x == o[i].first && K::get(x) == o[i].second, what, " at ", i);
    ++i;
  }
  CHECK("range-for", i == o.size(), what);
  i = 0;
  for (auto x : c) {
    CHECK("range-for", i < o.size() && x == o[i].first && K::get(x) == o[i].second, what, " at ", i);
    ++i;
  }
  CHECK("range-for", i == o.size(), what);
  walk<typename K::C::const_iterator, K>(r, k.begin(), k.end(), o, what);
  walk<typename K::C::const_iterator, K>(r, c.cbegin(), c.cend(), o, what);
  walk<typename K::C::iterator, K>(r, c.begin(), c.end(), o, what);
  auto rev = [&](auto b, auto e) {
    size_t j = o.size();
    CHECK("reverse", size_t(e - b) == o.size(), what);
    for (; b != e; ++b) {
      CHECK("reverse", j > 0, what);
      --j;
      CHECK("reverse", *b == o[j].first && K::get(*b) == o[j].second, what, " at ", j);
    }
    CHECK("reverse", j == 0, what);
  };
  rev(k.rbegin(), k.rend());
  rev(c.rbegin(), c.rend());
  rev(c.crbegin(), c.crend());
  i = 0;
  for (auto x : k | std::views::transform([](auto v) { return K::get(v); }))
    CHECK("views", i < o.size() && x == o[i++].second, what);
  auto it = std::ranges::find_if(k, [&](const auto& x) { return !o.empty() && x == o[o.size() / 2].first; });
  CHECK("algorithms", o.empty() ? it == k.end() : it != k.end() && (it - k.begin() <= ptrdiff_t(o.size() / 2)) && *it == o[o.size() / 2].first, what);
  for (size_t n : {size_t(0), size_t(1), o.size(), o.size() + 3, o.size() / 2}) {
    auto v = K::all(k, n);
    size_t want = n == 0 || n > o.size() ? o.size() : n;
    CHECK("vector-access", v.size() == want, what, " ", v.size(), " values for ", n);
    for (size_t j = 0; j < want; ++j)
      CHECK("vector-access", v[j] == o[j].second, what, " at ", j);
  }
}
template <typename K> static void iteration(Rng& r) {
  typename K::C own, sub;
  sub.setSubsetCollection();
  std::vector<std::pair<typename K::M, int>> o, s;
  int n = r.flip(5) ? r(3) : r(14);
  for (int i = 0; i < n; ++i) {
    auto m = own.create();
    K::set(m, 3 * i + 1);
    o.emplace_back(m, 3 * i + 1);
  }
  for (int i = r(12); i > 0 && n; --i) {
    s.push_back(o[r(n)]);
    sub.push_back(s.back().first);
  }
  log(K::name, " ", n, " objects, subset of ", s.size());
  looking<K>(own, o, r, "owning collection");
  looking<K>(sub, s, r, "subset collection");
}
static void members(Rng& r) {
  HitCollection c;
  std::vector<Hit> h;
  int n = r(10);
  for (int i = 0; i < n; ++i) {
    auto m = c.create();
    m.cellID(r.next());
    m.energy(r.real());
    m.position({r.real(), r.real(), r.real()});
    m.weight(r.real());
    m.flag(r.flip());
    m.codes(r(4), r(1000));
    Comp x;
    x.s = r(100);
    m.comp(x);
    h.push_back(m);
  }
  log("members of ", n);
  for (size_t k : {size_t(0), size_t(1), size_t(3), size_t(n), size_t(n + 5)}) {
    size_t want = k == 0 || k > h.size() ? h.size() : k;
    auto a = c.cellID(k);
    auto b = c.energy(k);
    auto p = c.position(k);
    auto w = c.weight(k);
    auto f = c.flag(k);
    auto d = c.codes(k);
    auto e = c.comp(k);
    CHECK("vector-access", a.size() == want && b.size() == want && p.size() == want && w.size() == want && f.size() == want && d.size() == want && e.size() == want, "for ", k, " of ", n);
    for (size_t i = 0; i < want; ++i)
      CHECK("vector-access", a[i] == h[i].cellID() && b[i] == h[i].energy() && p[i].x == h[i].position().x && p[i].y == h[i].position().y && p[i].z == h[i].position().z && w[i] == h[i].weight() && f[i] == h[i].flag() && d[i] == h[i].codes() && e[i].s == h[i].comp().s, "at ", i);
  }
}
int main(int argc, char** argv) {
  return run(argc, argv, {{"Hit", 100, iteration<HitT>}, {"Cluster", 100, iteration<ClusterT>}, {"Part", 100, iteration<PartT>}, {"link", 100, iteration<LinkT>}, {"members", 200, members}});
}
