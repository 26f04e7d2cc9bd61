#include "h.h"
#include "podio/utilities/MiscHelpers.h"
using namespace h;
static void split(Rng& r) {
  static const char delims[] = ",:; a\\\n/";
  char d = r.flip(6) ? char(r(256)) : delims[r(8)];
  std::string s;
  int n = r.flip(4) ? r(300) : r(12);
  for (int i = 0; i < n; ++i)
    s += r.flip(3) ? d : (r.flip(4) ? char(r(256)) : "ab,:\0x"[r(6)]);
  log("split ", s, " at ", d);
  std::vector<std::string> want;
  if (!s.empty()) {
    want.push_back("");
    for (char c : s)
      if (c == d)
        want.push_back("");
      else
        want.back() += c;
  }
  std::vector<std::string> got;
  std::string_view sv(s);
  for (auto p : podio::utils::splitString(sv, d)) {
    CHECK("within", p.empty() || (p.data() >= s.data() && p.data() + p.size() <= s.data() + s.size()));
    got.emplace_back(p);
  }
  CHECK("pieces", got == want, got.size(), " pieces, expected ", want.size());
  std::string j;
  for (size_t i = 0; i < got.size(); ++i)
    j += (i ? std::string(1, d) : std::string()) + got[i];
  CHECK("join", j == s);
  size_t k = 0;
  for (auto p : podio::utils::splitString(sv.substr(0, sv.size() / 2), d)) {
    CHECK("within", p.data() + p.size() <= s.data() + s.size() / 2);
    ++k;
  }
}
static int low(char c) { return c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : c; }
static std::string low(std::string s) {
  for (auto& c : s)
    c = low(c);
  return s;
}
static void sorted(Rng& r) {
  std::vector<std::string> v;
  int n = r.flip(3) ? r(60) : r(6);
  static const char al[] = "aAbBzZyY_09[^ ";
  for (int i = 0; i < n; ++i) {
    std::string s;
    int m = r(5);
    for (int k = 0; k < m; ++k)
      s += al[r(14)];
    v.push_back(s);
  }
  std::string t;
  for (auto& s : v)
    t += s + ",";
  log("sort ", t);
  auto w = podio::utils::sortAlphabeticaly(v);
  for (size_t i = 1; i < w.size(); ++i)
    CHECK("order", low(w[i - 1]) <= low(w[i]), w[i - 1], " before ", w[i]);
  auto a = v, b = w;
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  CHECK("permutation", a == b, a.size(), " names became ", b.size());
}
int main(int argc, char** argv) { return run(argc, argv, {{"split", 4000, split}, {"sort", 3000, sorted}}); }
