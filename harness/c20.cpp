#include "h.h"
#include "podio/utilities/Glob.h"
#include <filesystem>
#include <fstream>
#include <iostream>
using namespace h;
namespace fs = std::filesystem;
static bool special(const std::string& s) {
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '\\')
      ++i;
    else if (strchr("*?[{", s[i]) && s[i])
      return true;
  }
  return false;
}
static void detect(Rng& r) {
  static const char al[] = "\\\\\\*?[]{}a./~-!\n\xff";
  std::string s;
  int n = r(12);
  for (int i = 0; i < n; ++i)
    s += r.flip(6) ? char(r(256)) : (r.flip() ? al[r(sizeof al)] : "ab\\/"[r(4)]);
  log("is_glob_pattern ", s);
  CHECK("detect", podio::utils::is_glob_pattern(s) == special(s), "expected ", special(s));
}
// shell matching of one path component: * ? [set] [!set] and backslash
static bool match(const char* p, const char* s) {
  if (!*p)
    return !*s;
  if (*p == '*')
    return match(p + 1, s) || (*s && match(p, s + 1));
  if (!*s)
    return false;
  if (*p == '?')
    return match(p + 1, s + 1);
  if (*p == '[') {
    const char* q = p + 1;
    bool neg = *q == '!';
    if (neg)
      ++q;
    bool in = false;
    const char* first = q;
    while (*q && (*q != ']' || q == first)) {
      if (q[1] == '-' && q[2] != ']') {
        in |= *q <= *s && *s <= q[2];
        q += 3;
      } else
        in |= *q++ == *s;
    }
    return in != neg && match(q + 1, s + 1);
  }
  if (*p == '\\')
    ++p;
  return *p == *s && match(p + 1, s + 1);
}
static std::string dir;
static std::vector<std::string> files;
static void expand(Rng& r) {
  static const char* parts[] = {"*", "?", "[ab]", "[!a]", "[a-c]", "a", "b", ".root", "_1", "\\*", "f", "x", "1", "\\["};
  auto component = [&]() {
    std::string s;
    int n = 1 + r(4);
    for (int i = 0; i < n; ++i)
      s += parts[r(14)];
    return s;
  };
  // a brace expression at the end gives a list of alternatives, each a pattern of its own
  std::vector<std::string> pats;
  std::string pat;
  if (r.flip(3)) {
    std::string a = component(), b = component(), c = component();
    pat = a + "{" + b + "," + c + "}";
    pats = {a + b, a + c};
  } else
    pats = {pat = component()};
  log("expand ", pat);
  std::vector<std::string> want;
  for (auto& p : pats) {
    if (!special(p) && p.find('\\') == std::string::npos && pats.size() == 1) {
      want.push_back(dir + "/" + p);
      continue;
    }
    for (auto& f : files)
      if (match(p.c_str(), f.c_str()) && (f[0] != '.' || p[0] == '.'))
        want.push_back(dir + "/" + f);
  }
  if (!special(pat) && pat.find('\\') != std::string::npos)
    return; // escaped name without pattern: what is expanded depends on the system
  bool brace = pats.size() > 1 && (pats[0].find_first_of("\\*?[") == std::string::npos || pats[1].find_first_of("\\*?[") == std::string::npos);
  if (brace)
    return; // plain alternatives inside a brace expression
  std::vector<std::string> got;
  bool threw = false;
  try {
    got = podio::utils::expand_glob(dir + "/" + pat);
  } catch (const std::exception&) {
    threw = true;
  }
  CHECK("no-match", threw == want.empty(), "matches expected: ", want.size());
  std::string g, w;
  for (auto& x : got)
    g += x.substr(dir.size()) + " ";
  for (auto& x : want)
    w += x.substr(dir.size()) + " ";
  CHECK("matches", got == want, "got ", g, "expected ", w);
}
static void plain(Rng& r) {
  static const char al[] = "abcz0189._-+=,:;@%^&()!#' \xc3\xa9";
  std::string s;
  int n = 1 + r(20);
  for (int i = 0; i < n; ++i)
    s += r.flip(8) && !s.empty() && s.back() != '/' ? '/' : al[r(sizeof al - 1)];
  if (s.back() == '/')
    s += "f";
  log("expand ", s);
  auto got = podio::utils::expand_glob(s);
  CHECK("plain", got.size() == 1 && got[0] == s, got.size(), " paths, first ", got.empty() ? "" : got[0]);
}
int main(int argc, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  setenv("LC_ALL", "C", 1);
  char t[] = "/tmp/podver-glob-XXXXXX";
  dir = mkdtemp(t);
  for (auto f : {"a", "b", "ab", "a_1.root", "b_1.root", "x_1.root", "f1", "f11", "*", "a*", "[", "ff", ".root", "a.root", "b.root", "c.root", "d1", "fa[b]", "x", "abx"})
    files.push_back(f);
  std::sort(files.begin(), files.end());
  for (auto& f : files)
    std::ofstream(dir + "/" + f) << "x";
  int rc = run(argc, argv, {{"detect", 4000, detect}, {"expand", 3000, expand}, {"plain", 500, plain}});
  fs::remove_all(dir);
  return rc;
}
