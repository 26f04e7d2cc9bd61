// Run-time contract harness: a seeded driver that calls the real code and checks the same pre- and
// postconditions that the verifier discharges, on concrete inputs.  Bounded by construction.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <csignal>
#include <sys/time.h>
#include <unistd.h>
#include <time.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" const char* __asan_default_options();

namespace h {
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x = 1) : s(x) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t operator()(uint64_t n) { return n ? next() % n : 0; }      // [0,n)
  bool flip(unsigned n = 2) { return (*this)(n) == 0; }
  double real() { return double(int64_t(next() % 2000001) - 1000000) / 64.0; }
  template <typename V> auto& pick(V& v) { return v[(*this)(v.size())]; }
  template <typename V> const auto& pick(const V& v) { return v[(*this)(v.size())]; }
};

struct Fail {
  std::string key, msg;
};
struct State {
  std::string trace;          // what the current case did so far
  std::string section;
  uint64_t evals = 0;
  uint64_t checks = 0;
  std::unordered_set<uint64_t> shapes;
  std::vector<std::string> samples;
  std::set<std::string> reported;
  int fails = 0;
  double tstart = 0, budget = 1;
  uint64_t seed = 1;
  bool thorough = false;
};
inline State& S() {
  static State s;
  return s;
}
inline double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
inline std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '\n')
      o += "; ";
    else if (c == '"')
      o += "'";
    else if (c == '\\')
      o += "/";
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "<%02x>", c);
      o += b;
    } else
      o += c;
  }
  return o;
}
inline void report(const std::string& key, const std::string& msg) {
  auto& s = S();
  s.fails++;
  if (!s.reported.insert(key).second)
    return;
  printf("{\"fail\":\"%s\",\"section\":\"%s\",\"msg\":\"%s\",\"trace\":\"%s\",\"seed\":%llu}\n", esc(key).c_str(), s.section.c_str(), esc(msg).substr(0, 2000).c_str(),
         esc(s.trace.size() > 6000 ? "..." + s.trace.substr(s.trace.size() - 6000) : s.trace).c_str(), (unsigned long long)s.seed);
  fflush(stdout);
}
template <typename... A> inline void log(const A&... a) {
  std::ostringstream o;
  (o << ... << a);
  S().trace += o.str();
  S().trace += "\n";
}
[[noreturn]] inline void fail(const std::string& key, const std::string& msg) { throw Fail{key, msg}; }
// a clause of the property: key names it, the rest says what was seen
#define CHECK(key, cond, ...)                                                                                          \
  do {                                                                                                                 \
    h::S().checks++;                                                                                                   \
    if (!(cond)) {                                                                                                     \
      std::ostringstream o_;                                                                                           \
      o_ << #cond << " does not hold " << h::cat(__VA_ARGS__);                                                         \
      h::fail(key, o_.str());                                                                                          \
    }                                                                                                                  \
  } while (0)
template <typename... A> inline std::string cat(const A&... a) {
  std::ostringstream o;
  (o << ... << a);
  return o.str();
}
// the expression must throw
#define THROWS(key, expr)                                                                                              \
  do {                                                                                                                 \
    bool t_ = false;                                                                                                   \
    h::S().checks++;                                                                                                   \
    try {                                                                                                              \
      (void)(expr);                                                                                                    \
    } catch (const std::exception&) {                                                                                  \
      t_ = true;                                                                                                       \
    }                                                                                                                  \
    if (!t_)                                                                                                           \
      h::fail(key, #expr " does not throw");                                                                           \
  } while (0)

inline void died() { report("memory", "sanitizer error (see stderr)"); }
inline void hung(int) {
  report("termination", "a single case used more than 20 s of CPU time");
  _exit(3);
}

// run one case; everything that is wrong in it is reported
inline void one(const std::function<void(Rng&)>& f, uint64_t seed) {
  auto& s = S();
  s.trace.clear();
  s.evals++;
  Rng r(seed);
  itimerval tv{{0, 0}, {20, 0}};
  setitimer(ITIMER_PROF, &tv, nullptr);
  try {
    f(r);
  } catch (const Fail& x) {
    report(x.key, x.msg);
  } catch (const std::exception& x) {
    report("unexpected-exception", x.what());
  }
  uint64_t hsh = std::hash<std::string>{}(s.section + s.trace);
  if (s.trace.size() > 4)
    s.shapes.insert(hsh);
  if (s.samples.size() < 3 && s.trace.size() > 4)
    s.samples.push_back(s.section + ": " + esc(s.trace).substr(0, 300));
}
struct Section {
  const char* name;
  int quick;                    // number of random cases in the quick tier (1: deterministic)
  std::function<void(Rng&)> f;
};
inline int run(int argc, char** argv, std::vector<Section> secs) {
  auto& s = S();
  s.seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
  s.thorough = argc > 2 && std::string(argv[2]) == "thorough";
  signal(SIGPROF, hung);
#if !__has_feature(thread_sanitizer) // its callback runs under a lock of the sanitizer: the exit status has to do
  if (__sanitizer_set_death_callback)
    __sanitizer_set_death_callback(died);
#endif
  for (auto& x : secs) {
    s.section = x.name;
    s.samples.clear();
    int n = x.quick == 1 ? 1 : x.quick * (s.thorough ? 25 : 1);
    double t0 = now();
    std::vector<std::string> keep;
    for (int i = 0; i < n && s.reported.size() < 20; ++i) {
      one(x.f, s.seed * 1000003 + i * 7919 + std::hash<std::string>{}(x.name));
      if (i > 20 && now() - t0 > (s.thorough ? 90 : 8))
        break;
    }
    for (auto& y : s.samples)
      printf("{\"sample\":\"%s\"}\n", esc(y).c_str());
    printf("{\"section\":\"%s\",\"secs\":%.2f}\n", x.name, now() - t0);
  }
  printf("{\"evaluations\":%llu,\"checks\":%llu,\"distinct\":%llu,\"done\":1}\n", (unsigned long long)s.evals, (unsigned long long)s.checks, (unsigned long long)s.shapes.size());
  return s.fails ? 1 : 0;
}

inline std::string rstr(Rng& r, size_t maxlen) {
  static const std::string al = "abXY_ 0.:\xff";
  std::string s;
  size_t n = r(maxlen + 1);
  for (size_t i = 0; i < n; ++i)
    s += r.flip(12) ? char(r(256)) : al[r(al.size())];
  return s;
}
} // namespace h

// live heap blocks: freed-exactly-once and no-leak checks (double frees are caught by the sanitizer)
namespace h {
inline long& live() {
  static long n = 0;
  return n;
}
}
#ifdef H_COUNT_ALLOC
void* operator new(std::size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p)
    abort();
  __atomic_add_fetch(&h::live(), 1, __ATOMIC_RELAXED);
  return p;
}
void operator delete(void* p) noexcept {
  if (p) {
    __atomic_sub_fetch(&h::live(), 1, __ATOMIC_RELAXED);
    free(p);
  }
}
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
#endif
extern "C" __attribute__((used)) inline const char* __asan_default_options_h() { return ""; }
