// Case generation, recording, replay: the property-testing core.
#ifndef VF_H
#define VF_H
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <functional>
#include <cmath>
#include <algorithm>
namespace vf {

inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
struct Rng {                       // splitmix64
  uint64_t s;
  explicit Rng(uint64_t x = 0) : s(mix(x ^ 0x5851f42d4c957f2dull)) {}
  uint64_t next() { uint64_t r = mix(s); s += 0x9e3779b97f4a7c15ull; return r; }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

struct Failure { std::string sig, msg; };
struct Discard {};

// Shared with the parent so that a crash still leaves the choices behind.
struct Shared {
  static const int MAXC = 60000;
  volatile int n;
  volatile int test;
  volatile int state;              // 0 running, 1 failed, 2 finished
  volatile uint64_t cases, nontrivial;
  char sig[256];
  char msg[4000];
  char desc[2000];
  uint64_t c[MAXC];
};

class Case {
 public:
  bool replay = false;
  std::vector<uint64_t> in;        // replayed choices
  size_t pos = 0;
  Rng rng;
  Shared* sh = nullptr;
  bool nontriv = false;
  std::string scratch;             // private directory for files
  std::ostringstream log;

  // A choice in [0,n). 0 is the simplest.
  uint64_t below(uint64_t n) {
    if (n <= 1) return 0;
    uint64_t v;
    if (replay) { v = pos < in.size() ? in[pos] : 0; ++pos; if (v >= n) v %= n; }
    else v = rng.below(n);
    if (sh->n < Shared::MAXC) { sh->c[sh->n] = v; sh->n = sh->n + 1; }
    else throw Discard();
    return v;
  }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
  bool chance(int num, int den) { return below(den) >= (uint64_t)(den - num); }
  uint64_t bits() { return below(~0ull); }
  uint64_t seed() { return below(1u << 20); }     // expands into bulk data
  template <class V> auto pick(const V& v) -> decltype(v[0]) { return v[below(v.size())]; }

  void note(const std::string& s) {
    log << s << ' ';
    strncat(sh->desc, (s + " ").c_str(), sizeof(sh->desc) - strlen(sh->desc) - 1);
  }
  void nontrivial(bool b = true) { if (b) nontriv = true; }
  [[noreturn]] void fail(const std::string& sig, const std::string& msg) { throw Failure{sig, msg}; }
};

#define VF_STR(x) ([&]() { std::ostringstream vf_o; vf_o << x; return vf_o.str(); }())
#define VF_CHECK(c, cond, sig, msg) do { if (!(cond)) (c).fail(sig, VF_STR(msg)); } while (0)

struct Test { std::string name; std::function<void(Case&)> f; int weight; };
std::vector<Test>& tests();
struct Reg { Reg(const char* n, std::function<void(Case&)> f, int w = 1) { tests().push_back({n, f, w}); } };
#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#define VF_TEST3(f, r, name, ...) \
  static void f(vf::Case&); \
  static vf::Reg r(name, f, ##__VA_ARGS__); \
  static void f(vf::Case& c)
#define VF_TEST2(n, name, ...) VF_TEST3(VF_CAT(vf_t_, n), VF_CAT(vf_r_, n), name, ##__VA_ARGS__)
#define VF_TEST(name, ...) VF_TEST2(__COUNTER__, name, ##__VA_ARGS__)

// Provided by the harness: builds the session's geometry (draws from c), run
// once per forked session, before any case.
void session_begin(Case& c, int argc, char** argv);
void case_begin(Case& c);

}  // namespace vf
#endif
