// Word-level statements: the same generic lambda on QDP++ objects and on native C++ words, site by site.
#ifndef VF_WORD_H
#define VF_WORD_H
#include "sub.h"
namespace vf {
enum { w_nz = 1, w_pos = 2, w_shift = 4, w_unit = 8, w_big = 16, w_special = 32, w_smallint = 64, w_ge1 = 128 };
template <class T> T draw_word(uint64_t h, int fl, int kind) {
  double u = (h >> 11) * (1.0 / 9007199254740992.0); uint64_t k = mix(h + 99);
  if constexpr (std::is_same<T, bool>::value) return h & 1;
  else if constexpr (std::is_integral<T>::value) {
    if (fl & w_shift) return (T)(h % 13);
    if (fl & w_big) return (T)h;
    T v = kind == 0 ? (T)((int)(h % 7) - 3) : (T)((int)(h % 2001) - 1000);
    if (fl & (w_pos | w_ge1)) v = v < 0 ? -v : v;
    if ((fl & (w_nz | w_ge1)) && !v) v = 1 + (T)(k % 9);
    if (fl & w_smallint) v = v % 6;
    return v;
  } else {
    if (fl & w_special) switch (k % 8) { case 0: return (T)INFINITY; case 1: return -(T)INFINITY; case 2: return (T)NAN; case 3: return (T)-0.0; case 4: return std::numeric_limits<T>::denorm_min() * (T)(1 + h % 5); case 5: return std::numeric_limits<T>::max(); default: break; }
    double v = kind == 0 ? (double)((int)(h % 9) - 4) : kind == 1 ? ((int)(h % 257) - 128) / 16.0 : kind == 2 ? 2 * u - 1 : (2 * u - 1) * std::ldexp(1.0, (int)(k % 21) - 10);
    if (fl & w_unit) v = std::fmod(v, 1.0) * 0.999;
    if (fl & (w_pos | w_ge1)) v = std::fabs(v);
    if (fl & w_ge1) v += 1;
    if ((fl & (w_nz | w_pos)) && std::fabs(v) < 1e-3) v = (k & 1) || (fl & w_pos) ? 0.75 : -0.5;
    if (fl & w_smallint) v = std::floor(std::fmod(v, 6));
    return (T)v;
  }
}
template <class Q> void fill_word(Case& c, Q& q, int fl) {
  uint64_t s = c.seed(), n = 0; int kind = (int)c.below(4); typedef typename Words<Q>::type W;
  walkall(q, [&](int, Ix, W& re, W* im) { re = draw_word<W>(mix(s * 7919 + ++n), fl, kind); if (im) *im = draw_word<W>(mix(s * 7919 + ++n), fl, kind); });
}
template <class T> bool agree(T g, T w, double ulps) {
  if constexpr (std::is_integral<T>::value) return g == w;
  else {
    if (std::isnan(w)) return std::isnan(g);
    if (std::isinf(w) || std::isinf(g)) return g == w;
    return std::fabs((ld)g - (ld)w) <= ulps * std::numeric_limits<T>::epsilon() * std::fabs((ld)w) + 4 * std::numeric_limits<T>::denorm_min();
  }
}
template <class Q> auto wordat(Q& q, int l) -> typename Words<Q>::type { typename Words<Q>::type v{}; walk(Obj<Q>::at(q, Obj<Q>::lattice ? l : 0), Ix{0, 0, 0, 0}, [&](Ix, auto& re, auto*) { v = re; }); return v; }
template <class D, class... A, class F> void run_word(Case& c, const std::string& name, F f, int fl, double ulps) {
  c.note(name); typedef typename Words<D>::type W;
  Sub sub = whole(); bool mode = false;
  if (Obj<D>::lattice && c.below(3)) { mode = true; sub = draw_subset(c); c.note("on " + sub.name); }
  D d; fill_word(c, d, fl & ~w_special); D orig(d);
  std::tuple<A...> a; std::apply([&](auto&... x) { (fill_word(c, x, fl), ...); }, a);
  if constexpr (Obj<D>::lattice) { if (mode) { auto&& v = d[sub.s]; std::apply([&](auto&... x) { f(v, x...); }, a); } else std::apply([&](auto&... x) { f(d, x...); }, a); }
  else std::apply([&](auto&... x) { f(d, x...); }, a);
  for (int l = 0; l < Obj<D>::sites(); ++l) {
    W w = wordat(orig, l), g = wordat(d, l);
    if (Obj<D>::lattice && !sub.in[l]) { if (memcmp(&w, &g, sizeof w)) c.fail("offsubset", name + " changed " + where_str(l, Ix{0, 0, 0, 0})); continue; }
    std::apply([&](auto&... x) { f(w, wordat(x, l)...); }, a);
    if (!agree(g, w, ulps)) {
      std::ostringstream o; o.precision(17); o << name << " at " << where_str(l, Ix{0, 0, 0, 0}) << " is " << g << ", C++ gives " << w << " from r=" << wordat(orig, l);
      std::apply([&](auto&... x) { ((o << ", " << wordat(x, l)), ...); }, a); c.fail("value", o.str());
    }
  }
  c.nontrivial(sub.count > 0);
}
template <class D, class... A, class F> void add_word(const char* name, F f, int fl, double ulps = 4) { std::string n = name; tests().push_back({n, [=](Case& c) { run_word<D, A...>(c, n, f, fl, ulps); }, 1}); }
#define W0(FL, D, ...) vf::add_word<D>(#D ": " #__VA_ARGS__, [](auto& r) { __VA_ARGS__; }, FL);
#define W1(FL, D, A, ...) vf::add_word<D, A>(#D "<" #A ": " #__VA_ARGS__, [](auto& r, const auto& a) { __VA_ARGS__; }, FL);
#define W2(FL, D, A, B, ...) vf::add_word<D, A, B>(#D "<" #A "," #B ": " #__VA_ARGS__, [](auto& r, const auto& a, const auto& b) { __VA_ARGS__; }, FL);
#define W3(FL, D, A, B, C3, ...) vf::add_word<D, A, B, C3>(#D "<" #A "," #B "," #C3 ": " #__VA_ARGS__, [](auto& r, const auto& a, const auto& b, const auto& e) { __VA_ARGS__; }, FL);
// native counterparts
inline bool where(bool k, bool a, bool b) { return k ? a : b; }
inline int where(bool k, int a, int b) { return k ? a : b; }
inline float where(bool k, float a, float b) { return k ? a : b; }
inline double where(bool k, double a, double b) { return k ? a : b; }
inline double where(bool k, float a, double b) { return k ? a : b; }
inline double where(bool k, double a, float b) { return k ? a : b; }
inline int toInt(int x) { return x; }
}
#endif
