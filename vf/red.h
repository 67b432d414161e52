// Reductions: one lambda run with a QDP++ reducer and with a reference reducer.
#ifndef VF_RED_H
#define VF_RED_H
#include "stmt.h"
namespace vf {
struct QRed {
  const Subset* s;
  template <class X> auto sum(const X& x) const { return s ? QDP::sum(x, *s) : QDP::sum(x); }
  template <class X> auto norm2(const X& x) const { return s ? QDP::norm2(x, *s) : QDP::norm2(x); }
  template <class X, class Y> auto ip(const X& x, const Y& y) const { return s ? QDP::innerProduct(x, y, *s) : QDP::innerProduct(x, y); }
  template <class X, class Y> auto ipr(const X& x, const Y& y) const { return s ? QDP::innerProductReal(x, y, *s) : QDP::innerProductReal(x, y); }
};
inline Ref sumref(const Ref& a, const std::vector<char>* in) {
  if (a.s.size() == 1 && !(in && geo().vol == 1)) return a;     // a scalar, unless the lattice has one site
  Ten t = mapt(a.s[0], [](Num) { return Num(); });
  for (size_t i = 0; i < a.s.size(); ++i) if (!in || (*in)[i]) t = t + a.s[i];
  return Ref(std::vector<Ten>{t});
}
struct RRed {
  const std::vector<char>* in;
  mutable ld worst = 0;                    // largest magnitude met at a site
  const Ref& see(const Ref& a) const { for (auto& t : a.s) for (auto& n : t.v) worst = std::max(worst, n.m); return a; }
  Ref sum(const Ref& a) const { return sumref(see(a), a.s.size() == geo().vol ? in : nullptr); }
  Ref norm2(const Ref& a) const { return sum(localNorm2(a)); }
  Ref ip(const Ref& a, const Ref& b) const { return sum(localInnerProduct(a, b)); }
  Ref ipr(const Ref& a, const Ref& b) const { return sum(localInnerProductReal(a, b)); }
};
// integers up to B in magnitude
template <class Q> void fill_int(Case& c, Q& q, int64_t B) {
  uint64_t s = c.seed(), k = 0; typedef typename Words<Q>::type W;
  auto g = [&] { return (W)((int64_t)(mix(s * 131 + ++k) % (2 * B + 1)) - B); };
  walkall(q, [&](int, Ix, W& re, W* im) { re = g(); if (im) *im = g(); });
}
enum { LIN = 1, QUAD = 2, QUART = 4 };
template <class... A> int64_t bound_for(int deg) {
  double w = 1; ((w = std::max(w, (double)words_of<typename Obj<A>::elem>())), ...);
  if (deg == LIN) return 1 << 20;
  if (deg == QUAD) return (int64_t)std::sqrt((1 << 22) / w);
  return 5;
}
template <class Q> struct is_sum_word { typedef typename Words<Q>::type W; enum { dbl = std::is_same<W, double>::value }; };
template <class... A, class F> void run_red(Case& c, const std::string& name, F f, int deg) {
  c.note(name);
  Sub sub = whole(); bool mode = c.chance(2, 3); if (mode) { sub = draw_subset(c); c.note("on " + sub.name); }
  bool exact = c.chance(1, 2); if (exact) c.note("integers");
  std::tuple<A...> a; int64_t B = bound_for<A...>(deg);
  // sums of integer fields are integers: keep them within 31 bits
  if ((std::is_integral<typename Words<A>::type>::value || ...)) B = std::min<int64_t>(B, (int64_t)(deg == LIN ? (ld)(1 << 30) / geo().vol : std::sqrt((ld)(1 << 30) / geo().vol)));
  std::apply([&](auto&... x) { ((exact ? fill_int(c, x, B) : fill(c, x)), ...); }, a);
  auto refs = std::apply([&](auto&... x) { return std::make_tuple((sizeof(x), load(x))...); }, a);
  auto argimg = std::apply([&](auto&... x) { return std::vector<std::vector<std::string>>{image(x)...}; }, a);
  RRed rr{mode ? &sub.in : nullptr}; Ref want = std::apply([&](auto&... x) { return f(rr, x...); }, refs);
  QRed qr{mode ? &sub.s : nullptr}; auto got = std::apply([&](auto&... x) { return f(qr, x...); }, a);
  typedef decltype(got) Q;
  double eps = eps_of<typename Words<Q>::type>(); bool lossless = true;
  ((eps = std::max(eps, eps_of<typename Words<A>::type>())), ...);
  ld tot = 0; for (auto& n : want.at(0).v) tot = std::max(tot, n.m);
  const ld lim = (ld)(1 << 24);
  if (!exact || rr.worst > lim || (!is_sum_word<Q>::dbl && tot > lim)) lossless = false;
  if (lossless) eps = 0;
  compare(c, got, want, nullptr, name + (mode ? " on a subset of " + std::to_string(sub.count) + " sites" : " over the lattice"), eps, 64, lossless ? "exact" : "value");
  auto argimg2 = std::apply([&](auto&... x) { return std::vector<std::vector<std::string>>{image(x)...}; }, a);
  VF_CHECK(c, argimg == argimg2, "operand", "an operand of " << name << " was modified");
  c.nontrivial(sub.count > 0);
}
template <class... A, class F> void add_red(const char* name, F f, int deg) { std::string n = name; tests().push_back({n, [=](Case& c) { run_red<A...>(c, n, f, deg); }, 1}); }
#define D1(DEG, A, ...) vf::add_red<A>(#A ": " #__VA_ARGS__, [](auto& q, auto& a) { return __VA_ARGS__; }, DEG);
#define D2(DEG, A, B, ...) vf::add_red<A, B>(#A "," #B ": " #__VA_ARGS__, [](auto& q, auto& a, auto& b) { return __VA_ARGS__; }, DEG);
#define D3(DEG, A, B, C3, ...) vf::add_red<A, B, C3>(#A "," #B "," #C3 ": " #__VA_ARGS__, [](auto& q, auto& a, auto& b, auto& e) { return __VA_ARGS__; }, DEG);
}
#endif
