// Statement tables: one generic lambda run on QDP++ objects and on references.
#ifndef VF_STMT_H
#define VF_STMT_H
#include "ref.h"
#include <tuple>
#include <utility>
namespace vf {
// QDP's shift is an object; this overload makes it usable next to the reference's function
template <class X, class = typename std::enable_if<!std::is_same<X, Ref>::value>::type> auto shift(const X& x, int s, int m) -> decltype(QDP::shift(x, s, m)) { return QDP::shift(x, s, m); }
enum { NZ = 1, POS = 2, NOSUB = 4, SU3 = 8, SMALL = 16, ONLYSUB = 32 };   // operand and mode restrictions
template <class Q> void fill_for(Case& c, Q& q, int flags) {
  if (flags & (NZ | POS)) {
    uint64_t s = c.seed(), k = 0; typedef typename Words<Q>::type W;
    walkall(q, [&](int, Ix, W& re, W* im) {
      auto g = [&] { double v = value(s, 1, k++); double m = 0.25 + std::fabs(v); return (W)((flags & POS) || v > 0 ? m : -m); };
      re = g(); if (!im) return;
      *im = g(); if (flags & POS) return;
      uint64_t h = mix(s + 77 * ++k) % 12;  // one part exactly 0, or both on the unit axes
      if (h < 2) re = 0; else if (h < 4) *im = 0; else if (h == 4) { re = re > 0 ? 1 : -1; *im = 0; } else if (h == 5) { re = 0; *im = *im > 0 ? 1 : -1; } });
  } else if (flags & SMALL) fill(q, c.seed(), (int)c.below(2));
  else fill(c, q);
}
template <class D, class... A> constexpr double coarse() { double e = eps_of<typename Words<D>::type>(); ((e = std::max(e, eps_of<typename Words<A>::type>())), ...); return e; }
template <class D, class... A, class F> void run_stmt(Case& c, const std::string& name, F f, int flags, double K) {
  c.note(name);
  Sub sub = whole(); int mode = 0;
  if (Obj<D>::lattice && !(flags & NOSUB)) { mode = (flags & ONLYSUB) ? 1 : (int)c.below(3) ? 1 : 0; if (mode) { sub = draw_subset(c); c.note("on " + sub.name); } }
  D d; fill_for(c, d, flags & ~(NZ | POS));
  std::tuple<A...> a; std::apply([&](auto&... x) { (fill_for(c, x, flags), ...); }, a);
  auto refs = std::apply([&](auto&... x) { return std::make_tuple((sizeof(x), load(x))...); }, a);
  Ref rd = load(d), self = rd;
  std::vector<std::string> before; if (Obj<D>::lattice && mode) before = image(d);
  auto argimg = std::apply([&](auto&... x) { return std::vector<std::vector<std::string>>{image(x)...}; }, a);
  RefDst dst{rd, Obj<D>::lattice ? &sub.in : nullptr};
  std::apply([&](auto&... x) { f(dst, self, x...); }, refs);
  if constexpr (Obj<D>::lattice) {
    if (mode) { auto&& v = d[sub.s]; std::apply([&](auto&... x) { f(v, d, x...); }, a); }
    else std::apply([&](auto&... x) { f(d, d, x...); }, a);
  } else std::apply([&](auto&... x) { f(d, d, x...); }, a);
  compare(c, d, rd, Obj<D>::lattice ? &sub.in : nullptr, name, coarse<D, A...>(), K);
  if (Obj<D>::lattice && mode) check_untouched(c, d, before, sub.in, "offsubset");
  auto argimg2 = std::apply([&](auto&... x) { return std::vector<std::vector<std::string>>{image(x)...}; }, a);
  VF_CHECK(c, argimg == argimg2, "operand", "an operand of " << name << " was modified");
  c.nontrivial(sub.count > 0);
}
// x is the whole destination object, usable as an operand.
template <class D, class... A, class F> void add_stmt(const char* name, F f, int flags = 0, double K = 64) {
  std::string n = name;
  tests().push_back({n, [=](Case& c) { run_stmt<D, A...>(c, n, f, flags, K); }, 1});
}
#define S0(FL, D, ...) vf::add_stmt<D>(#D ": " #__VA_ARGS__, [](auto& r, auto& x) { __VA_ARGS__; }, FL);
#define S1(FL, D, A, ...) vf::add_stmt<D, A>(#D "<" #A ": " #__VA_ARGS__, [](auto& r, auto& x, auto& a) { __VA_ARGS__; }, FL);
#define S2(FL, D, A, B, ...) vf::add_stmt<D, A, B>(#D "<" #A "," #B ": " #__VA_ARGS__, [](auto& r, auto& x, auto& a, auto& b) { __VA_ARGS__; }, FL);
#define S3(FL, D, A, B, C3, ...) vf::add_stmt<D, A, B, C3>(#D "<" #A "," #B "," #C3 ": " #__VA_ARGS__, [](auto& r, auto& x, auto& a, auto& b, auto& e) { __VA_ARGS__; }, FL);
#define S4(FL, D, A, B, C3, D4, ...) vf::add_stmt<D, A, B, C3, D4>(#D "<" #A "," #B "," #C3 "," #D4 ": " #__VA_ARGS__, [](auto& r, auto& x, auto& a, auto& b, auto& e, auto& g) { __VA_ARGS__; }, FL);
// destination of the type QDP++ computes for the expression itself
template <class T> struct DstOf { typedef T type; };
template <class E, class C> struct DstOf<QDPExpr<E, C>> { typedef C type; };
template <class... A, class F> void add_auto(const char* name, F f, int flags = 0) {
  typedef typename DstOf<typename std::decay<decltype(f(std::declval<A&>()...))>::type>::type D;
  add_stmt<D, A...>(name, [f](auto& r, auto&, auto&... a) { r = f(a...); }, flags);
}
#define A1(FL, A, ...) vf::add_auto<A>(#A ": " #__VA_ARGS__, [](auto& a) { return __VA_ARGS__; }, FL);
#define A2(FL, A, B, ...) vf::add_auto<A, B>(#A "," #B ": " #__VA_ARGS__, [](auto& a, auto& b) { return __VA_ARGS__; }, FL);
#define VF_TABLE(NAME) static void NAME(); static int VF_CAT(NAME, _reg) = (NAME(), 0); static void NAME()
typedef LatticeColorMatrix M; typedef LatticeColorVector V; typedef LatticeFermion F; typedef LatticePropagator P; typedef LatticeSpinMatrix S; typedef LatticeSpinVector W;
typedef LatticeComplex C; typedef LatticeReal R; typedef LatticeHalfFermion H;
typedef LatticeStaggeredFermion X; typedef LatticeStaggeredPropagator XP;
typedef ColorMatrix sM; typedef ColorVector sV; typedef Fermion sF; typedef Propagator sP; typedef SpinMatrix sS; typedef SpinVector sW; typedef Complex sC; typedef Real sR; typedef HalfFermion sH; typedef StaggeredFermion sX;
typedef LatticeColorMatrixD MD; typedef LatticeColorVectorD VD; typedef LatticeFermionD FD; typedef LatticePropagatorD PD; typedef LatticeComplexD CD; typedef LatticeRealD RD;
typedef LatticeColorMatrixF MF; typedef LatticeColorVectorF VF_; typedef LatticeFermionF FF; typedef LatticePropagatorF PF; typedef LatticeComplexF CF; typedef LatticeRealF RF;
typedef LatticeHalfFermionD HD; typedef LatticeHalfFermionF HF;
typedef RealF sRF; typedef RealD sRD; typedef ComplexD sCD; typedef ComplexF sCF; typedef ColorMatrixD sMD; typedef FermionD sFD;
}
#endif
