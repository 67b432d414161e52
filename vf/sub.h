// Metamorphic subset engine: the statement on d[s] against the statement on the whole lattice.
#ifndef VF_SUB_H
#define VF_SUB_H
#include "stmt.h"
namespace vf {
enum { PW2 = 64, BOOLV = 128, SHIFTV = 256 };
// values whose arithmetic is exact: small integers, or powers of two
template <class Q> void fill_exact(Case& c, Q& q, int flags) {
  uint64_t s = c.seed(), k = 0; typedef typename Words<Q>::type W;
  walkall(q, [&](int, Ix, W& re, W* im) {
    auto g = [&] { uint64_t h = mix(s * 977 + ++k);
      if (flags & PW2) return (W)(h % 3 == 0 ? 1 : h % 3 == 1 ? 2 : 4);
      if (std::is_same<W, bool>::value) return (W)(h & 1);
      if (flags & SHIFTV) return (W)(h % 5);
      return (W)((int)(h % 9) - 4); };
    re = g(); if (im) *im = (flags & PW2) ? (W)0 : g(); });
}
template <class D, class... A, class F> void run_sub(Case& c, const std::string& name, F f, int fd, int fa) {
  c.note(name); Sub sub = draw_subset(c); c.note("on " + sub.name);
  D d; fill_exact(c, d, fd); D w(d), orig(d);
  std::tuple<A...> a; std::apply([&](auto&... x) { (fill_exact(c, x, fa), ...); }, a);
  std::apply([&](auto&... x) { f(w, x...); }, a);
  typedef typename Obj<D>::elem T;
  auto verify = [&](D& r, const D& off, const std::string& what) {
    for (int l = 0; l < geo().vol; ++l) {
      if (sub.in[l]) { if (!num_eq(Obj<D>::at(r, l), Obj<D>::at(w, l))) c.fail("insubset", what + ": " + name + " differs from the whole-lattice result at " + where_str(l, Ix{0, 0, 0, 0})); }
      else if (!bits_eq(Obj<D>::at(r, l), Obj<D>::at(off, l))) c.fail("offsubset", what + ": " + name + " changed " + where_str(l, Ix{0, 0, 0, 0}));
    } };
  switch (c.below(4)) {
    case 0: case 1: { { auto v = d[sub.s]; std::apply([&](auto&... x) { f(v, x...); }, a); } verify(d, orig, "view"); break; }
    case 2: { auto v = d[sub.s]; auto v2(v); std::apply([&](auto&... x) { f(v2, x...); }, a); verify(d, orig, "copied view"); break; }
    default: {
      OSubLattice<T> o(sub.s, d); D keep(d);
      for (int i = 0; i < sub.s.numSiteTable(); ++i) if (!bits_eq(o.getF()[i], d.elem(sub.s.siteTable()[i]))) c.fail("own", "OSubLattice(s,a) does not hold a's values");
      std::apply([&](auto&... x) { f(o, x...); }, a);
      OSubLattice<T> o2(o);
      for (int l = 0; l < geo().vol; ++l) if (!bits_eq(Obj<D>::at(d, l), Obj<D>::at(keep, l))) c.fail("own", "an operation on an owning OSubLattice changed the field it was taken from");
      D t; fill_exact(c, t, 0); D toff(t); 
      if (c.chance(1, 2)) t = o2; else t = o;
      verify(t, toff, "owning");
    }
  }
  c.nontrivial(sub.count > 0);
}
template <class D, class... A, class F> void add_sub(const char* name, F f, int fd = 0, int fa = 0) { std::string n = name; tests().push_back({n, [=](Case& c) { run_sub<D, A...>(c, n, f, fd, fa); }, 1}); }
#define T0(D, ...) vf::add_sub<D>(#D "[s]: " #__VA_ARGS__, [](auto& r) { __VA_ARGS__; });
#define T1(D, A, ...) vf::add_sub<D, A>(#D "[s]<" #A ": " #__VA_ARGS__, [](auto& r, auto& a) { __VA_ARGS__; });
#define T1F(FD, FA, D, A, ...) vf::add_sub<D, A>(#D "[s]<" #A ": " #__VA_ARGS__, [](auto& r, auto& a) { __VA_ARGS__; }, FD, FA);
#define T2(D, A, B, ...) vf::add_sub<D, A, B>(#D "[s]<" #A "," #B ": " #__VA_ARGS__, [](auto& r, auto& a, auto& b) { __VA_ARGS__; });
#define T2F(FD, FA, D, A, B, ...) vf::add_sub<D, A, B>(#D "[s]<" #A "," #B ": " #__VA_ARGS__, [](auto& r, auto& a, auto& b) { __VA_ARGS__; }, FD, FA);
#define T3(D, A, B, C3, ...) vf::add_sub<D, A, B, C3>(#D "[s]<" #A "," #B "," #C3 ": " #__VA_ARGS__, [](auto& r, auto& a, auto& b, auto& e) { __VA_ARGS__; });
typedef LatticeInteger I; typedef LatticeBoolean B; typedef Integer sI; typedef Boolean sB;
}
#endif
