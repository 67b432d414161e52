// Spin projection and reconstruction: references, and functors picking the named function.
#ifndef VF_PROJ_H
#define VF_PROJ_H
#include "dirac.h"
namespace vf {
inline Ten proj_ref(const Ten& a, int d, int s) {      // upper half of (1 + s gamma_d) a
  Ten g = gamma_basis(d, false), r(2, 1, a.cr, a.cc);
  for (int k = 0; k < a.cr; ++k) for (int l = 0; l < a.cc; ++l) for (int i = 0; i < 2; ++i) {
    Num t = a.at(i, 0, k, l); for (int j = 0; j < 4; ++j) { Num e = g.at(i, j, 0, 0); if (e.re || e.im) t = t + Num(s) * e * a.at(j, 0, k, l); } r.at(i, 0, k, l) = t; }
  return r;
}
inline Ten recon_ref(const Ten& h, int d, int s) {     // lower half from (1 + s gamma_d) psi having upper half h
  Ten g = gamma_basis(d, false), r(4, 1, h.cr, h.cc);
  for (int k = 0; k < h.cr; ++k) for (int l = 0; l < h.cc; ++l) for (int i = 0; i < 4; ++i) {
    Num t; if (i < 2) t = h.at(i, 0, k, l); else for (int j = 0; j < 2; ++j) { Num e = g.at(i, j, 0, 0); if (e.re || e.im) t = t + Num(s) * e * h.at(j, 0, k, l); } r.at(i, 0, k, l) = t; }
  return r;
}
template <class X> struct is_ref { enum { value = std::is_same<X, Ref>::value }; };
#define VF_PR(N) \
template <int D, int S> struct N##_ { \
  template <class X> auto operator()(const X& x) const { \
    if constexpr (is_ref<X>::value) return r1(x, [](const Ten& t) { return N##_ref(t, D, S); }); else VF_BODY_##N } };
#define VF_SEL(F) \
    if constexpr (D == 0 && S > 0) return F##Dir0Plus(x); else if constexpr (D == 1 && S > 0) return F##Dir1Plus(x); else if constexpr (D == 2 && S > 0) return F##Dir2Plus(x); else if constexpr (D == 3 && S > 0) return F##Dir3Plus(x); \
    else if constexpr (D == 0) return F##Dir0Minus(x); else if constexpr (D == 1) return F##Dir1Minus(x); else if constexpr (D == 2) return F##Dir2Minus(x); else return F##Dir3Minus(x);
#define VF_BODY_proj VF_SEL(spinProject)
#define VF_BODY_recon VF_SEL(spinReconstruct)
VF_PR(proj) VF_PR(recon)
// the run-time forms
struct RtP { int d, s; template <class X> auto operator()(const X& x) const { if constexpr (is_ref<X>::value) { int dd = d, ss = s; return r1(x, [=](const Ten& t) { return proj_ref(t, dd, ss); }); } else return spinProject(x, d, s); } };
struct RtR { int d, s; template <class X> auto operator()(const X& x) const { if constexpr (is_ref<X>::value) { int dd = d, ss = s; return r1(x, [=](const Ten& t) { return recon_ref(t, dd, ss); }); } else return spinReconstruct(x, d, s); } };
inline int g_mu, g_sg, g_dir, g_sign;
template <class D, class A, class B, class F> void run_pj(Case& c, const std::string& name, F f) {
  int d = (int)c.below(4), s = c.below(2) ? -1 : 1; int mu = (int)c.below(4), sg = c.below(2) ? BACKWARD : FORWARD; g_mu = mu; g_sg = sg; g_dir = d; g_sign = s;
  c.note(name + " dir " + std::to_string(d) + (s > 0 ? " plus" : " minus"));
  Sub sub = whole(); bool mode = Obj<D>::lattice && c.below(3); if (mode) { sub = draw_subset(c); c.note("on " + sub.name); }
  D r; fill(c, r); A a; fill(c, a); B b; fill(c, b); Ref rr = load(r), ra = load(a), rb_ = load(b); auto before = image(r), ia = image(a), ib = image(b);
  RefDst dst{rr, Obj<D>::lattice ? &sub.in : nullptr};
  auto go = [&](auto&& R, auto& Aa, auto& Bb) {
    auto k = [&](auto pj, auto rc) { f(R, Aa, Bb, pj, rc); };
    switch (d * 2 + (s < 0)) { case 0: k(proj_<0, 1>(), recon_<0, 1>()); break; case 1: k(proj_<0, -1>(), recon_<0, -1>()); break; case 2: k(proj_<1, 1>(), recon_<1, 1>()); break; case 3: k(proj_<1, -1>(), recon_<1, -1>()); break;
      case 4: k(proj_<2, 1>(), recon_<2, 1>()); break; case 5: k(proj_<2, -1>(), recon_<2, -1>()); break; case 6: k(proj_<3, 1>(), recon_<3, 1>()); break; default: k(proj_<3, -1>(), recon_<3, -1>()); }
  };
  go((const RefDst&)dst, ra, rb_);
  if constexpr (Obj<D>::lattice) { if (mode) { auto v = r[sub.s]; go(v, a, b); } else go(r, a, b); } else go(r, a, b);
  compare(c, r, rr, Obj<D>::lattice ? &sub.in : nullptr, name + " dir " + std::to_string(d) + (s > 0 ? " plus" : " minus"), coarse<D, A, B>(), 64);
  if (mode) check_untouched(c, r, before, sub.in, "offsubset");
  VF_CHECK(c, ia == image(a) && ib == image(b), "operand", "an operand of " << name << " was modified");
  c.nontrivial(sub.count > 0);
}
template <class D, class A, class B, class F> void add_pj(const char* nm, F f, int w = 4) { std::string n = nm; tests().push_back({n, [=](Case& c) { run_pj<D, A, B>(c, n, f); }, w}); }
#define PJ_(D, A, B, ...) add_pj<D, A, B>(#D "<" #A "," #B ": " #__VA_ARGS__, [](auto&& r, auto& a, auto& b, auto PR, auto RC) { __VA_ARGS__; });
}
#endif
