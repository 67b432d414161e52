// P07: gamma matrices
#include "dirac.h"
namespace vf {
template <class QGT, class D, class A, class B, class F> void run_g(Case& c, const std::string& name, F f) {
  int n = (int)c.below(16), m = (int)c.below(16); c.note(name + " n=" + std::to_string(n) + " m=" + std::to_string(m));
  Sub sub = whole(); bool mode = Obj<D>::lattice && c.below(2); if (mode) { sub = draw_subset(c); c.note("on " + sub.name); }
  D d; fill(c, d); A a; fill(c, a); B b; fill(c, b); Ref rd = load(d), ra = load(a), rb_ = load(b); auto before = image(d), ia = image(a), ib = image(b);
  RG rg{std::is_same<QGT, QGD>::value}; QGT g;
  f((const RefDst&)RefDst{rd, Obj<D>::lattice ? &sub.in : nullptr}, ra, rb_, rg, n, m);
  if constexpr (Obj<D>::lattice) { if (mode) { auto v = d[sub.s]; f(v, a, b, g, n, m); } else f(d, a, b, g, n, m); } else f(d, a, b, g, n, m);
  compare(c, d, rd, Obj<D>::lattice ? &sub.in : nullptr, name, coarse<D, A, B>(), 64);
  if (mode) check_untouched(c, d, before, sub.in, "offsubset");
  VF_CHECK(c, ia == image(a) && ib == image(b), "operand", "an operand of " << name << " was modified");
  c.nontrivial(sub.count > 0 && n > 0);
}
template <class D, class A, class B, class F> void add_g(const char* nm, F f) {
  std::string n1 = std::string("Gamma ") + nm, n2 = std::string("GammaDP ") + nm;
  tests().push_back({n1, [=](Case& c) { run_g<QG, D, A, B>(c, n1, f); }, 2}); tests().push_back({n2, [=](Case& c) { run_g<QGD, D, A, B>(c, n2, f); }, 2});
}
#define G_(D, A, B, ...) add_g<D, A, B>(#D "<" #A "," #B ": " #__VA_ARGS__, [](auto&& r, auto& a, auto& b, auto& G, int n, int m) { __VA_ARGS__; });
VF_TABLE(gammas) {
  G_(F,F,F, r = G(n) * a) G_(W,W,W, r = G(n) * a) G_(S,S,S, r = G(n) * a) G_(P,P,P, r = G(n) * a) G_(S,S,S, r = a * G(n)) G_(P,P,P, r = a * G(n)) G_(FD,FD,FD, r = G(n) * a) G_(PD,PD,PD, r = a * G(n)) G_(PD,PD,PD, r = G(n) * a) G_(FF,FF,FF, r = G(n) * a)
  G_(sF,sF,sF, r = G(n) * a) G_(sW,sW,sW, r = G(n) * a) G_(sS,sS,sS, r = G(n) * a) G_(sP,sP,sP, r = G(n) * a) G_(sS,sS,sS, r = a * G(n)) G_(sP,sP,sP, r = a * G(n))
  G_(F,F,F, r = G(n) * (G(m) * a)) G_(S,S,S, r = G(n) * a * G(m)) G_(P,P,P, r = G(n) * (a * G(m))) G_(P,P,P, r = (a * G(n)) * G(m)) G_(P,P,P, r = G(n) * (G(m) * a))
  G_(F,F,F, r += G(n) * (a + b)) G_(F,F,F, r -= G(n) * a - G(m) * b) G_(P,P,P, r = a * G(n) * b) G_(P,P,P, r = G(n) * adj(a) * G(m) * b) G_(C,P,P, r = trace(G(n) * adj(a) * G(m) * b)) G_(C,S,S, r = trace(G(n) * a)) G_(C,F,F, r = localInnerProduct(a, G(n) * b)) G_(F,M,F, r = a * (G(n) * b)) G_(F,M,F, r = G(n) * (a * b)) G_(P,P,P, r += a * G(n)) G_(S,S,S, r = transpose(G(n) * a) * G(m)) G_(P,P,M, r = b * (G(n) * a)) G_(F,F,F, r = G(n) * shift(a, FORWARD, 0)) G_(F,F,F, r = shift(G(n) * a, BACKWARD, 1)) G_(W,S,W, r = a * (G(n) * b)) G_(F,F,C, r = b * (G(n) * a)) G_(F,F,F, r = a + G(n) * a) G_(S,W,W, r = G(n) * outerProduct(a, b))
}
VF_TABLE(chiral) {
  S1(0,F,F, r = chiralProjectPlus(a)) S1(0,F,F, r = chiralProjectMinus(a)) S1(0,W,W, r = chiralProjectPlus(a)) S1(0,W,W, r = chiralProjectMinus(a)) S1(0,P,P, r = chiralProjectPlus(a)) S1(0,P,P, r = chiralProjectMinus(a)) S1(0,S,S, r = chiralProjectPlus(a)) S1(0,S,S, r = chiralProjectMinus(a)) S1(0,FD,FD, r = chiralProjectPlus(a)) S1(0,FD,FD, r = chiralProjectMinus(a)) S1(0,sF,sF, r = chiralProjectPlus(a)) S1(0,sF,sF, r = chiralProjectMinus(a)) S1(0,sP,sP, r = chiralProjectPlus(a)) S1(0,sP,sP, r = chiralProjectMinus(a))
  S2(0,F,F,F, r = chiralProjectPlus(a) + chiralProjectMinus(b)) S2(0,F,F,F, r = chiralProjectPlus(a - b)) S2(0,F,M,F, r = a * chiralProjectMinus(b)) S2(0,F,M,F, r = chiralProjectPlus(a * b)) S1(0,F,F, r += chiralProjectPlus(a)) S1(0,F,F, r -= chiralProjectMinus(a)) S1(0,F,F, r = chiralProjectPlus(chiralProjectMinus(a))) S1(0,F,F, r = chiralProjectMinus(chiralProjectMinus(a)))
}
// compile-time gammas
template <int N, class Q> void cgamma(Case& c, int n, Q& r, Q& a, Ref& w, const Ref& ra, int form) {
  if constexpr (N < 16) {
    if (n != N) { cgamma<N + 1>(c, n, r, a, w, ra, form); return; }
    Ref g(std::vector<Ten>(1, gamma_ref(N, form & 1)));
    constexpr bool mat = Dim<typename Obj<Q>::elem>::sc == 4;
    if (form & 1) { GammaConstDP<Ns, N> G; if (form & 2) { if constexpr (mat) { r = a * G; w = ra * g; } else { r = G * (a + a); w = g * (ra + ra); } } else { r = G * a; w = g * ra; } }
    else { GammaConst<Ns, N> G; if (form & 2) { if constexpr (mat) { r = a * G; w = ra * g; } else { r = G * (a + a); w = g * (ra + ra); } } else { r = G * a; w = g * ra; } }
  }
}
template <class Q> void cg(Case& c) {
  int n = (int)c.below(16), form = (int)c.below(4); c.note("GammaConst n=" + std::to_string(n) + " form " + std::to_string(form)); Q a, r; fill(c, a); Ref ra = load(a), w = ra; r = a;
  cgamma<0>(c, n, r, a, w, ra, form); compare(c, r, w, nullptr, "GammaConst", coarse<Q>(), 8); c.nontrivial(n > 0);
}
VF_TEST("GammaConst F", 2) { cg<LatticeFermion>(c); } VF_TEST("GammaConst W", 2) { cg<LatticeSpinVector>(c); } VF_TEST("GammaConst S", 3) { cg<LatticeSpinMatrix>(c); } VF_TEST("GammaConst P", 3) { cg<LatticePropagator>(c); } VF_TEST("GammaConst FD") { cg<LatticeFermionD>(c); } VF_TEST("GammaConst sP") { cg<Propagator>(c); } VF_TEST("GammaConst sF") { cg<Fermion>(c); }
// the element-level gammas used inside kernels
template <int N> void elems(Case& c, int n) {
  if constexpr (N < 16) {
    if (n != N) { elems<N + 1>(c, n); return; }
    Fermion a, r; fill(c, a); Ref ra = load(a), g(std::vector<Ten>(1, gamma_ref(N))); r.elem() = GammaConst<Ns, N>() * a.elem(); compare(c, r, g * ra, nullptr, "element gamma", coarse<Fermion>(), 8);
    r.elem() = GammaConst<Ns, N>() * (a.elem() + a.elem()); compare(c, r, g * (ra + ra), nullptr, "element gamma of sum gamma", coarse<Fermion>(), 8);
    Propagator p, q; fill(c, p); q.elem() = p.elem() * GammaConst<Ns, N>(); compare(c, q, load(p) * g, nullptr, "element right gamma", coarse<Propagator>(), 8);
    q.elem() = GammaConstDP<Ns, N>() * p.elem(); compare(c, q, Ref(std::vector<Ten>(1, gamma_ref(N, true))) * load(p), nullptr, "element DP gamma", coarse<Propagator>(), 8);
  }
}
VF_TEST("element gammas") { int n = (int)c.below(16); c.note("n=" + std::to_string(n)); elems<0>(c, n); c.nontrivial(n > 0); }
}
