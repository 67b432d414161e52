#include "sub.h"
namespace vf {
VF_TABLE(fermions) {
  T0(F, r = zero) T1(F, F, r = a) T1(F, sF, r = a) T1(F, F, r += a) T1(F, F, r -= a) T2(F, sR, F, r = a * b) T2(F, sR, F, r += a * b) T2(F, sR, F, r -= a * b) T3(F, sR, F, F, r = a * b + e) T3(F, sR, F, F, r = a * b - e) T3(F, sR, F, F, r = b + a * e) T2(F, F, F, r = a + b) T2(F, F, F, r = a - b) T2(F, M, F, r = a * b) T2(F, M, F, r += adj(a) * b) T2(F, M, F, r -= a * b) T1(F, C, r *= a) T1(F, sR, r *= a) T1(F, sC, r *= a) T1F(0, PW2, F, R, r /= a) T0(F, r *= 2.0)
  T1(F, F, r = chiralProjectPlus(a)) T2(F, sR, F, r += a * chiralProjectMinus(b)) T1(F, F, r = Gamma(15) * a) T1(F, F, r += Gamma(6) * a) T2(F, M, F, r = a * shift(b, FORWARD, 0)) T2(F, M, F, r += shift(adj(a) * b, BACKWARD, 1)) T3(F, sR, F, sR, r = a * b + e * b)
  T1(F, H, r = spinReconstructDir0Plus(a)) T1(F, H, r += spinReconstructDir2Minus(a)) T2(F, M, H, r = spinReconstructDir1Plus(a * b)) T1(H, F, r = spinProjectDir3Plus(a)) T2(H, M, F, r = adj(a) * spinProjectDir1Minus(b)) T2(H, M, H, r = a * b) T2(H, M, H, r = adj(a) * b) T0(H, r = zero) T1(H, H, r += a)
  T0(FD, r = zero) T1(FD, FD, r = a) T2(FD, sRD, FD, r = a * b) T3(FD, sRD, FD, FD, r = a * b + e) T2(FD, sRD, FD, r += a * b) T2(FD, sRD, FD, r -= a * b) T2(FD, MD, FD, r = a * b) T1(FD, F, r = a) T1(FF, FD, r = a) T2(FD, FD, FD, r = a - b) T3(FD, sRD, FD, FD, r = b - a * e) T2(FD, sCD, FD, r += a * b)
  T0(P, r = zero) T1(P, P, r = a) T1(P, P, r += a) T1(P, P, r -= a) T2(P, M, P, r = a * b) T2(P, P, P, r = a * b) T2(P, M, P, r += adj(a) * b) T1(P, P, r = Gamma(5) * a) T1(P, sP, r = a) T1(P, sR, r *= a) T2(P, P, P, r = adj(a) - b) T2(P, sR, P, r = a * b) T0(P, r = 3.0)
  T0(S, r = zero) T1(S, S, r = a) T2(S, S, S, r = a * b) T1(S, sS, r = a) T1(S, C, r *= a) T2(S, S, S, r += adj(a) * b) T0(W, r = zero) T2(W, S, W, r = a * b) T1(W, W, r -= a)
  T1(X, X, r += a) T0(X, r = zero) T2(X, M, X, r = a * b) T2(XP, M, XP, r = a * b)
}
// fills
template <class D> void fills(Case& c) {
  Sub sub = draw_subset(c); c.note("on " + sub.name); D d; fill_exact(c, d, 0); auto before = image(d); D w;
  Seed s0; RNG::savern(s0); int sd = (int)c.below(1 << 30); 
  int op = (int)c.below(8); typedef typename Obj<D>::elem T;
  Seed seed = sd; RNG::setrn(seed);
  switch (op) {
    case 0: c.note("zero_rep(d,s)"); zero_rep(d, sub.s); w = zero; break;
    case 1: c.note("random(d,s)"); random(d, sub.s); RNG::setrn(seed); random(w); break;
    case 2: c.note("gaussian(d,s)"); gaussian(d, sub.s); RNG::setrn(seed); gaussian(w); break;
    case 3: c.note("random(d[s])"); random(d[sub.s]); RNG::setrn(seed); random(w); break;
    case 4: c.note("gaussian(d[s])"); gaussian(d[sub.s]); RNG::setrn(seed); gaussian(w); break;
    case 5: { c.note("copymask(d[s])"); LatticeBoolean m; fill_exact(c, m, 0); D src; fill_exact(c, src, 0); w = d; copymask(d[sub.s], m, src);
      for (int l = 0; l < geo().vol; ++l) if (Obj<LatticeBoolean>::at(m, l).elem().elem().elem()) Obj<D>::at(w, l) = Obj<D>::at(src, l); break; }
    case 6: c.note("d[s]=zero"); d[sub.s] = zero; w = zero; break;
    default: { c.note("copymask(d)"); LatticeBoolean m; fill_exact(c, m, 0); D src; fill_exact(c, src, 0); w = d; copymask(d, m, src); sub = whole();
      for (int l = 0; l < geo().vol; ++l) if (Obj<LatticeBoolean>::at(m, l).elem().elem().elem()) Obj<D>::at(w, l) = Obj<D>::at(src, l); }
  }
  Seed e1, e2; if (op >= 1 && op <= 4) { RNG::savern(e2); RNG::setrn(seed); switch (op) { case 1: random(d, sub.s); break; case 2: gaussian(d, sub.s); break; case 3: random(d[sub.s]); break; default: gaussian(d[sub.s]); } RNG::savern(e1);
    if (memcmp(&e1, &e2, sizeof e1)) c.fail("seed", "the seed after filling a subset differs from the one after filling the lattice"); }
  for (int l = 0; l < geo().vol; ++l) if (sub.in[l] && !bits_eq(Obj<D>::at(d, l), Obj<D>::at(w, l))) c.fail("insubset", "differs from the whole-lattice fill at " + where_str(l, Ix{0, 0, 0, 0}));
  check_untouched(c, d, before, sub.in, "offsubset");
  c.nontrivial(sub.count > 0);
}
VF_TEST("fills R", 2) { fills<LatticeReal>(c); } VF_TEST("fills C") { fills<LatticeComplex>(c); } VF_TEST("fills M", 2) { fills<LatticeColorMatrix>(c); } VF_TEST("fills F", 2) { fills<LatticeFermion>(c); }
VF_TEST("fills P") { fills<LatticePropagator>(c); } VF_TEST("fills FD") { fills<LatticeFermionD>(c); } VF_TEST("fills S") { fills<LatticeSpinMatrix>(c); } VF_TEST("fills V") { fills<LatticeColorVector>(c); } VF_TEST("fills X") { fills<LatticeStaggeredFermion>(c); }
// owning sub-lattices
template <class D> void owning(Case& c) {
  typedef typename Obj<D>::elem T; typedef OSubLattice<T> O;
  std::vector<Sub> subs; for (int i = 0; i < 3; ++i) subs.push_back(draw_subset(c));
  struct Slot { std::unique_ptr<O> o; int sub; std::vector<T> m; }; std::vector<Slot> v;
  D d; fill_exact(c, d, 0); int n = 3 + (int)c.below(8);
  auto of = [&](int s) { std::vector<T> m; for (int i = 0; i < subs[s].s.numSiteTable(); ++i) m.push_back(d.elem(subs[s].s.siteTable()[i])); return m; };
  auto eq = [&](const T* a, const T* b, size_t k) { for (size_t i = 0; i < k; ++i) if (!bits_eq(a[i], b[i])) return false; return true; };
  for (int i = 0; i < n; ++i) {
    int op = (int)c.below(9); if (v.empty()) op = 0;
    int k = v.empty() ? 0 : (int)c.below(v.size());
    switch (op) {
      case 0: { int s = (int)c.below(3); v.push_back({std::make_unique<O>(subs[s].s, d), s, of(s)}); c.note("own"); break; }
      case 1: v.push_back({std::make_unique<O>(*v[k].o), v[k].sub, v[k].m}); c.note("copy"); break;
      case 2: { int s = (int)c.below(3); auto o = std::make_unique<O>(); o->setSubset(subs[s].s); *o = zero; std::vector<T> m(subs[s].s.numSiteTable()); for (auto& x : m) zero_rep(x); v.push_back({std::move(o), s, m}); c.note("default+setSubset=zero"); break; }
      case 3: { int j = (int)c.below(v.size()); if (v[j].sub == v[k].sub) { *v[k].o = *v[j].o; v[k].m = v[j].m; c.note("own=own"); } break; }
      case 4: *v[k].o = d; v[k].m = of(v[k].sub); c.note("own=field"); break;
      case 5: { D off(d); d = *v[k].o; c.note("field=own");
        auto& s = subs[v[k].sub]; for (int l = 0; l < geo().vol; ++l) if (!s.in[l] && !bits_eq(Obj<D>::at(d, l), Obj<D>::at(off, l))) c.fail("offsubset", "field = owning changed " + where_str(l, Ix{0, 0, 0, 0}));
        for (int q = 0; q < s.s.numSiteTable(); ++q) if (!bits_eq(d.elem(s.s.siteTable()[q]), v[k].m[q])) c.fail("insubset", "field = owning stored a wrong value"); break; }
      case 6: fill_exact(c, d, 0); c.note("refill"); break;
      case 7: if (v.size() > 1) { v.erase(v.begin() + k); c.note("destroy"); } break;
      default: { int s = (int)c.below(3); v[k].o->setSubset(subs[s].s); *v[k].o = d; v[k].sub = s; v[k].m = of(s); c.note("setSubset"); }
    }
    for (auto& x : v) {
      VF_CHECK(c, x.o->getOwnsMemory() && x.o->subset().numSiteTable() == (int)x.m.size(), "own", "owning sublattice lost its subset");
      VF_CHECK(c, eq(x.o->getF(), x.m.data(), x.m.size()), "own", "owning sublattice holds wrong values");
    }
  }
  c.nontrivial(v.size() > 1);
}
VF_TEST("owning R", 2) { owning<LatticeReal>(c); } VF_TEST("owning M") { owning<LatticeColorMatrix>(c); } VF_TEST("owning F") { owning<LatticeFermion>(c); } VF_TEST("owning I") { owning<LatticeInteger>(c); }
VF_TEST("owning reductions", 4) {
  Sub s = draw_subset(c); LatticeFermion a, b; fill(a, c.seed(), 0); fill(b, c.seed(), 0); LatticeColorVector u, w; fill(u, c.seed(), 0); fill(w, c.seed(), 0);
  OSubLattice<LatticeFermion::Subtype_t> oa(s.s, a), ob(s.s, b); OSubLattice<LatticeReal::Subtype_t> rr;
  LatticeReal n = localNorm2(a); OSubLattice<LatticeReal::Subtype_t> on(s.s, n);
  long double sum1 = 0, ipr = 0, ipi = 0; double sc = 0;
  Ref ra = load(a), rb_ = load(b);
  for (int l = 0; l < geo().vol; ++l) if (s.in[l]) { Num x = localInnerProduct(ra.s[l], rb_.s[l]).v[0], y = localNorm2(ra.s[l]).v[0]; ipr += x.re; ipi += x.im; sum1 += y.re; sc += (double)(x.m + y.m); }
  double tol = 1e-5 * sc + 1e-20;
  DComplex p = innerProduct(oa, b), q = innerProduct(a, ob); double t = toDouble(Double(sum(on)));
  VF_CHECK(c, std::fabs(t - (double)sum1) <= tol, "sum", "sum(owning)=" << t << " expected " << (double)sum1);
  VF_CHECK(c, std::fabs(toDouble(real(p)) - (double)ipr) <= tol && std::fabs(toDouble(imag(p)) - (double)ipi) <= tol, "ip", "innerProduct(owning,field)");
  VF_CHECK(c, std::fabs(toDouble(real(q)) - (double)ipr) <= tol && std::fabs(toDouble(imag(q)) - (double)ipi) <= tol, "ip", "innerProduct(field,owning)");
  LatticeComplex r; fill(r, c.seed(), 0); auto before = image(r); Ref want = load(r);
  r = localInnerProduct(oa, b); for (int l = 0; l < geo().vol; ++l) if (s.in[l]) want.s[l] = localInnerProduct(ra.s[l], rb_.s[l]);
  compare(c, r, want, &s.in, "localInnerProduct(owning,field)", 1.2e-7); check_untouched(c, r, before, s.in, "offsubset");
  r = localInnerProduct(a, ob); compare(c, r, want, &s.in, "localInnerProduct(field,owning)", 1.2e-7);
  OSubLattice<LatticeColorVector::Subtype_t> ou(s.s, u); Ref ru = load(u), rw = load(w);
  r = localColorInnerProduct(ou, w); for (int l = 0; l < geo().vol; ++l) if (s.in[l]) want.s[l] = localInnerProduct(ru.s[l], rw.s[l]);
  compare(c, r, want, &s.in, "localColorInnerProduct(owning,field)", 1.2e-7);
  fill(r, c.seed(), 0); before = image(r); r = localColorInnerProduct(w, ou); for (int l = 0; l < geo().vol; ++l) if (s.in[l]) want.s[l] = localInnerProduct(rw.s[l], ru.s[l]);
  compare(c, r, want, &s.in, "localColorInnerProduct(field,owning)", 1.2e-7); check_untouched(c, r, before, s.in, "offsubset");
  c.nontrivial(s.count > 0);
}
// scalars: a subset has no effect
VF_TEST("scalar views", 3) {
  Sub s = draw_subset(c); int k = (int)c.range(-4, 4), k2 = (int)c.range(1, 4); Real a = k, b = k2; Real w = a;
  switch (c.below(7)) { case 0: a[s.s] = b; w = b; break; case 1: a[s.s] += b; w += b; break; case 2: a[s.s] *= b + b; w *= b + b; break; case 3: a[s.s] = zero; w = 0; break; case 4: a[s.s] = 2.5; w = 2.5; break; case 5: a[s.s] -= 1.0; w -= 1.0; break; default: a[s.s] = b[s.s]; w = b; }
  VF_CHECK(c, toDouble(a) == toDouble(w), "scalar", "assignment through a[s] of a scalar gave " << toDouble(a) << " expected " << toDouble(w));
  c.nontrivial();
}
}
