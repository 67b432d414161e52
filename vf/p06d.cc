// conversions to C++ types, complex forms
#include "word.h"
#include <complex>
namespace vf {
typedef LatticeBoolean B_; typedef ComplexD sCD;
template <class S> void conv(Case& c) {
  typedef typename Words<S>::type W; W v = draw_word<W>(mix(c.seed()), 0, (int)c.below(4)); S s; s.elem().elem().elem().elem() = v; S s2(v), s3 = s; S s4; s4 = v;
  VF_CHECK(c, toInt(Integer(s)) == (int)v, "convert", "Integer(" << v << ")"); 
  VF_CHECK(c, toDouble(Double(s)) == (double)v, "convert", "Double(" << v << ")"); VF_CHECK(c, toFloat(Real32(s)) == (float)v, "convert", "Real32(" << v << ")");
  VF_CHECK(c, toDouble(Real64(s2)) == (double)v && toDouble(Real64(s3)) == (double)v && toDouble(Real64(s4)) == (double)v, "convert", "construct/copy/assign " << v);
  VF_CHECK(c, toWordType(s) == v, "convert", "toWordType(" << v << ")"); VF_CHECK(c, toBool(s2 == s3) && !toBool(s2 != s3) && !toBool(s2 < s3), "convert", "comparison " << v);
  // broadcast to a lattice and back
  LatticeRealD l = s; LatticeRealF lf = s; for (int i = 0; i < geo().vol; ++i) VF_CHECK(c, wordat(l, i) == (double)v && wordat(lf, i) == (float)v, "broadcast", "lattice from scalar " << v);
  c.nontrivial(v != 0);
}
VF_TEST("convert Integer", 2) { conv<Integer>(c); } VF_TEST("convert Real", 2) { conv<Real>(c); } VF_TEST("convert Double", 2) { conv<Double>(c); }
VF_TEST("convert Boolean") { bool v = c.below(2); Boolean b(v), d = b; VF_CHECK(c, toBool(b) == v && toBool(!b) == !v && toBool(d) == v && toWordType(b) == v, "convert", "Boolean " << v); LatticeBoolean l = b; for (int i = 0; i < geo().vol; ++i) VF_CHECK(c, wordat(l, i) == v, "broadcast", "LatticeBoolean from Boolean"); LatticeInteger k; fill_word(c, k, 0); LatticeBoolean g = where(l, k > 0, k < 0); for (int i = 0; i < geo().vol; ++i) VF_CHECK(c, wordat(g, i) == (v ? wordat(k, i) > 0 : wordat(k, i) < 0), "where", "where on booleans"); c.nontrivial(); }
VF_TEST("literals in scalar expressions", 2) {
  int i = (int)c.range(-50, 50); double x = i / 8.0; Real a = x; Double d = x; Integer k = i; Real b = a * 2 + 1; Double e = 3.0 - d / 4; Integer m = (k + 7) * 3;
  VF_CHECK(c, toDouble(b) == x * 2 + 1 && toDouble(e) == 3.0 - x / 4 && toInt(m) == (i + 7) * 3, "value", "literals with " << i);
  Real f = where(a < 0, -a, a); VF_CHECK(c, toDouble(f) == std::fabs(x), "where", "where(a<0,-a,a) of " << x); c.nontrivial();
}
// complex numbers against the reference
VF_TABLE(complexes) {
  S2(NZ,C,C,C, r = a / b) S2(NZ,C,C,R, r = a / b) S2(NZ,C,R,C, r = a / b) S2(NZ,C,sC,C, r = a / b) S2(NZ,C,C,sC, r = a / b) S2(NZ,CD,CD,CD, r = a / b) S2(NZ,CD,C,CD, r = a / b) S2(NZ,sC,sC,sC, r = a / b) S2(NZ,sCD,sCD,sCD, r = a / b) S2(NZ,C,C,sR, r = a / b) S2(NZ,sC,sC,sR, r = a / b) S2(NZ,C,sR,C, r = a / b) S2(NZ,sC,sR,sC, r = a / b)
  S1(NZ,C,C, r /= a) S1(NZ,C,R, r /= a) S1(NZ,C,sC, r /= a) S1(NZ,C,sR, r /= a) S1(NZ,sC,sC, r /= a) S1(NZ,CD,CD, r /= a)
  S2(0,C,C,C, r = a * b) S2(0,C,R,C, r = a * b) S2(0,C,C,R, r = a * b) S2(0,C,sR,C, r = a * b) S2(0,C,C,sC, r = a * b) S2(0,sC,sC,sC, r = a * b) S2(0,sC,sR,sC, r = a * b) S1(0,C,C, r *= a) S1(0,C,R, r *= a) S1(0,sC,sC, r *= a) S1(0,C,sC, r *= a) S1(0,sC,sR, r *= a)
  S2(0,C,C,C, r = a + b) S2(0,C,C,R, r = a + b) S2(0,C,R,C, r = a - b) S2(0,C,C,R, r = a - b) S2(0,C,R,C, r = a + b) S2(0,sC,sC,sR, r = a + b) S2(0,sC,sR,sC, r = a - b) S2(0,C,sC,R, r = a - b) S1(0,C,R, r += a) S1(0,C,R, r -= a) S1(0,C,C, r += a) S1(0,C,sC, r -= a)
  S1(0,C,C, r = conj(a)) S1(0,sC,sC, r = conj(a)) S1(0,C,C, r = -a) S1(0,R,C, r = real(a)) S1(0,R,C, r = imag(a)) S1(0,sR,sC, r = real(a)) S1(0,sR,sC, r = imag(a)) S1(0,C,C, r = timesI(a)) S1(0,C,C, r = timesMinusI(a)) S1(0,C,C, r = adj(a)) S1(0,C,C, r = transpose(a)) S1(0,R,C, r = localNorm2(a)) S2(0,C,R,R, r = cmplx(a, b)) S2(0,C,sR,R, r = cmplx(a, b)) S2(0,C,R,sR, r = cmplx(a, b)) S2(0,sC,sR,sR, r = cmplx(a, b)) S2(0,CD,RD,RD, r = cmplx(a, b)) S1(0,C,R, r = timesI(a)) S1(0,C,R, r = timesMinusI(a)) S2(0,C,R,R, r = a + timesI(b)) S1(0,C,R, r = a) S1(0,sC,sR, r = a)
  S2(0,C,C,C, r = conj(a) * b) S2(0,C,C,C, r = a * conj(b)) S2(0,C,C,C, r = conj(a) * conj(b)) S2(0,C,C,C, r = adj(a) * b) S2(0,C,C,C, r = a * adj(b)) S2(0,C,C,C, r = adj(a) * adj(b)) S2(0,CD,CD,CD, r += adj(a) * b) S2(NZ,C,C,C, r = conj(a) / b) S2(0,CD,CD,C, r = a * b) S2(0,R,C,C, r = real(a * conj(b))) S2(0,R,C,C, r = imag(conj(a) * b)) S2(0,sC,sC,sC, r = adj(a) * b) S2(0,sC,sC,sC, r = a * adj(b)) S2(0,sC,sC,sC, r = adj(a) * adj(b))
}
// where with complex and tensor branches, per-site
template <class Q> void wheres(Case& c) {
  LatticeBoolean k; fill_word(c, k, 0); Q a, b, r, o; fill(a, c.seed(), 1); fill(b, c.seed(), 1); fill(r, c.seed(), 1); o = r; Sub s = draw_subset(c); r[s.s] = where(k, a, b);
  for (int l = 0; l < geo().vol; ++l) { auto& w = s.in[l] ? (wordat(k, l) ? Obj<Q>::at(a, l) : Obj<Q>::at(b, l)) : Obj<Q>::at(o, l); VF_CHECK(c, bits_eq(Obj<Q>::at(r, l), w), "where", "where at " << where_str(l, Ix{0, 0, 0, 0})); }
  c.nontrivial(s.count > 0);
}
VF_TEST("where C") { wheres<LatticeComplex>(c); } VF_TEST("where M") { wheres<LatticeColorMatrix>(c); } VF_TEST("where F") { wheres<LatticeFermion>(c); } VF_TEST("where V") { wheres<LatticeColorVector>(c); }
VF_TEST("where complex/real mixes") {
  LatticeBoolean k; fill_word(c, k, 0); LatticeComplex a; fill(a, c.seed(), 1); LatticeReal b; fill(b, c.seed(), 1); LatticeComplex r = where(k, a, b), q = where(k, b, a);
  for (int l = 0; l < geo().vol; ++l) { auto& ea = Obj<LatticeComplex>::at(a, l).elem().elem(); auto br = wordat(b, l); auto& x = Obj<LatticeComplex>::at(r, l).elem().elem(); auto& y = Obj<LatticeComplex>::at(q, l).elem().elem(); bool t = wordat(k, l);
    VF_CHECK(c, x.real() == (t ? ea.real() : br) && x.imag() == (t ? ea.imag() : 0) && y.real() == (t ? br : ea.real()) && y.imag() == (t ? 0 : ea.imag()), "where", "where(complex,real) at " << where_str(l, Ix{0, 0, 0, 0})); }
  c.nontrivial();
}
// isnan and isinf: any component of any site; isfinite and isnormal: every one
template <class Q> void classify(Case& c) {
  Q a; typedef typename Words<Q>::type W; uint64_t s = c.seed(), k = 0; walkall(a, [&](int, Ix, W& re, W* im) { auto g = [&] { W v = draw_word<W>(mix(s + ++k), w_nz, 2); return v; }; re = g(); if (im) *im = g(); });
  int plant = (int)c.below(4); uint64_t n = k, nin = 0; const W sp[6] = {(W)INFINITY, -(W)INFINITY, (W)NAN, 0, std::numeric_limits<W>::denorm_min(), std::numeric_limits<W>::max()};
  for (int p = 0; p < plant; ++p) { uint64_t at = c.below(n), j = 0; W v = sp[c.below(6)]; walkall(a, [&](int, Ix, W& re, W* im) { if (j++ == at) re = v; if (im && j++ == at) *im = v; }); }
  bool nan = false, inf = false, fin = true, nor = true; walkall(a, [&](int, Ix, W& re, W* im) { auto g = [&](W v) { nan |= std::isnan(v); inf |= std::isinf(v); fin &= std::isfinite(v); nor &= std::isnormal(v); }; g(re); if (im) g(*im); });
  VF_CHECK(c, isnan(a) == nan, "classify", "isnan gave " << isnan(a)); VF_CHECK(c, isinf(a) == inf, "classify", "isinf gave " << isinf(a)); VF_CHECK(c, isfinite(a) == fin, "classify", "isfinite gave " << isfinite(a)); VF_CHECK(c, isnormal(a) == nor, "classify", "isnormal gave " << isnormal(a));
  VF_CHECK(c, isnan(a + a) == nan || inf, "classify", "isnan(expression) gave " << isnan(a + a)); VF_CHECK(c, isinf(-a) == inf && isfinite(-a) == fin && isnormal(-a) == nor, "classify", "isinf/isfinite/isnormal of -a");
  (void)nin; c.nontrivial(plant > 0);
}
VF_TEST("classify R", 2) { classify<LatticeReal>(c); } VF_TEST("classify RD") { classify<LatticeRealD>(c); } VF_TEST("classify C") { classify<LatticeComplex>(c); } VF_TEST("classify M") { classify<LatticeColorMatrix>(c); } VF_TEST("classify V") { classify<LatticeColorVector>(c); } VF_TEST("classify F") { classify<LatticeFermion>(c); } VF_TEST("classify P") { classify<LatticePropagator>(c); } VF_TEST("classify S") { classify<LatticeSpinMatrix>(c); } VF_TEST("classify sR") { classify<Real>(c); } VF_TEST("classify sC") { classify<Complex>(c); } VF_TEST("classify sM") { classify<ColorMatrix>(c); }
}
