// P04: shifts and maps
#include "stmt.h"
#include "sub.h"
namespace vf {
static int moved(int lex, int sign, int mu) { int x[Nd]; coord_of(lex, x); x[mu] = ((x[mu] + sign) % geo().L[mu] + geo().L[mu]) % geo().L[mu]; return lex_of(x); }
// a site function: dest -> source, by lexicographic index
static std::vector<int> draw_sitefn(Case& c, std::string& nm) {
  int V = geo().vol; std::vector<int> f(V);
  switch (c.below(6)) {
    case 0: { uint64_t s = c.seed(); nm = "hash " + std::to_string(s); for (int i = 0; i < V; ++i) f[i] = site_hash(s, i) % V; break; }
    case 1: { int k = (int)c.below(V); nm = "constant " + std::to_string(k); for (int& x : f) x = k; break; }
    case 2: { int k = (int)c.below(V); nm = "rotation " + std::to_string(k); for (int i = 0; i < V; ++i) f[i] = (i + k) % V; break; }
    case 3: { nm = "reflection"; for (int i = 0; i < V; ++i) { int x[Nd]; coord_of(i, x); for (int m = 0; m < Nd; ++m) x[m] = geo().L[m] - 1 - x[m]; f[i] = lex_of(x); } break; }
    case 4: { int d[Nd]; nm = "displace"; for (int m = 0; m < Nd; ++m) { d[m] = (int)c.below(geo().L[m]); nm += " " + std::to_string(d[m]); } for (int i = 0; i < V; ++i) { int x[Nd]; coord_of(i, x); for (int m = 0; m < Nd; ++m) x[m] = (x[m] + d[m]) % geo().L[m]; f[i] = lex_of(x); } break; }
    default: { uint64_t s = c.seed(); nm = "permutation " + std::to_string(s); for (int i = 0; i < V; ++i) f[i] = i; Rng r(s); for (int i = V; i > 1; --i) std::swap(f[i - 1], f[r.below(i)]); }
  }
  return f;
}
struct Fn : MapFunc { const std::vector<int>* pos; const std::vector<int>* neg; Coord operator()(const Coord& x, int sign) const { return mcoord((*(sign > 0 ? pos : neg))[lex_of(x)]); } };
struct AFn : ArrayMapFunc { const std::vector<std::vector<int>>* pos; const std::vector<std::vector<int>>* neg; Coord operator()(const Coord& x, int sign, int dir) const { return mcoord((*(sign > 0 ? pos : neg))[dir][lex_of(x)]); } int numArray() const { return pos->size(); } };
template <class Q> void expect(Case& c, Q& r, const Q& a, const std::vector<int>& src, const Sub& s, const Q& orig, const std::string& what) {
  for (int l = 0; l < geo().vol; ++l) {
    if (s.in[l]) { if (!bits_eq(Obj<Q>::at(r, l), Obj<Q>::at(a, src[l]))) c.fail("moved", what + ": " + where_str(l, Ix{0, 0, 0, 0}) + " does not hold the value of " + where_str(src[l], Ix{0, 0, 0, 0})); }
    else if (!bits_eq(Obj<Q>::at(r, l), Obj<Q>::at(orig, l))) c.fail("offsubset", what + " changed " + where_str(l, Ix{0, 0, 0, 0}));
  }
}
static std::vector<int> compose(const std::vector<std::vector<int>>& outer_first) {   // outer map first
  std::vector<int> f(geo().vol); for (int i = 0; i < geo().vol; ++i) { int x = i; for (auto& g : outer_first) x = g[x]; f[i] = x; } return f;
}
static std::vector<int> shiftfn(int s, int m) { std::vector<int> f(geo().vol); for (int i = 0; i < geo().vol; ++i) f[i] = moved(i, s, m); return f; }
// plain and nested shifts of a field
template <class Q> void shifts(Case& c) {
  Q a; fill(a, c.seed(), 3); Q r; fill(r, c.seed(), 1); Q o(r);
  Sub s = c.chance(1, 2) ? draw_subset(c) : whole();
  int n = (int)c.below(5); std::vector<std::vector<int>> fs; int sg[4], mu[4]; std::string nm = "shift";
  for (int i = 0; i < n && i < 4; ++i) { sg[i] = c.below(2) ? BACKWARD : FORWARD; mu[i] = (int)c.below(Nd); fs.push_back(shiftfn(sg[i], mu[i])); nm += " " + std::to_string(sg[i]) + "," + std::to_string(mu[i]); }
  if (!n) n = 1, sg[0] = FORWARD, mu[0] = 0, fs.push_back(shiftfn(1, 0));
  c.note(nm + " on " + s.name);
  bool w = s.name == "all" && c.chance(1, 2);
#define SH(k, e) QDP::shift(e, sg[k], mu[k])
#define ASG(e) do { if (w) r = e; else r[s.s] = e; } while (0)
  switch (n) { case 1: ASG(SH(0, a)); break; case 2: ASG(SH(0, SH(1, a))); break; case 3: ASG(SH(0, SH(1, SH(2, a)))); break; default: ASG(SH(0, SH(1, SH(2, SH(3, a))))); }
  expect(c, r, a, compose(fs), s, o, nm);
  // forward then backward, through a temporary
  if (c.chance(1, 3)) { Q t = QDP::shift(a, sg[0], mu[0]); Q u = QDP::shift(t, -sg[0], mu[0]); std::vector<int> id(geo().vol); for (int i = 0; i < geo().vol; ++i) id[i] = i; expect(c, u, a, id, whole(), a, "forward and back"); }
  c.nontrivial(s.count > 0 && geo().vol > 1);
}
#define SHT(T) VF_TEST("shift " #T, 2) { shifts<T>(c); }
SHT(LatticeReal) SHT(LatticeComplex) SHT(LatticeColorVector) SHT(LatticeColorMatrix) SHT(LatticeSpinVector) SHT(LatticeSpinMatrix) SHT(LatticeFermion) SHT(LatticeHalfFermion) SHT(LatticePropagator) SHT(LatticeStaggeredFermion) SHT(LatticeStaggeredPropagator) SHT(LatticeInteger) SHT(LatticeFermionD) SHT(LatticeColorMatrixD) SHT(LatticeRealD) SHT(LatticeComplexD)
VF_TEST("shift LatticeBoolean") { LatticeBoolean a; fill_exact(c, a, 0); int s = c.below(2) ? -1 : 1, mu = (int)c.below(Nd); LatticeBoolean r = QDP::shift(a, s, mu); expect(c, r, a, shiftfn(s, mu), whole(), a, "shift"); c.nontrivial(geo().vol > 1); }
VF_TEST("shift Seed") { LatticeInteger a; fill_exact(c, a, 0); LatticeSeed q; q = a; LatticeSeed r; int s = c.below(2) ? -1 : 1, mu = (int)c.below(Nd); r = QDP::shift(q, s, mu); auto f = shiftfn(s, mu); for (int l = 0; l < geo().vol; ++l) if (memcmp(&r.elem(lin()[l]), &q.elem(lin()[f[l]]), sizeof r.elem(0))) c.fail("moved", "LatticeSeed shift at " + where_str(l, Ix{0, 0, 0, 0})); c.nontrivial(geo().vol > 1); }

// maps from site functions; objects are reused (remade) in the course of the case
template <class Q> void maps(Case& c) {
  Q a; fill(a, c.seed(), 3); int n = 1 + (int)c.below(3);
  Map m; BiDirectionalMap bm; ArrayMap am; ArrayBiDirectionalMap abm;
  for (int k = 0; k < n; ++k) {
    Q r; fill(r, c.seed(), 1); Q o(r); Sub s = c.chance(1, 2) ? draw_subset(c) : whole(); std::string n1, n2;
    switch (c.below(5)) {
      case 0: { auto f = draw_sitefn(c, n1), g = f; for (int& x : g) x = 0; { Fn fn; fn.pos = &f; fn.neg = &g; m.make(fn); } r[s.s] = m(a); c.note("Map " + n1); expect(c, r, a, f, s, o, "Map " + n1);
        VF_CHECK(c, m.Offsets().size() == geo().vol, "offsets", "Offsets().size()=" << m.Offsets().size());
        for (int i = 0; i < geo().vol; ++i) VF_CHECK(c, m.Offsets()[lin()[i]] == lin()[f[i]], "offsets", "Offsets() at site " << i);
        break; }
      case 1: { auto f = draw_sitefn(c, n1), g = draw_sitefn(c, n2); { Fn fn; fn.pos = &f; fn.neg = &g; bm.make(fn); } int sg = c.below(2) ? 1 : -1; r[s.s] = bm(a, sg); c.note("BiDirectionalMap " + n1 + "/" + n2); expect(c, r, a, sg > 0 ? f : g, s, o, "BiDirectionalMap sign " + std::to_string(sg));
        Q r2; r2 = bm(a, -sg); expect(c, r2, a, sg > 0 ? g : f, whole(), o, "BiDirectionalMap other sign"); break; }
      case 2: { int na = 1 + (int)c.below(6); std::vector<std::vector<int>> F, G; for (int i = 0; i < na; ++i) { F.push_back(draw_sitefn(c, n1)); G.push_back(std::vector<int>(geo().vol, 0)); } { AFn fn; fn.pos = &F; fn.neg = &G; am.make(fn); }
        int d = (int)c.below(na); r[s.s] = am(a, d); c.note("ArrayMap"); expect(c, r, a, F[d], s, o, "ArrayMap dir " + std::to_string(d)); 
        for (int i = 0; i < na; ++i) { Q r2; r2 = am(a, i); expect(c, r2, a, F[i], whole(), o, "ArrayMap dir " + std::to_string(i)); } break; }
      case 3: { int na = 1 + (int)c.below(6); std::vector<std::vector<int>> F, G; for (int i = 0; i < na; ++i) { F.push_back(draw_sitefn(c, n1)); G.push_back(draw_sitefn(c, n1)); } { AFn fn; fn.pos = &F; fn.neg = &G; abm.make(fn); }
        int d = (int)c.below(na), sg = c.below(2) ? 1 : -1; r[s.s] = abm(a, sg, d); c.note("ArrayBiDirectionalMap"); expect(c, r, a, sg > 0 ? F[d] : G[d], s, o, "ArrayBiDirectionalMap dir " + std::to_string(d));
        for (int i = 0; i < na; ++i) { Q r2, r3; r2 = abm(a, 1, i); r3 = abm(a, -1, i); expect(c, r2, a, F[i], whole(), o, "ArrayBiDirectionalMap +" + std::to_string(i)); expect(c, r3, a, G[i], whole(), o, "ArrayBiDirectionalMap -" + std::to_string(i)); } break; }
      default: { auto f = draw_sitefn(c, n1), g = draw_sitefn(c, n2); Fn fn; fn.pos = &f; fn.neg = &g; Fn gn; gn.pos = &g; gn.neg = &f; Map m1(fn), m2(gn); int sg = c.below(2) ? 1 : -1, mu = (int)c.below(Nd);
        c.note("nested maps " + n1 + "/" + n2); r[s.s] = m1(QDP::shift(m2(a), sg, mu)); expect(c, r, a, compose({f, shiftfn(sg, mu), g}), s, o, "m1(shift(m2(a)))"); }
    }
    c.nontrivial(s.count > 0 && geo().vol > 1);
  }
}
VF_TEST("maps R", 4) { maps<LatticeReal>(c); } VF_TEST("maps M", 2) { maps<LatticeColorMatrix>(c); } VF_TEST("maps F", 2) { maps<LatticeFermion>(c); } VF_TEST("maps I", 2) { maps<LatticeInteger>(c); } VF_TEST("maps P") { maps<LatticePropagator>(c); } VF_TEST("maps FD") { maps<LatticeFermionD>(c); }

// shifts inside expressions, exact integer values
template <class T> std::vector<long> vals(const T& a) { std::vector<long> v(geo().vol); for (int i = 0; i < geo().vol; ++i) v[i] = (long)Obj<T>::at(a, i).elem().elem().elem(); return v; }
template <class T> void exprs(Case& c) {
  T a, b, e, r; fill_exact(c, a, 0); fill_exact(c, b, 0); fill_exact(c, e, 0); fill_exact(c, r, 0);
  auto A = vals(a), B = vals(b), E = vals(e), R0 = vals(r), W = R0; int s1 = c.below(2) ? 1 : -1, s2 = c.below(2) ? 1 : -1, m1 = (int)c.below(Nd), m2 = (int)c.below(Nd);
  Sub s = c.chance(1, 2) ? draw_subset(c) : whole(); std::string nm; auto f = draw_sitefn(c, nm); Fn fn; fn.pos = &f; fn.neg = &f; Map m(fn);
  // the other kinds of map, with a different function for every sign and direction
  std::string nn; auto p1 = draw_sitefn(c, nn), g1 = draw_sitefn(c, nn); Fn bf; bf.pos = &p1; bf.neg = &g1; BiDirectionalMap bm(bf);
  int na = 1 + (int)c.below(4), dir = (int)c.below(na); std::vector<std::vector<int>> FF_, GG; for (int i = 0; i < na; ++i) { FF_.push_back(draw_sitefn(c, nn)); GG.push_back(draw_sitefn(c, nn)); } AFn af; af.pos = &FF_; af.neg = &GG; ArrayMap am; am.make(af); ArrayBiDirectionalMap abm; abm.make(af);
  const std::vector<int>& bs = s1 > 0 ? p1 : g1; const std::vector<int>& ad = FF_[dir]; const std::vector<int>& as = s2 > 0 ? FF_[dir] : GG[dir];
  int op = (int)c.below(16); c.note("expression " + std::to_string(op) + " " + nm + " on " + s.name);
  auto Sa = [&](int l) { return moved(l, s1, m1); }; auto Sb = [&](int l) { return moved(l, s2, m2); };
  std::function<long(int)> w; auto v = r[s.s];
  using QDP::shift;
  switch (op) {
    case 0: v = shift(a, s1, m1) * b + e; w = [&](int l) { return A[Sa(l)] * B[l] + E[l]; }; break;
    case 1: v = shift(a, s1, m1) * shift(b, s2, m2); w = [&](int l) { return A[Sa(l)] * B[Sb(l)]; }; break;
    case 2: v = shift(a * b - e, s1, m1); w = [&](int l) { int k = Sa(l); return A[k] * B[k] - E[k]; }; break;
    case 3: v += shift(shift(a, s1, m1) * b, s2, m2); w = [&](int l) { int k = Sb(l); return R0[l] + A[Sa(k)] * B[k]; }; break;
    case 4: v -= m(a) * b; w = [&](int l) { return R0[l] - A[f[l]] * B[l]; }; break;
    case 5: v = m(a + shift(b, s1, m1)) - m(e); w = [&](int l) { int k = f[l]; return A[k] + B[Sa(k)] - E[k]; }; break;
    case 6: v *= shift(a, s1, m1); w = [&](int l) { return R0[l] * A[Sa(l)]; }; break;
    case 7: v = shift(a, FORWARD, m1) + shift(a, BACKWARD, m1) + shift(a, FORWARD, m2) - shift(a, BACKWARD, m2); w = [&](int l) { return A[moved(l, 1, m1)] + A[moved(l, -1, m1)] + A[moved(l, 1, m2)] - A[moved(l, -1, m2)]; }; break;
    case 8: v = bm(a + b, s1); w = [&](int l) { int k = bs[l]; return A[k] + B[k]; }; break;
    case 9: v = am(a * b, dir) - e; w = [&](int l) { int k = ad[l]; return A[k] * B[k] - E[l]; }; break;
    case 10: v += abm(a - b, s2, dir); w = [&](int l) { int k = as[l]; return R0[l] + A[k] - B[k]; }; break;
    case 11: v = abm(bm(a, s1) * b, s2, dir); w = [&](int l) { int k = as[l]; return A[bs[k]] * B[k]; }; break;
    case 12: v = bm(-am(a, dir), -s1) + shift(-b, s2, m2); w = [&](int l) { return -A[ad[(s1 > 0 ? g1 : p1)[l]]] - B[Sb(l)]; }; break;
    case 13: v = am(shift(a, s1, m1) + abm(b, s2, dir), dir); w = [&](int l) { int k = ad[l]; return A[Sa(k)] + B[as[k]]; }; break;
    case 14: v = bm(a, s1) * abm(b, s2, dir) - bm(e, -s1); w = [&](int l) { return A[bs[l]] * B[as[l]] - E[(s1 > 0 ? g1 : p1)[l]]; }; break;
    default: v = where(shift(a, s1, m1) < b, shift(b, s2, m2), m(e)); w = [&](int l) { return A[Sa(l)] < B[l] ? B[Sb(l)] : E[f[l]]; };
  }
  auto G = vals(r);
  for (int l = 0; l < geo().vol; ++l) VF_CHECK(c, G[l] == (s.in[l] ? w(l) : R0[l]), s.in[l] ? "value" : "offsubset", "expression " << op << " at " << where_str(l, Ix{0, 0, 0, 0}) << " is " << G[l] << " expected " << (s.in[l] ? w(l) : R0[l]));
  // reductions over shifted expressions
  if (std::is_same<T, LatticeReal>::value && c.chance(1, 3)) {
    long t = 0; for (int l = 0; l < geo().vol; ++l) if (s.in[l]) t += A[Sa(l)] * B[l]; double g = toDouble(Double(sum(shift(a, s1, m1) * b, s.s)));
    VF_CHECK(c, g == (double)t, "sum", "sum(shift(a)*b,s) is " << g << " expected " << t);
  }
  c.nontrivial(s.count > 0 && geo().vol > 1);
}
VF_TEST("expressions R", 6) { exprs<LatticeReal>(c); } VF_TEST("expressions I", 6) { exprs<LatticeInteger>(c); } VF_TEST("expressions RD", 2) { exprs<LatticeRealD>(c); }
// gauge-covariant forms on matrices, compared with the reference
VF_TABLE(gauge) {
  S2(SMALL,M,M,M, r = a * shift(b, FORWARD, 0)) S2(SMALL,M,M,M, r = a * shift(b, FORWARD, 1) * adj(shift(a, FORWARD, 0))) S2(SMALL,F,M,F, r = a * shift(b, FORWARD, Nd - 1)) S2(SMALL,F,M,F, r = shift(adj(a) * b, BACKWARD, Nd - 1)) S2(SMALL,F,M,F, r += a * shift(b, FORWARD, 1) + shift(adj(a) * b, BACKWARD, 1)) S2(SMALL,V,M,V, r = a * shift(b, FORWARD, 0) - shift(adj(a) * b, BACKWARD, 0))
  S2(SMALL,R,M,M, r = real(trace(a * shift(b, FORWARD, 0) * adj(shift(a, FORWARD, 1)) * adj(b)))) S2(SMALL,P,M,P, r = a * shift(b, BACKWARD, 2)) S2(SMALL,C,F,F, r = localInnerProduct(a, shift(b, FORWARD, 2))) S2(SMALL,M,M,M, r -= shift(adj(a), BACKWARD, 0) * b)
}
}
