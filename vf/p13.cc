// Histories of component accesses against a mirror of every component.
#include "stmt.h"
namespace vf {
enum { COL2 = 0, COL1 = 1, SPIN2 = 2, SPIN1 = 3 };
template <int K, class X> auto peekK(const X& x, int i, int j) { if constexpr (K == COL2) return peekColor(x, i, j); else if constexpr (K == COL1) return peekColor(x, i); else if constexpr (K == SPIN2) return peekSpin(x, i, j); else return peekSpin(x, i); }
template <int K, class X, class Y> void pokeK(X&& x, const Y& y, int i, int j) { if constexpr (K == COL2) pokeColor(x, y, i, j); else if constexpr (K == COL1) pokeColor(x, y, i); else if constexpr (K == SPIN2) pokeSpin(x, y, i, j); else pokeSpin(x, y, i); }
template <class T, int K> struct Peeked { typedef typename std::decay<decltype(peekK<K>(std::declval<T>(), 0, 0))>::type type; };
static const char* kname[] = {"Color(i,j)", "Color(i)", "Spin(i,j)", "Spin(i)"};
template <int K> Ten sub_of(const Ten& t, int i, int j) {
  const bool col = K == COL2 || K == COL1; Ten r(col ? t.sr : 1, col ? t.sc : 1, col ? 1 : t.cr, col ? 1 : t.cc);
  for (int a = 0; a < r.sr; ++a) for (int b = 0; b < r.sc; ++b) for (int c = 0; c < r.cr; ++c) for (int d = 0; d < r.cc; ++d) r.at(a, b, c, d) = col ? t.at(a, b, i, K == COL2 ? j : 0) : t.at(i, K == SPIN2 ? j : 0, c, d);
  return r;
}
template <int K> void set_sub(Ten& t, const Ten& r, int i, int j) {
  const bool col = K == COL2 || K == COL1;
  for (int a = 0; a < r.sr; ++a) for (int b = 0; b < r.sc; ++b) for (int c = 0; c < r.cr; ++c) for (int d = 0; d < r.cc; ++d) (col ? t.at(a, b, i, K == COL2 ? j : 0) : t.at(i, K == SPIN2 ? j : 0, c, d)) = r.at(a, b, c, d);
}
template <class A, int K> void component(Case& c, A& a, Ref& m) {
  int n = (K == COL2 || K == COL1) ? Nc : (int)Dim<typename Obj<A>::elem>::sr, i = (int)c.below(n), j = (int)c.below(n);
  typedef typename Peeked<typename Obj<A>::elem, K>::type ET;
  typedef typename std::conditional<(bool)Obj<A>::lattice, OLattice<ET>, OScalar<ET>>::type C; typedef OScalar<ET> CS;
  int op = (int)c.below(7); std::string nm = std::string(op < 2 ? "peek" : "poke") + kname[K] + " " + std::to_string(i) + "," + std::to_string(j) + " op" + std::to_string(op); c.note(nm);
  auto all_sub = [&](const Ref& x) { return r1(x, [&](const Ten& t) { return sub_of<K>(t, i, j); }); };
  switch (op) {
    case 0: { C r; r = peekK<K>(a, i, j); compare(c, r, all_sub(m), nullptr, nm, 0, 0, "peek"); break; }
    case 1: { C r; r = peekK<K>(a + a, i, j); compare(c, r, all_sub(m + m), nullptr, nm + " of an expression", 0, 0, "peek"); break; }
    case 2: case 3: case 4: case 5: case 6: {
      bool sc = op == 4, ex = op == 3 || op == 6, view = op >= 5; C f, g; CS s;  fill(f, c.seed(), 0); fill(g, c.seed(), 0); fill(s, c.seed(), 0);
      if (op == 5 && c.chance(1, 3)) sc = true;
      Sub sub = whole(); if (view) { sub = draw_subset(c); c.note("on " + sub.name); }
      Ref src = sc ? load(s) : ex ? load(f) + load(g) : load(f);
      if (view) { auto v = a[sub.s]; if (sc) pokeK<K>(v, s, i, j); else if (ex) pokeK<K>(v, f + g, i, j); else pokeK<K>(v, f, i, j); }
      else if (sc) pokeK<K>(a, s, i, j); else if (ex) pokeK<K>(a, f + g, i, j); else pokeK<K>(a, f, i, j);
      for (size_t l = 0; l < m.s.size(); ++l) if (!Obj<A>::lattice || sub.in[l]) set_sub<K>(m.s[l], src.at(l), i, j);
    }
  }
}
template <class A, int K1, int K2> void site_ops(Case& c, A& a, Ref& m) {
  typedef typename Obj<A>::elem T; int V = geo().vol, l = (int)c.below(V); Coord x = mcoord(l);
  switch (c.below(9)) {
    case 0: { c.note("peekSite " + std::to_string(l)); OScalar<T> s = peekSite(a, x); compare(c, s, Ref(std::vector<Ten>{m.s[l]}), nullptr, "peekSite", 0, 0, "peekSite"); break; }
    case 1: { c.note("peekSite of an expression"); OScalar<T> s = peekSite(a + a, x); compare(c, s, Ref(std::vector<Ten>{m.s[l] + m.s[l]}), nullptr, "peekSite(a+a)", 0, 0, "peekSite"); break; }
    case 2: { c.note("pokeSite " + std::to_string(l)); OScalar<T> s; fill(s, c.seed(), 0); pokeSite(a, s, x); m.s[l] = load(s).s[0]; break; }
    case 3: { Sub sub = draw_subset(c); c.note("QDP_extract on " + sub.name); multi1d<OScalar<T>> d(V); uint64_t sd = c.seed(); for (int i = 0; i < V; ++i) fill(d[i], sd + i, 0); std::vector<std::string> b; for (int i = 0; i < V; ++i) b.push_back(bits(d[i].elem()));
      QDP_extract(d, a, sub.s);
      for (int i = 0; i < V; ++i) { int k = lin()[i]; if (sub.in[i]) compare(c, d[k], Ref(std::vector<Ten>{m.s[i]}), nullptr, "QDP_extract", 0, 0, "extract"); else VF_CHECK(c, bits(d[k].elem()) == b[k], "extract", "QDP_extract wrote the entry of a site outside the subset"); }
      break; }
    case 4: { Sub sub = draw_subset(c); c.note("QDP_insert on " + sub.name); multi1d<OScalar<T>> d(V); uint64_t sd = c.seed(); for (int i = 0; i < V; ++i) fill(d[i], sd + i, 0);
      QDP_insert(a, d, sub.s); for (int i = 0; i < V; ++i) if (sub.in[i]) m.s[i] = load(d[lin()[i]]).s[0]; break; }
    case 5: { Sub sub = draw_subset(c); c.note("extract then insert on " + sub.name); multi1d<OScalar<T>> d(V); QDP_extract(d, a, sub.s); QDP_insert(a, d, sub.s); break; }
    case 6: { c.note("copymask"); LatticeBoolean k; fill(k, c.seed(), 2); A b; fill(b, c.seed(), 0); Ref r = load(b); copymask(a, k, b); for (int i = 0; i < V; ++i) if (Obj<LatticeBoolean>::at(k, i).elem().elem().elem()) m.s[i] = r.s[i]; break; }
    case 7: { c.note("copymask on a subset"); Sub sub = draw_subset(c); LatticeBoolean k; fill(k, c.seed(), 2); A b; fill(b, c.seed(), 0); Ref r = load(b); copymask(a[sub.s], k, b); for (int i = 0; i < V; ++i) if (sub.in[i] && Obj<LatticeBoolean>::at(k, i).elem().elem().elem()) m.s[i] = r.s[i]; break; }
    default: { c.note("where"); LatticeBoolean k; fill(k, c.seed(), 2); A b; fill(b, c.seed(), 0); Ref r = load(b); A t; t = where(k, b, a); a = t; for (int i = 0; i < V; ++i) if (Obj<LatticeBoolean>::at(k, i).elem().elem().elem()) m.s[i] = r.s[i]; }
  }
}
template <class A, int K1, int K2, bool LAT> void history(Case& c) {
  A a; fill(a, c.seed(), 0); Ref m = load(a); int n = 2 + (int)c.below(8);
  for (int i = 0; i < n; ++i) {
    int w = (int)c.below(LAT ? 6 : 4);
    if (w < 2) component<A, K1>(c, a, m); else if (w < 4) component<A, K2>(c, a, m);
    else if constexpr (LAT) site_ops<A, K1, K2>(c, a, m);
    compare(c, a, m, nullptr, "after that", 0, 0, "state");
  }
  c.nontrivial();
}
#define HIST(A, K1, K2) VF_TEST("history " #A) { history<A, K1, K2, Obj<A>::lattice>(c); }
HIST(M, COL2, COL2) HIST(V, COL1, COL1) HIST(F, COL1, SPIN1) HIST(P, COL2, SPIN2) HIST(S, SPIN2, SPIN2) HIST(W, SPIN1, SPIN1) HIST(H, COL1, SPIN1) HIST(X, COL1, COL1) HIST(MD, COL2, COL2) HIST(FD, COL1, SPIN1) HIST(PD, COL2, SPIN2)
HIST(sM, COL2, COL2) HIST(sV, COL1, COL1) HIST(sF, COL1, SPIN1) HIST(sP, COL2, SPIN2) HIST(sS, SPIN2, SPIN2) HIST(sW, SPIN1, SPIN1)
// fields without colour or spin
template <class A> void simple(Case& c) {
  typedef typename Obj<A>::elem T; A a; fill(a, c.seed(), 0); Ref m = load(a); int n = 3 + (int)c.below(6);
  for (int i = 0; i < n; ++i) { int l = (int)c.below(geo().vol); OScalar<T> s; if (c.chance(1, 2)) { fill(s, c.seed(), 0); pokeSite(a, s, mcoord(l)); m.s[l] = load(s).s[0]; c.note("poke"); } else { s = peekSite(a, mcoord(l)); compare(c, s, Ref(std::vector<Ten>{m.s[l]}), nullptr, "peekSite", 0, 0, "peekSite"); } }
  compare(c, a, m, nullptr, "after pokes", 0, 0, "state"); c.nontrivial();
}
VF_TEST("sites R") { simple<R>(c); } VF_TEST("sites C") { simple<C>(c); } VF_TEST("sites RD") { simple<RD>(c); } VF_TEST("sites I") { simple<LatticeInteger>(c); } VF_TEST("sites B") { simple<LatticeBoolean>(c); }
VF_TEST("word accessors") {
  int i = (int)c.bits(); double d = (double)c.range(-1000000, 1000000) / 977; bool b = c.chance(1, 2);
  Integer I_(i); Real R_(d); RealD D_(d); RealF F_(d); Boolean B_(b);
  VF_CHECK(c, toInt(I_) == i && toWordType(I_) == i, "int", "toInt(" << i << ")"); VF_CHECK(c, toDouble(D_) == d && toWordType(D_) == d, "double", "toDouble(" << d << ")"); VF_CHECK(c, toFloat(F_) == (float)d && toWordType(F_) == (float)d && toDouble(F_) == (double)(float)d, "float", "toFloat(" << d << ")");
  VF_CHECK(c, toBool(B_) == b && toWordType(B_) == b, "bool", "toBool"); VF_CHECK(c, toDouble(R_) == (double)R_.elem().elem().elem().elem() && toFloat(D_) == (float)d && toFloat(R_) == (float)d, "real", "toFloat/toDouble of Real"); VF_CHECK(c, toBool(I_ == i) && toBool(D_ == d), "bool", "toBool of a comparison");
  c.nontrivial();
}
// every component of one field: assembled from its parts, and taken apart again
VF_TEST("assemble") {
  P p, q; fill(p, c.seed(), 1); q = zero; M m; S s;
  if (c.chance(1, 2)) for (int i = 0; i < Ns; ++i) for (int j = 0; j < Ns; ++j) { m = peekSpin(p, i, j); pokeSpin(q, m, i, j); }
  else for (int i = 0; i < Nc; ++i) for (int j = 0; j < Nc; ++j) { s = peekColor(p, i, j); pokeColor(q, s, i, j); }
  for (int l = 0; l < geo().vol; ++l) VF_CHECK(c, bits_eq(Obj<P>::at(p, l), Obj<P>::at(q, l)), "assemble", "a propagator rebuilt from its components differs");
  int l = (int)c.below(geo().vol); Propagator sp = peekSite(p, mcoord(l)); SpinMatrix ss; Complex z; int i = (int)c.below(Nc), j = (int)c.below(Nc), u = (int)c.below(Ns), v = (int)c.below(Ns);
  ss = peekColor(sp, i, j); z = peekSpin(ss, u, v); auto& e = Obj<P>::at(p, l).elem(u, v).elem(i, j);
  VF_CHECK(c, z.elem().elem().elem().real() == e.real() && z.elem().elem().elem().imag() == e.imag(), "nested", "peekSpin(peekColor(peekSite)) differs from the component");
  LatticeComplex lz; lz = peekSpin(peekColor(p, i, j), u, v); VF_CHECK(c, bits_eq(Obj<C>::at(lz, l).elem().elem(), e), "nested", "nested lattice peeks differ from the component");
  c.nontrivial();
}
}
